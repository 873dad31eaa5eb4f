//! C26: short-time spectra
use crate::rt::*;
use crate::*;
use essay_tensor::signal::{rfft_norm, FftArg, FftOpt};
use rustfft::{num_complex::Complex, FftPlanner};

/// the magnitudes of the transform of one windowed row
fn spectrum(x: &[f32]) -> Vec<f32> {
    let n = x.len();
    let step = std::f32::consts::PI / n as f32;
    let mut b: Vec<Complex<f32>> = Vec::new();
    let mut i = 0;
    while i < n { let w = (step * i as f32).sin(); b.push(Complex { re: x[i] * (w * w), im: 0. }); i += 1; }
    FftPlanner::<f32>::new().plan_fft_forward(n).process(&mut b);
    b[..n / 2 + 1].iter().map(|c| c.norm()).collect()
}

harnesses! {
/// every row on its own: half the length plus one magnitudes
fn h_c26_rows() {
    let len = pick(1, 8);
    let outer = [&[][..], &[1], &[3], &[2, 2], &[1, 2, 1]][pick(0, 4)];
    let mut d = outer.to_vec();
    d.push(len);
    let (t, v) = fmk(&d);
    let r = rfft_norm(&t, ());
    let mut e = Vec::new();
    let mut k = 0;
    while k < v.len() { e.extend(spectrum(&v[k..k + len])); k += len; }
    let mut o = outer.to_vec();
    o.push(len / 2 + 1);
    fsame!(&r, &o, &e);
    reach(1);
}
/// a length asked for: the leading magnitudes, zeros beyond
fn h_c26_length() {
    let len = pick(1, 8);
    let outer = [&[][..], &[2], &[2, 1]][pick(0, 2)];
    let mut d = outer.to_vec();
    d.push(len);
    let (t, v) = fmk(&d);
    let want = pick(1, 11);
    let r = match pick(0, 2) { 0 => rfft_norm(&t, ().fft_length(want)), 1 => rfft_norm(t.clone(), FftArg::default().fft_length(want)), _ => rfft_norm(&t, ().fft_length(want + 1).fft_length(want)) };
    let mut e = Vec::new();
    let mut k = 0;
    while k < v.len() { let mut s = spectrum(&v[k..k + len]); s.resize(want, 0.); e.extend(s); k += len; }
    let mut o = outer.to_vec();
    o.push(want);
    fsame!(&r, &o, &e);
    reach(1);
}
/// longer rows, several of them
fn h_c26_long() {
    let len = [9, 10, 11, 12, 13, 15, 16, 17, 24, 32, 64, 100, 256][pick(0, 12)];
    let outer = [&[][..], &[2], &[2, 1]][pick(0, 2)];
    let mut d = outer.to_vec();
    d.push(len);
    let (t, v) = fmk(&d);
    let r = rfft_norm(&t, ());
    let mut e = Vec::new();
    let mut k = 0;
    while k < v.len() { e.extend(spectrum(&v[k..k + len])); k += len; }
    let mut o = outer.to_vec();
    o.push(len / 2 + 1);
    fsame!(&r, &o, &e);
    reach(1);
}
}
