//! C22: decoding WAV files
use crate::rt::*;
use crate::*;
use essay_tensor::io::decode_wav;
use essay_tensor::tensor::Tensor;

fn le(b: &[u8], at: usize, n: usize) -> u64 { let mut r = 0; let mut i = 0; while i < n { r |= (b[at + i] as u64) << (8 * i); i += 1; } r }
fn tag(b: &[u8], at: usize, t: &[u8; 4]) -> bool { (b[at] == t[0]) & (b[at + 1] == t[1]) & (b[at + 2] == t[2]) & (b[at + 3] == t[3]) }
/// a header of a 16-bit PCM file
fn header(total: usize, channels: u16, rate: u32, size: u32) -> Vec<u8> {
    let mut b = Vec::new();
    b.extend_from_slice(b"RIFF");
    b.extend_from_slice(&(total as u32 - 8).to_le_bytes());
    b.extend_from_slice(b"WAVEfmt ");
    b.extend_from_slice(&16u32.to_le_bytes());
    b.extend_from_slice(&1u16.to_le_bytes());
    b.extend_from_slice(&channels.to_le_bytes());
    b.extend_from_slice(&rate.to_le_bytes());
    b.extend_from_slice(&(bits(32) as u32).to_le_bytes());
    b.extend_from_slice(&(bits(16) as u16).to_le_bytes());
    b.extend_from_slice(&16u16.to_le_bytes());
    b.extend_from_slice(b"data");
    b.extend_from_slice(&size.to_le_bytes());
    b
}
fn decode(b: Vec<u8>) -> Option<(Tensor<f32>, Tensor<usize>)> {
    if pick(0, 1) == 0 || b.is_empty() { attempt(|| decode_wav(b)) } else {
        // a view inside a larger tensor
        let n = b.len();
        let mut w = vec![7u8; 3];
        w.extend_from_slice(&b);
        w.push(9);
        w.push(9);
        let t = Tensor::from(w).subslice(3, n);
        attempt(|| decode_wav(&t))
    }
}
/// what a file that fits decodes to
fn decoded(r: &(Tensor<f32>, Tensor<usize>), b: &[u8], n: usize, ch: usize) {
    same_shape(&r.0, &[if n == 0 { 0 } else { n / ch }, ch], line!() as u64);
    let mut i = 0;
    while i < n {
        let x = le(b, 44 + 2 * i, 2) as u16 as i16;
        ckeq!(r.0.as_slice()[i].to_bits(), (x as f32 / 32768.).to_bits());
        i += 1;
    }
    same_shape(&r.1, &[], line!() as u64);
    ckeq!(r.1.as_slice()[0], le(b, 24, 4));
}

harnesses! {
/// every sample, rate and derived field; n samples of ch channels, possibly followed by something else
fn h_c22_valid() {
    let ch = pick(1, if tier() > 0 { 6 } else { 3 });
    let frames = pick(0, if tier() > 0 { 6 } else { 3 });
    let n = ch * frames;
    let odd = pick(0, 1);
    let extra = [0, 4][pick(0, 1)] + odd;
    let total = 44 + 2 * n + extra;
    let mut b = header(total, ch as u16, bits(32) as u32, 2 * n as u32 + odd as u32);
    while b.len() < total { b.push(bits(8) as u8); }
    match decode(b.clone()) { None => ck!(false), Some(r) => decoded(&r, &b, n, ch) }
    reach(1);
}
/// the value of a sample, as a number
fn h_c22_sample() {
    let mut b = header(46, 1, 8000, 2);
    b.push(bits(8) as u8);
    b.push(bits(8) as u8);
    let (lo, hi) = (b[44], b[45]);
    match decode(b) {
        None => ck!(false),
        Some(r) => {
            let x = r.0.as_slice()[0];
            ck!(x >= -1. && x < 1.);
            // 1/32768 per unit, sign in the top bit of the second byte
            let u = (hi as i32 * 256 + lo as i32) - if hi >= 128 { 65536 } else { 0 };
            ck!(x * 32768. == u as f32);
        }
    }
    reach(1);
}
/// every header: accepted exactly when it is that of a 16-bit PCM file of this length
fn h_c22_header() {
    let n = [0, 1, 2, 3, 4][pick(0, 4)];
    let total = 44 + 2 * n;
    let good = header(total, 2, 16000, 2 * n as u32);
    // one part of the header is arbitrary
    let (at, len) = [(0, 4), (4, 4), (8, 4), (12, 4), (16, 4), (20, 2), (22, 2), (34, 2), (36, 4), (40, 4)][pick(0, 9)];
    let mut b = good.clone();
    let mut i = 0;
    while i < len { b[at + i] = bits(8) as u8; i += 1; }
    while b.len() < total { b.push(bits(8) as u8); }
    let ch = le(&b, 22, 2) as usize;
    let size = le(&b, 40, 4) as usize;
    let fits = tag(&b, 0, b"RIFF") & (le(&b, 4, 4) as usize == total - 8) & tag(&b, 8, b"WAVE") & tag(&b, 12, b"fmt ") & (le(&b, 16, 4) == 16)
        & (le(&b, 20, 2) == 1) & (le(&b, 34, 2) == 16) & tag(&b, 36, b"data") & (size <= 2 * n) & (ch > 0);
    match decode(b.clone()) {
        None => { ck!(!fits | (((size / 2) % if ch == 0 { 1 } else { ch }) != 0)); reach(2) }
        Some(r) => {
            ck!(fits);
            let s = conc(size / 2);
            let c = if s == 0 { ch } else { conc(ch) };
            ck!(s == 0 || s % c == 0);
            decoded(&r, &b, s, c);
            reach(1)
        }
    }
}
/// any bytes at all: no read outside them, and acceptance only of a consistent header
fn h_c22_any() {
    let total = pick(0, if tier() > 0 { 52 } else { 48 });
    let b: Vec<u8> = (0..total).map(|_| bits(8) as u8).collect();
    match decode(b.clone()) {
        None => reach(2),
        Some(r) => {
            ck!(total >= 44);
            ck!(tag(&b, 0, b"RIFF") & (le(&b, 4, 4) as usize == total - 8) & tag(&b, 8, b"WAVE") & tag(&b, 12, b"fmt ") & (le(&b, 16, 4) == 16));
            ck!((le(&b, 20, 2) == 1) & (le(&b, 34, 2) == 16) & tag(&b, 36, b"data"));
            let n = conc(le(&b, 40, 4) as usize / 2);
            let ch = le(&b, 22, 2) as usize;
            let ch = if n == 0 { ch } else { conc(ch) };
            ck!(ch > 0 && 44 + 2 * n <= total && (n == 0 || n % ch == 0));
            decoded(&r, &b, n, ch);
            reach(1)
        }
    }
}
}
