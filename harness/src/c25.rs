//! C25: evenly spaced sequences and one-hot vectors
use crate::rt::*;
use crate::*;
use essay_tensor::init::{arange, geomspace, linspace, logspace, logspace_opt, one_hot};
use essay_tensor::tensor::Tensor;

const SHAPES: &[&[usize]] = &[&[], &[1], &[3], &[2, 2], &[1, 3], &[3, 1, 2]];
fn prepend(len: usize, d: &[usize]) -> Vec<usize> { let mut v = vec![len]; v.extend_from_slice(d); v }
fn count() -> usize { if tier() > 0 { pick(0, 12) } else { [0, 1, 2, 3, 5, 9][pick(0, 5)] } }
fn pair(d: &[usize]) -> (Tensor<f32>, Tensor<f32>, Vec<f32>, Vec<f32>) {
    let n = prod(d);
    let (v, w) = (fsyms(n), fsyms(n));
    let mut i = 0;
    while i < n { assume(v[i] <= w[i]); i += 1; }
    (Tensor::from_vec(v.clone(), d), Tensor::from_vec(w.clone(), d), v, w)
}

harnesses! {
/// on whole numbers: start + k * step for k in 0..len, per entry, the last one being the end
fn h_c25_linspace() {
    let d = SHAPES[pick(0, SHAPES.len() - 1)];
    let len = count();
    let n = prod(d);
    let a: Vec<u64> = (0..n).map(|_| bits(8)).collect();
    let s: Vec<u64> = (0..n).map(|_| bits(4)).collect();
    let start: Vec<f32> = a.iter().map(|x| *x as f32).collect();
    let last = if len == 0 { 0 } else { len as u64 - 1 };
    let end: Vec<f32> = (0..n).map(|i| (a[i] + s[i] * if len == 1 { 3 } else { last }) as f32).collect();
    let (ts, te) = (Tensor::from_vec(start.clone(), d), Tensor::from_vec(end.clone(), d));
    let r = match pick(0, 1) { 0 => linspace(ts, te, len), _ => ts.linspace(&te, len) };
    let mut e = Vec::new();
    let mut k = 0;
    while k < len { let mut i = 0; while i < n { e.push((a[i] + s[i] * k as u64) as f32); i += 1; } k += 1; }
    fsame!(&r, &prepend(len, d), &e);
    reach(1);
}
/// for every value: one step width per entry, each element from its own index
fn h_c25_linspace_any() {
    let d = SHAPES[pick(0, SHAPES.len() - 1)];
    let len = count();
    let (ts, te, v, w) = pair(d);
    let r = linspace(&ts, &te, len);
    let mut e = Vec::new();
    let mut k = 0;
    while k < len { let mut i = 0; while i < v.len() {
        let step = if len > 1 { (w[i] - v[i]) / (len - 1) as f32 } else { 0. };
        e.push(v[i] + step * k as f32);
        i += 1; } k += 1; }
    fsame!(&r, &prepend(len, d), &e);
    reach(1);
}
/// powers of the base with evenly spaced exponents
fn h_c25_logspace() {
    let d = SHAPES[pick(0, SHAPES.len() - 1)];
    let len = count();
    let (ts, te, v, w) = pair(d);
    let b = f32s();
    let (r, base) = match pick(0, 4) {
        0 => (logspace(&ts, &te, len), 10.),
        1 => (ts.logspace(&te, len), 10.),
        2 => (logspace_opt(&ts, &te, len, None), 10.),
        3 => (logspace_opt(&ts, &te, len, Some(b)), b),
        _ => (logspace_opt(&ts, &te, len, b), b),
    };
    let mut e = Vec::new();
    let mut k = 0;
    while k < len { let mut i = 0; while i < v.len() {
        let step = if len > 1 { (w[i] - v[i]) / (len - 1) as f32 } else { 0. };
        e.push(base.powf(v[i] + step * k as f32));
        i += 1; } k += 1; }
    fsame!(&r, &prepend(len, d), &e);
    reach(1);
}
/// evenly spaced logarithms
fn h_c25_geomspace() {
    let d = SHAPES[pick(0, SHAPES.len() - 1)];
    let len = count();
    let n = prod(d);
    let (v, w) = (fsyms(n), fsyms(n));
    let mut i = 0;
    while i < n { assume(v[i].ln() <= w[i].ln()); i += 1; }
    let (ts, te) = (Tensor::from_vec(v.clone(), d), Tensor::from_vec(w.clone(), d));
    let r = match pick(0, 1) { 0 => geomspace(&ts, &te, len), _ => ts.geomspace(&te, len) };
    let mut e = Vec::new();
    let mut k = 0;
    while k < len { let mut i = 0; while i < v.len() {
        let (a, b) = (v[i].ln(), w[i].ln());
        let step = if len > 1 { (b - a) / (len - 1) as f32 } else { 0. };
        e.push((a + step * k as f32).exp());
        i += 1; } k += 1; }
    let o = if n == 1 { vec![len] } else { prepend(len, d) };
    fsame!(&r, &o, &e);
    reach(1);
}
/// a start above the end in any entry, or different shapes, are rejected
fn h_c25_rejects() {
    let d = SHAPES[pick(0, SHAPES.len() - 1)];
    let n = prod(d);
    let len = pick(0, 3);
    if pick(0, 1) == 0 {
        let (v, w) = (fsyms(n), fsyms(n));
        let at = pick(0, n - 1);
        assume(v[at] > w[at]);
        let (ts, te) = (Tensor::from_vec(v, d), Tensor::from_vec(w, d));
        match pick(0, 1) { 0 => ck!(rejects(|| linspace(&ts, &te, len))), _ => ck!(rejects(|| logspace(&ts, &te, len))) }
    } else {
        let g = SHAPES[pick(0, SHAPES.len() - 1)];
        assume(d != g);
        let (ts, te) = (Tensor::fill(d, 1f32), Tensor::fill(g, 2f32));
        match pick(0, 2) { 0 => ck!(rejects(|| linspace(&ts, &te, len))), 1 => ck!(rejects(|| logspace(&ts, &te, len))), _ => ck!(rejects(|| geomspace(&ts, &te, len))) }
    }
    reach(1);
}
/// start, start + step, .. up to but without the end, in either direction
fn h_c25_arange() {
    let n = pick(0, if tier() > 0 { 12 } else { 6 });
    let step = pick(1, 3) as u64;
    let a = bits(8);
    let cut = if n == 0 { 0 } else { pick(0, step as usize - 1) as u64 };
    if pick(0, 1) == 0 {
        let end = a + step * n as u64 - cut;
        let (s, e, d) = (a as f32, end as f32, step as f32);
        let r = if pick(0, 1) == 0 { arange(s, e, d) } else { Tensor::arange(s, e, d) };
        let x: Vec<f32> = (0..n as u64).map(|k| (a + k * step) as f32).collect();
        fsame!(&r, &[n], &x);
    } else {
        let start = a + step * n as u64;
        let (s, e, d) = (start as f32, (a + cut) as f32, -(step as f32));
        let r = arange(s, e, d);
        let x: Vec<f32> = (0..n as u64).map(|k| (a + step * (n as u64 - k)) as f32).collect();
        fsame!(&r, &[n], &x);
    }
    reach(1);
}
/// a step of any width, going up
fn h_c25_arange_step() {
    let n = pick(0, 5);
    let step = 1 + bits(5);
    let a = bits(8);
    let end = a + step * n as u64;
    let r = arange(a as f32, end as f32, step as f32);
    let x: Vec<f32> = (0..n as u64).map(|k| (a + k * step) as f32).collect();
    fsame!(&r, &[n], &x);
    reach(1);
}
fn h_c25_arange_rejects() {
    let (a, b, s) = (f32s(), f32s(), f32s());
    match pick(0, 2) {
        0 => { let z = if pick(0, 1) == 0 { 0f32 } else { -0f32 }; ck!(rejects(|| arange(a, b, z))) }
        1 => { assume(a > b && s > 0.); ck!(rejects(|| arange(a, b, s))) }
        _ => { assume(a < b && s < 0.); ck!(rejects(|| arange(a, b, s))) }
    }
    reach(1);
}
/// one at the given positions, zero elsewhere; a position outside is rejected
fn h_c25_one_hot() {
    let depth = pick(0, 5);
    let n = pick(0, 3);
    let ix: Vec<usize> = (0..n).map(|_| usz()).collect();
    let mut inside = true;
    for i in ix.iter() { inside &= *i < depth; }
    let r = attempt(|| if pick(0, 1) == 0 { one_hot(&ix, depth) } else { Tensor::one_hot(ix.as_slice(), depth) });
    match r {
        None => { ck!(!inside); reach(2) }
        Some(t) => {
            ck!(inside);
            same_shape(&t, &[depth], line!() as u64);
            let mut k = 0;
            while k < depth {
                let mut hit = false;
                for i in ix.iter() { hit |= *i == k; }
                ckeq!(t.as_slice()[k].to_bits(), if hit { 1f32.to_bits() } else { 0 });
                k += 1;
            }
            reach(1)
        }
    }
}
}
