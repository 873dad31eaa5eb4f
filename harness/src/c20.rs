//! C20: numeric reductions
use crate::rt::*;
use crate::*;
use essay_tensor::tensor::{Tensor, Type};
use std::ops;

/// an element whose + and * are arbitrary functions
#[derive(Clone, Copy)]
struct V(u64);
impl Type for V {}
impl ops::Add for V { type Output = V; fn add(self, o: V) -> V { V(f2(1, self.0, o.0)) } }
impl ops::Mul for V { type Output = V; fn mul(self, o: V) -> V { V(f2(2, self.0, o.0)) } }
fn some_dims() -> Vec<usize> { let d = if pick(0, 3) == 0 { big_dims() } else { any_dims_rank(1, 6) }; assume(!zero_dim(&d)); d }
fn lane<T: Copy>(d: &[usize], v: &[T], axis: usize, k: usize) -> Vec<T> {
    let (_, n, i) = lanes(d, axis);
    let (a, b) = (k / i, k % i);
    let mut out = Vec::new();
    let mut j = 0;
    while j < n { out.push(v[(a * n + j) * i + b]); j += 1; }
    out
}
fn out_dims(d: &[usize], axis: usize) -> Vec<usize> { if d.len() == 1 { vec![] } else { without(d, axis) } }
fn fold(f: u64, v: &[u64]) -> u64 { let mut s = v[0]; let mut k = 1; while k < v.len() { s = f2(f, s, v[k]); k += 1; } s }
fn values(t: &Tensor<V>, d: &[usize], e: &[u64], id: u64) {
    same_shape(t, d, id);
    let s = t.as_slice();
    check(s.len() == e.len(), id);
    let mut i = 0;
    while i < e.len() { check_eq(s[i].0, e[i], id); i += 1; }
}
/// the reductions of an f32 tensor: over everything, and along an axis
fn whole(k: usize, t: &Tensor<f32>) -> Tensor<f32> {
    match k { 0 => t.reduce_sum(), 1 => t.reduce_product(), 2 => t.reduce_min(), 3 => t.reduce_max(), 4 => t.reduce_mean(), 5 => t.reduce_variance(), _ => t.reduce_std() }
}
fn along(k: usize, t: &Tensor<f32>, a: impl Into<essay_tensor::tensor::Axis>) -> Tensor<f32> {
    match k {
        0 => t.reduce_sum_axis(a), 1 => t.reduce_product_axis(a), 2 => t.reduce_min_axis(a), 3 => t.reduce_max_axis(a),
        4 => t.reduce_mean_axis(a), 5 => t.reduce_variance_axis(a), _ => t.reduce_std_axis(a),
    }
}
/// small whole numbers, on which f32 arithmetic is exact
fn counts(n: usize, w: u32) -> Vec<f32> { (0..n).map(|_| bits(w) as f32).collect() }
fn tensor(d: &[usize], v: &[f32]) -> Tensor<f32> {
    if pick(0, 1) == 0 { return Tensor::from_vec(v.to_vec(), d); }
    let mut w = vec![1e9f32; 2];
    w.extend_from_slice(v);
    w.push(-1e9);
    let n = w.len();
    Tensor::from_vec(w, [n]).subslice_flat(2, v.len(), d)
}

harnesses! {
/// sums and products of elements with arbitrary + and *: in order, from the first element of the lane
fn h_c20_sum_product() {
    let d = some_dims();
    let v = syms(prod(&d));
    let t = Tensor::from_vec(v.iter().map(|x| V(*x)).collect::<Vec<V>>(), d.as_slice());
    if pick(0, 1) == 0 {
        values(&t.reduce_sum(), &[], &[fold(1, &v)], line!() as u64);
        values(&t.reduce_product(), &[], &[fold(2, &v)], line!() as u64);
    } else {
        let (at, a) = any_axis(d.len());
        let n = v.len() / d[at];
        let s: Vec<u64> = (0..n).map(|k| fold(1, &lane(&d, &v, at, k))).collect();
        values(&t.reduce_sum_axis(a), &out_dims(&d, at), &s, line!() as u64);
        let p: Vec<u64> = (0..n).map(|k| fold(2, &lane(&d, &v, at, k))).collect();
        values(&t.reduce_product_axis(a), &out_dims(&d, at), &p, line!() as u64);
    }
    reach(1);
}
/// a reduction along an axis is the reduction of each lane on its own, for every value
fn h_c20_lanes() {
    let k = pick(0, 6);
    let d = any_dims_rank(1, 6);
    assume(!zero_dim(&d));
    let (t, v) = fmk(&d);
    let (at, a) = any_axis(d.len());
    let r = along(k, &t, a);
    same_shape(&r, &out_dims(&d, at), line!() as u64);
    let n = v.len() / d[at];
    let mut i = 0;
    while i < n {
        let one = Tensor::from(lane(&d, &v, at, i));
        let e = whole(k, &one);
        same_shape(&e, &[], line!() as u64);
        ckeq!(r.as_slice()[i].to_bits(), e.as_slice()[0].to_bits());
        i += 1;
    }
    reach(1);
}
/// without an axis the whole tensor is one lane, in row-major order
fn h_c20_all() {
    let k = pick(0, 6);
    let d = any_dims();
    assume(!zero_dim(&d));
    let (t, v) = fmk(&d);
    let e = whole(k, &Tensor::from(v.clone()));
    let r = whole(k, &t);
    same_shape(&r, &[], line!() as u64);
    ckeq!(r.as_slice()[0].to_bits(), e.as_slice()[0].to_bits());
    let r = along(k, &t, None);
    same_shape(&r, &[], line!() as u64);
    ckeq!(r.as_slice()[0].to_bits(), e.as_slice()[0].to_bits());
    reach(1);
}
/// least and greatest: one of the elements, and no other lies beyond it; NaN only when all are
fn h_c20_min_max() {
    let n = pick(1, if tier() > 0 { 5 } else { 4 });
    let v = fsyms(n);
    let t = Tensor::from(v.clone());
    let least = pick(0, 1) == 0;
    let r = if least { t.reduce_min() } else { t.reduce_max() };
    same_shape(&r, &[], line!() as u64);
    let r = r.as_slice()[0];
    let (mut any, mut is, mut ok) = (false, false, true);
    let mut i = 0;
    while i < n {
        any |= !v[i].is_nan();
        is |= r == v[i];
        ok &= !(if least { v[i] < r } else { v[i] > r });
        i += 1;
    }
    ck!(ok);
    ck!(is | !any);
    ck!(any | r.is_nan());
    reach(1);
}
fn h_c20_min_max64() {
    let n = pick(1, 3);
    let v: Vec<f64> = (0..n).map(|_| f64s()).collect();
    let t = Tensor::from(v.clone());
    let least = pick(0, 1) == 0;
    let r = if pick(0, 1) == 0 { if least { t.reduce_min() } else { t.reduce_max() } } else { if least { t.reduce_min_axis(0) } else { t.reduce_max_axis(-1) } };
    let r = r.as_slice()[0];
    let (mut any, mut is, mut ok) = (false, false, true);
    let mut i = 0;
    while i < n {
        any |= !v[i].is_nan();
        is |= r == v[i];
        ok &= !(if least { v[i] < r } else { v[i] > r });
        i += 1;
    }
    ck!(ok);
    ck!(is | !any);
    ck!(any | r.is_nan());
    reach(1);
}
/// mean: the sum over the number of elements
fn h_c20_mean() {
    let big = pick(0, 1) == 0;
    let d = if big { big_dims() } else { any_dims() };
    assume(!zero_dim(&d));
    let v = counts(prod(&d), 10);
    let t = tensor(&d, &v);
    let mut s = 0f32;
    for x in v.iter() { s += *x; }
    fsame!(&t.reduce_mean(), &[], &[s / v.len() as f32]);
    fsame!(&t.reduce_mean_axis(None), &[], &[s / v.len() as f32]);
    if d.len() > 0 {
        let (at, a) = any_axis(d.len());
        let n = v.len() / d[at];
        let e: Vec<f32> = (0..n).map(|k| { let mut s = 0f32; for x in lane(&d, &v, at, k) { s += x; } s / d[at] as f32 }).collect();
        fsame!(&t.reduce_mean_axis(a), &out_dims(&d, at), &e);
    }
    reach(1);
}
/// the root of the sum of squares
fn h_c20_hypot() {
    let d = any_dims();
    assume(!zero_dim(&d) && prod(&d) <= 20);
    let v = counts(prod(&d), 8);
    let t = tensor(&d, &v);
    let mut s = 0f32;
    for x in v.iter() { s += *x * *x; }
    fsame!(&t.reduce_hypot(), &[], &[s.sqrt()]);
    let w: Vec<f64> = v.iter().map(|x| *x as f64).collect();
    let mut s = 0f64;
    for x in w.iter() { s += *x * *x; }
    let r = Tensor::from_vec(w, d.as_slice()).reduce_hypot();
    ckeq!(r.as_slice()[0].to_bits(), s.sqrt().to_bits());
    reach(1);
}
/// the mean squared distance from the mean, on values whose running means are whole numbers
fn h_c20_variance() {
    let n = pick(1, 4);
    // x[k] = m[k-1] + (k+1) * step, so that the mean of the first k+1 values is m[k] = m[k-1] + step
    let mut m = bits(3);
    let mut x = vec![m];
    let mut k = 1;
    while k < n {
        let step = bits(2);
        x.push(m + (k as u64 + 1) * step);
        m += step;
        k += 1;
    }
    let mut s = 0u64;
    let mut i = 0;
    while i < n { let e = x[i].wrapping_sub(m); s = s.wrapping_add(e.wrapping_mul(e)); i += 1; }
    let v: Vec<f32> = x.iter().map(|x| *x as f32).collect();
    let e = range(0, 1 << 12);
    assume(e == s);
    let var = e as f32 / n as f32;
    let two = pick(0, 1) == 1;
    if two {
        let mut w = v.clone();
        for _ in 0..n { w.push(7.); }
        let t = tensor(&[2, n], &w);
        fsame!(&t.reduce_variance_axis(1), &[2], &[var, 0.]);
        fsame!(&t.reduce_std_axis(-1), &[2], &[var.sqrt(), 0f32]);
    } else {
        let t = tensor(&[n], &v);
        fsame!(&t.reduce_variance(), &[], &[var]);
        fsame!(&t.reduce_std(), &[], &[var.sqrt()]);
    }
    reach(1);
}
/// the same within rounding on every triple of small values, in any order
fn h_c20_variance_small() {
    let n = pick(1, 3);
    let v: Vec<f32> = (0..n).map(|_| pick(0, 6) as f32 - 3.).collect();
    let t = Tensor::from(v.clone());
    let m = v.iter().map(|x| *x as f64).sum::<f64>() / n as f64;
    let s = v.iter().map(|x| (*x as f64 - m) * (*x as f64 - m)).sum::<f64>() / n as f64;
    let (a, b) = (t.reduce_variance().as_slice()[0] as f64, t.reduce_std().as_slice()[0] as f64);
    ck!((a - s).abs() <= 1e-5);
    ck!((b * b - s).abs() <= 1e-4);
    reach(1);
}
}
