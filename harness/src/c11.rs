//! C11: normalize
use crate::rt::*;
use crate::*;
use essay_tensor::tensor::Tensor;

harnesses! {
/// each lane along the axis is folded, completed once, and every element of it normalised with that
fn h_c11_axis() {
    let d = if pick(0, 3) == 0 { big_dims() } else { any_dims_rank(1, 6) };
    assume(!zero_dim(&d));
    let (t, v) = mk(&d);
    let (at, a) = any_axis(d.len());
    let init = u64s();
    let r = t.normalize(a, init, |s, x| f2(1, s, *x), |s| f1(2, s), |s, x| f2(3, *s, *x));
    let (o, n, i) = lanes(&d, at);
    let mut e = vec![0; v.len()];
    let mut x = 0;
    while x < o { let mut y = 0; while y < i {
        let mut s = init;
        let mut k = 0;
        while k < n { s = f2(1, s, v[(x * n + k) * i + y]); k += 1; }
        s = f1(2, s);
        k = 0;
        while k < n { let p = (x * n + k) * i + y; e[p] = f2(3, s, v[p]); k += 1; }
        y += 1; } x += 1; }
    same!(&r, &d, &e);
    reach(1);
}
fn h_c11_all() {
    let d = if pick(0, 3) == 0 { big_dims() } else { any_dims() };
    assume(!zero_dim(&d));
    let (t, v) = mk(&d);
    let init = u64s();
    let r = t.normalize(None, init, |s, x| f2(1, s, *x), |s| (f1(2, s), 7u8), |s, x| f2(3, s.0, *x));
    let mut s = init;
    for x in v.iter() { s = f2(1, s, *x); }
    s = f1(2, s);
    let e: Vec<u64> = v.iter().map(|x| f2(3, s, *x)).collect();
    same!(&r, &d, &e);
    reach(1);
}
/// every finite value becomes (v - min) / (max - min) of the whole tensor
fn h_c11_unit() {
    let d = [&[][..], &[1], &[2], &[1, 2], &[2, 1], &[3]][pick(0, if tier() > 0 { 5 } else { 4 })];
    let (t, v) = fmk(d);
    for x in v.iter() { assume(x.is_finite()); }
    let (mut lo, mut hi) = (v[0], v[0]);
    for x in v.iter() { if *x < lo { lo = *x; } if *x > hi { hi = *x; } }
    let e: Vec<f32> = v.iter().map(|x| (*x - lo) / (hi - lo)).collect();
    let r = t.normalize_unit();
    same_shape(&r, d, line!() as u64);
    let mut i = 0;
    // as numbers: which of two zeros is the least one is left open
    while i < e.len() { let x = r.as_slice()[i]; ck!(x == e[i] || (x.is_nan() && e[i].is_nan())); i += 1; }
    reach(1);
}
/// longer tensors: the extremes anywhere, another element symbolic
fn h_c11_unit_more() {
    let d = [&[3][..], &[5], &[2, 2], &[1, 3], &[3, 1, 2], &[9], &[2, 2, 2], &[17]][pick(0, 7)];
    let n = prod(d);
    let (lo, hi, at) = ([0, n - 1, n / 2][pick(0, 2)], [0, n - 1, n / 3][pick(0, 2)], [0, n - 1, n / 2][pick(0, 2)]);
    assume(lo != hi && at != lo && at != hi);
    let base = [0f32, -200., 100.][pick(0, 2)];
    let mut v: Vec<f32> = (0..n).map(|i| base + 16. + (i % 7) as f32).collect();
    v[hi] = base + 32.;
    v[lo] = base;
    v[at] = base + 8. * pick(0, 4) as f32;
    let e: Vec<f32> = v.iter().map(|x| (*x - base) / 32.).collect();
    fsame!(&Tensor::from_vec(v, d).normalize_unit(), d, &e);
    reach(1);
}
}
