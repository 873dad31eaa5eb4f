//! C18: element-wise functions are the element's own function at every position
use crate::rt::*;
use crate::*;
use essay_tensor::tensor::Tensor;
use num_complex::Complex;
use num_traits::{Float, MulAdd, PrimInt, Signed};

fn some() -> Vec<usize> { [&[][..], &[1], &[3], &[2, 2], &[1, 3, 2], &[2, 1, 1, 2, 1, 2]][pick(0, 5)].to_vec() }
fn f64mk(d: &[usize]) -> (Tensor<f64>, Vec<f64>) {
    let n = prod(d);
    let mut v = Vec::new();
    for _ in 0..n + 1 { v.push(f64s()); }
    (Tensor::from_vec(v.clone(), [n + 1]).subslice_flat(1, n, d), v[1..].to_vec())
}
/// bit equality of an element, whatever its type
trait Bits { fn w(&self) -> (u64, u64); }
impl Bits for f32 { fn w(&self) -> (u64, u64) { (self.to_bits() as u64, 0) } }
impl Bits for f64 { fn w(&self) -> (u64, u64) { (self.to_bits(), 0) } }
impl Bits for (f32, f32) { fn w(&self) -> (u64, u64) { (self.0.to_bits() as u64, self.1.to_bits() as u64) } }
impl Bits for (f64, f64) { fn w(&self) -> (u64, u64) { (self.0.to_bits(), self.1.to_bits()) } }
impl Bits for Complex<f32> { fn w(&self) -> (u64, u64) { (self.re.to_bits() as u64, self.im.to_bits() as u64) } }
impl Bits for Complex<i32> { fn w(&self) -> (u64, u64) { (self.re as u64, self.im as u64) } }
macro_rules! bits_int { ($($t:ty)*) => { $( impl Bits for $t { fn w(&self) -> (u64, u64) { (*self as u64, 0) } } )* } }
bits_int!(bool u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
impl Bits for u128 { fn w(&self) -> (u64, u64) { (*self as u64, (*self >> 64) as u64) } }
impl Bits for i128 { fn w(&self) -> (u64, u64) { (*self as u64, (*self >> 64) as u64) } }
impl Bits for Complex<f64> { fn w(&self) -> (u64, u64) { (self.re.to_bits(), self.im.to_bits()) } }
fn wide(w: u32) -> u128 { if w <= 64 { bits(w) as u128 } else { (bits(64) as u128) << 64 | bits(64) as u128 } }
fn each<T: essay_tensor::tensor::Type + Bits>(t: &Tensor<T>, d: &[usize], n: usize, f: impl Fn(usize) -> T, id: u64) {
    same_shape(t, d, id);
    check(t.as_slice().len() == n, id);
    let mut i = 0;
    while i < n { let (a, b) = (t[i].w(), f(i).w()); check_eq(a.0, b.0, id); check_eq(a.1, b.1, id); i += 1; }
}
macro_rules! each { ($t:expr, $d:expr, $n:expr, $f:expr) => { each(&$t, $d, $n, $f, line!() as u64) } }
macro_rules! un { ($t:ident, $v:ident, $d:ident, $k:expr, $T:ident; $($f:ident)*) => {{
    let mut at = 0;
    $( if $k == at { each!($t.$f(), &$d, $v.len(), |i| $T::$f($v[i])); } at += 1; )*
    let _ = at;
}} }
macro_rules! bin { ($a:ident, $b:ident, $va:ident, $vb:ident, $d:ident, $k:expr, $T:ident; $($f:ident)*) => {{
    let mut at = 0;
    $( if $k == at { each!($a.$f(&$b), &$d, $va.len(), |i| $T::$f($va[i], $vb[i % $vb.len()])); } at += 1; )*
    let _ = at;
}} }
macro_rules! floats { ($t:ident, $v:ident, $d:ident, $k:expr) => { un!($t, $v, $d, $k, Float;
    floor ceil round trunc fract signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt sin asin sinh asinh cos acos cosh acosh
    tan atan tanh atanh exp_m1 ln_1p sin_cos abs) } }
macro_rules! int_case { ($t:ty, $w:literal) => {{
    let d = [&[][..], &[2], &[1, 2]][pick(0, 2)].to_vec();
    let n = prod(&d);
    let v: Vec<$t> = (0..n).map(|_| wide($w) as $t).collect();
    let t = Tensor::from_vec(v.clone(), d.as_slice());
    let k = pick(0, 11);
    un!(t, v, d, k, PrimInt; count_ones count_zeros leading_ones leading_zeros trailing_ones trailing_zeros swap_bytes reverse_bits to_be to_le);
    if k >= 10 {
        let e = if n > 1 && pick(0, 1) == 0 { vec![] } else { d.clone() };
        let s: Vec<u32> = (0..prod(&e)).map(|_| bits(32) as u32).collect();
        let b = Tensor::from_vec(s.clone(), e.as_slice());
        if k == 10 { each!(t.rotate_left(&b), &d, n, |i| PrimInt::rotate_left(v[i], s[i % s.len()])); }
        else { each!(t.rotate_right(&b), &d, n, |i| PrimInt::rotate_right(v[i], s[i % s.len()])); }
    }
}} }

harnesses! {
fn h_c18_float32() {
    let k = pick(0, 31);
    let d = some();
    let (t, v) = fmk(&d);
    floats!(t, v, d, k);
    reach(1);
}
fn h_c18_float64() {
    let k = pick(0, 31);
    let d = some();
    let (t, v) = f64mk(&d);
    floats!(t, v, d, k);
    reach(1);
}
/// two operands, the second broadcast
fn h_c18_float_binary() {
    let k = pick(0, 6);
    let d = some();
    let e = d[pick(0, d.len())..].to_vec();
    if pick(0, 1) == 0 {
        let (a, va) = fmk(&d);
        let (b, vb) = fmk(&e);
        bin!(a, b, va, vb, d, k, Float; powf log hypot atan2 copysign);
        if k == 5 {
            let p: Vec<i32> = (0..vb.len()).map(|_| bits(32) as i32).collect();
            let b = Tensor::from_vec(p.clone(), e.as_slice());
            each!(a.powi(&b), &d, va.len(), |i| va[i].powi(p[i % p.len()]));
            each!(a.powi(p[0]), &d, va.len(), |i| va[i].powi(p[0]));
        }
        if k == 6 {
            let (c, vc) = fmk(&e);
            each!(a.clone().mul_add(&b, &c), &d, va.len(), |i| MulAdd::mul_add(va[i], vb[i % vb.len()], vc[i % vc.len()]));
        }
    } else {
        let (a, va) = f64mk(&d);
        let (b, vb) = f64mk(&e);
        bin!(a, b, va, vb, d, k, Float; powf log hypot atan2 copysign);
        if k == 5 {
            let p: Vec<i32> = (0..vb.len()).map(|_| bits(32) as i32).collect();
            let b = Tensor::from_vec(p.clone(), e.as_slice());
            each!(a.powi(&b), &d, va.len(), |i| va[i].powi(p[i % p.len()]));
        }
        if k == 6 {
            let (c, vc) = f64mk(&e);
            each!(a.clone().mul_add(&b, &c), &d, va.len(), |i| MulAdd::mul_add(va[i], vb[i % vb.len()], vc[i % vc.len()]));
        }
    }
    reach(1);
}
fn h_c18_signed() {
    let k = pick(0, 4);
    let d = some();
    let n = prod(&d);
    if pick(0, 1) == 0 {
        let (t, v) = fmk(&d);
        let (u, w) = fmk(&d);
        match k {
            0 => each!(t.abs(), &d, n, |i| Signed::abs(&v[i])),
            1 => each!(t.abs_sub(&u), &d, n, |i| Signed::abs_sub(&v[i], &w[i])),
            2 => each!(t.neg(), &d, n, |i| -v[i]),
            3 => each!(t.is_negative(), &d, n, |i| Signed::is_negative(&v[i])),
            _ => each!(t.is_positive(), &d, n, |i| Signed::is_positive(&v[i])),
        }
    } else {
        assume(n <= 4);
        let v: Vec<i32> = (0..n).map(|_| bits(16) as i16 as i32).collect();
        let w: Vec<i32> = (0..n).map(|_| bits(16) as i16 as i32).collect();
        let t = Tensor::from_vec(v.clone(), d.as_slice());
        let u = Tensor::from_vec(w.clone(), d.as_slice());
        match k {
            0 => each!(t.abs(), &d, n, |i| v[i].abs()),
            1 => each!(t.abs_sub(&u), &d, n, |i| if v[i] <= w[i] { 0 } else { v[i] - w[i] }),
            2 => each!(t.neg(), &d, n, |i| -v[i]),
            3 => each!(t.is_negative(), &d, n, |i| v[i] < 0),
            _ => each!(t.is_positive(), &d, n, |i| v[i] > 0),
        }
    }
    reach(1);
}
/// the smaller and the larger of two
fn h_c18_min_max() {
    let d = [&[][..], &[3], &[2, 2]][pick(0, 2)].to_vec();
    let e = d[pick(0, d.len())..].to_vec();
    let n = prod(&d);
    if pick(0, 1) == 0 {
        let (a, v) = mk(&d);
        let (b, w) = mk(&e);
        let m = w.len();
        if pick(0, 1) == 0 { each!(a.min(&b), &d, n, |i| if v[i] < w[i % m] { v[i] } else { w[i % m] }); }
        else { each!(a.max(&b), &d, n, |i| if v[i] < w[i % m] { w[i % m] } else { v[i] }); }
    } else {
        let v: Vec<i16> = (0..n).map(|_| bits(16) as i16).collect();
        let a = Tensor::from_vec(v.clone(), d.as_slice());
        let x = bits(16) as i16;
        if pick(0, 1) == 0 { each!(a.min(x), &d, n, |i| if v[i] < x { v[i] } else { x }); }
        else { each!(a.max(x), &d, n, |i| if v[i] < x { x } else { v[i] }); }
    }
    reach(1);
}
fn h_c18_integer() {
    match pick(0, 11) {
        8 => int_case!(u128, 128), 9 => int_case!(i128, 128), 10 => int_case!(usize, 64), 11 => int_case!(isize, 64),
        0 => int_case!(u8, 8), 1 => int_case!(i8, 8), 2 => int_case!(u16, 16), 3 => int_case!(i16, 16),
        4 => int_case!(u32, 32), 5 => int_case!(i32, 32), 6 => int_case!(u64, 64), _ => int_case!(i64, 64),
    }
    reach(1);
}
/// the same on Complex<f64>, second operands broadcast from a trailing part
fn h_c18_complex64() {
    let k = pick(0, 15);
    let d = [&[][..], &[3], &[2, 2]][pick(0, 2)].to_vec();
    let e = d[pick(0, d.len())..].to_vec();
    let (n, m) = (prod(&d), prod(&e));
    let v: Vec<Complex<f64>> = (0..n).map(|_| Complex::new(f64s(), f64s())).collect();
    let t = Tensor::from_vec(v.clone(), d.as_slice());
    let w: Vec<Complex<f64>> = (0..m).map(|_| Complex::new(f64s(), f64s())).collect();
    let u = Tensor::from_vec(w.clone(), e.as_slice());
    let r: Vec<f64> = (0..m).map(|_| f64s()).collect();
    let x = Tensor::from_vec(r.clone(), e.as_slice());
    match k {
        0 => each!(t.re(), &d, n, |i| v[i].re),
        1 => each!(t.im(), &d, n, |i| v[i].im),
        2 => each!(t.norm_sqr(), &d, n, |i| v[i].norm_sqr()),
        3 => each!(t.scale(&x), &d, n, |i| v[i].scale(r[i % m])),
        4 => each!(t.unscale(&x), &d, n, |i| v[i].unscale(r[i % m])),
        5 => each!(t.conj(), &d, n, |i| v[i].conj()),
        6 => each!(t.inv(), &d, n, |i| v[i].inv()),
        7 => each!(t.l1_norm(), &d, n, |i| v[i].l1_norm()),
        8 => each!(t.norm(), &d, n, |i| v[i].norm()),
        9 => each!(t.arg(), &d, n, |i| v[i].arg()),
        10 => each!(t.to_polar(), &d, n, |i| v[i].to_polar()),
        11 => { let p: Vec<(f64, f64)> = (0..n).map(|i| (v[i].im, v[i].re)).collect(); each!(Tensor::<Complex<f64>>::from_polar(&Tensor::from_vec(p.clone(), d.as_slice())), &d, n, |i| Complex::from_polar(p[i].0, p[i].1)) }
        12 => each!(t.finv(), &d, n, |i| v[i].finv()),
        13 => each!(t.fdiv(&u), &d, n, |i| v[i].fdiv(w[i % m])),
        14 => { assume(n == 1); each!(t.powc(&u), &d, n, |i| v[i].powc(w[i % m])) },
        _ => { assume(n == 1); each!(t.expf(&x), &d, n, |i| v[i].expf(r[i % m])) },
    }
    reach(1);
}
fn h_c18_complex() {
    let k = pick(0, 17);
    let d = [&[][..], &[3], &[1, 2, 2]][pick(0, 2)].to_vec();
    let n = prod(&d);
    let v: Vec<Complex<f32>> = (0..n).map(|_| Complex::new(f32s(), f32s())).collect();
    let t = Tensor::from_vec(v.clone(), d.as_slice());
    let w: Vec<Complex<f32>> = (0..n).map(|_| Complex::new(f32s(), f32s())).collect();
    let u = Tensor::from_vec(w.clone(), d.as_slice());
    let r = fsyms(n);
    let x = Tensor::from_vec(r.clone(), d.as_slice());
    match k {
        0 => each!(t.re(), &d, n, |i| v[i].re),
        1 => each!(t.im(), &d, n, |i| v[i].im),
        2 => each!(t.norm_sqr(), &d, n, |i| v[i].norm_sqr()),
        3 => each!(t.scale(&x), &d, n, |i| v[i].scale(r[i])),
        4 => each!(t.unscale(&x), &d, n, |i| v[i].unscale(r[i])),
        5 => each!(t.conj(), &d, n, |i| v[i].conj()),
        6 => each!(t.inv(), &d, n, |i| v[i].inv()),
        7 => each!(t.l1_norm(), &d, n, |i| v[i].l1_norm()),
        8 => each!(t.norm(), &d, n, |i| v[i].norm()),
        9 => each!(t.arg(), &d, n, |i| v[i].arg()),
        10 => each!(t.to_polar(), &d, n, |i| v[i].to_polar()),
        11 => { let p: Vec<(f32, f32)> = (0..n).map(|i| (r[i], v[i].re)).collect(); each!(Tensor::<Complex<f32>>::from_polar(&Tensor::from_vec(p.clone(), d.as_slice())), &d, n, |i| Complex::from_polar(p[i].0, p[i].1)) }
        12 => each!(t.finv(), &d, n, |i| v[i].finv()),
        13 => each!(t.fdiv(&u), &d, n, |i| v[i].fdiv(w[i])),
        14 => { let p = pick(0, 3) as u32; let q = Tensor::from_vec(vec![p; n], d.as_slice()); each!(t.powu(&q), &d, n, |i| v[i].powu(p)) }
        15 => { assume(n == 1); each!(t.powc(&u), &d, n, |i| v[i].powc(w[i])) },
        16 => { assume(n == 1); each!(t.expf(&x), &d, n, |i| v[i].expf(r[i])) },
        _ => {
            let v: Vec<Complex<i32>> = (0..n).map(|_| Complex::new(bits(8) as i32, bits(8) as i32)).collect();
            let t = Tensor::from_vec(v.clone(), d.as_slice());
            each!(t.conj(), &d, n, |i| Complex::new(v[i].re, -v[i].im));
            each!(t.norm_sqr(), &d, n, |i| v[i].re * v[i].re + v[i].im * v[i].im);
            each!(t.l1_norm(), &d, n, |i| v[i].re.abs() + v[i].im.abs());
        }
    }
    reach(1);
}
}
