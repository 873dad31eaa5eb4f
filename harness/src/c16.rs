//! C16: initialisers and triangular parts
use crate::rt::*;
use crate::*;
use essay_tensor::init::{eye, fill, identity, ones, tri, zeros};
use essay_tensor::tensor::{Tensor, Type};
use num_traits::{One, Zero};

/// a number type that says which constant it is
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Q(pub u64);
impl Type for Q {}
impl std::ops::Add for Q { type Output = Q; fn add(self, o: Q) -> Q { Q(f2(31, self.0, o.0)) } }
impl std::ops::Mul for Q { type Output = Q; fn mul(self, o: Q) -> Q { Q(f2(32, self.0, o.0)) } }
const ZERO: u64 = 0x5a5a_0001;
const ONE: u64 = 0x5a5a_0002;
impl Zero for Q { fn zero() -> Q { Q(ZERO) } fn is_zero(&self) -> bool { self.0 == ZERO } }
impl One for Q { fn one() -> Q { Q(ONE) } }
impl Default for Q { fn default() -> Q { Q(0x5a5a_0003) } }
fn qsame(t: &Tensor<Q>, d: &[usize], v: &[u64], id: u64) {
    same_shape(t, d, id);
    let s = t.as_slice();
    check(s.len() == v.len(), id);
    let mut i = 0;
    while i < v.len() { check_eq(s[i].0, v[i], id); i += 1; }
}
macro_rules! qsame { ($t:expr, $d:expr, $v:expr) => { qsame($t, $d, $v, line!() as u64) } }
fn square(n: usize, f: impl Fn(usize, usize) -> u64) -> Vec<u64> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n { let mut j = 0; while j < n { v.push(f(i, j)); j += 1; } i += 1; }
    v
}
fn side() -> usize { [1, 2, 3, 4, 5, 8, 9, 16, 33][pick(0, 8)] }

harnesses! {
fn h_c16_fill() {
    let d = if pick(0, 3) == 0 { big_dims() } else { any_dims() };
    let n = prod(&d);
    let x = u64s();
    qsame!(&zeros::<Q>(d.as_slice()), &d, &vec![ZERO; n]);
    qsame!(&ones::<Q>(d.as_slice()), &d, &vec![ONE; n]);
    qsame!(&fill(d.as_slice(), Q(x)), &d, &vec![x; n]);
    qsame!(&Tensor::<Q>::zeros(sh(&d)), &d, &vec![ZERO; n]);
    qsame!(&Tensor::<Q>::ones(sh(&d)), &d, &vec![ONE; n]);
    qsame!(&Tensor::fill(sh(&d), Q(x)), &d, &vec![x; n]);
    qsame!(&Tensor::<Q>::init_default(d.as_slice()), &d, &vec![0x5a5a_0003; n]);
    reach(1);
}
fn h_c16_numbers() {
    let d = small_dims(0, 2, 3);
    let z: Tensor<f32> = zeros(d.as_slice());
    let o: Tensor<f64> = ones(d.as_slice());
    let i: Tensor<i32> = ones(d.as_slice());
    let b: Tensor<u8> = zeros(d.as_slice());
    for x in z.iter() { ckeq!(x.to_bits(), 0); }
    for x in o.iter() { ckeq!(x.to_bits(), 1f64.to_bits()); }
    for x in i.iter() { ckeq!(*x, 1); }
    for x in b.iter() { ckeq!(*x, 0); }
    ck!(z.size() == prod(&d) && o.size() == prod(&d) && i.size() == prod(&d) && b.size() == prod(&d));
    reach(1);
}
fn h_c16_eye() {
    let n = side();
    let e = square(n, |i, j| if i == j { ONE } else { ZERO });
    qsame!(&eye::<Q>(n), &[n, n], &e);
    qsame!(&identity::<Q>(n), &[n, n], &e);
    qsame!(&Tensor::<Q>::eye(n), &[n, n], &e);
    qsame!(&Tensor::<Q>::identity(n), &[n, n], &e);
    let e = square(n, |i, j| if j <= i { ONE } else { ZERO });
    qsame!(&tri::<Q>(n), &[n, n], &e);
    qsame!(&Tensor::<Q>::tri(n), &[n, n], &e);
    reach(1);
}
fn h_c16_diagflat() {
    let n = side();
    let (t, v) = mk(&[n]);
    let t = t.map(|x| Q(*x));
    qsame!(&t.diagflat(), &[n, n], &square(n, |i, j| if i == j { v[i] } else { ZERO }));
    reach(1);
}
fn h_c16_diagflat_rank() {
    let d = small_dims(0, 3, 2);
    assume(d.len() != 1);
    let (t, _v) = own(&d);
    let t = t.map(|x| Q(*x));
    ck!(rejects(|| t.diagflat()));
    reach(1);
}
fn h_c16_triangles() {
    let d = if pick(0, 4) == 0 { big_dims() } else { any_dims_rank(2, 6) };
    assume(d.len() > 1 && !zero_dim(&d));
    let (t, v) = mk(&d);
    let q = t.map(|x| Q(*x));
    let r = d.len();
    let (m, n) = (d[r - 2], d[r - 1]);
    let mut lo = v.clone();
    let mut up = v.clone();
    let mut k = 0;
    while k < v.len() {
        let (i, j) = (k / n % m, k % n);
        if j > i { lo[k] = ZERO; }
        if j < i { up[k] = ZERO; }
        k += 1;
    }
    qsame!(&q.tril(), &d, &lo);
    qsame!(&q.triu(), &d, &up);
    reach(1);
}
fn h_c16_triangles_rank() {
    let d = small_dims(0, 1, 3);
    let (t, _v) = own(&d);
    let t = t.map(|x| Q(*x));
    ck!(rejects(|| t.tril()) && rejects(|| t.triu()));
    reach(1);
}
}
