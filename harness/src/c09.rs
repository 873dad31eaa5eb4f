//! C09: operators act element by element, in every operand form
use crate::rt::*;
use crate::*;
use essay_tensor::tensor::{Tensor, Type};
use std::ops::*;

#[derive(Clone, PartialEq, Debug)]
pub struct A(u64);
#[derive(Clone, PartialEq, Debug)]
pub struct B(u64);
#[derive(PartialEq, Debug)]
pub struct R(u64);
impl Type for A {}
impl Type for B {}
impl Type for R {}
macro_rules! ops { ($($n:literal $op:ident $f:ident,)*) => { $(
    impl $op<B> for A { type Output = R; fn $f(self, o: B) -> R { R(f2($n, self.0, o.0)) } }
)* } }
ops! { 40 Add add, 41 Sub sub, 42 Mul mul, 43 Div div, 44 Rem rem, 45 BitAnd bitand, 46 BitOr bitor, 47 BitXor bitxor, 48 Shl shl, 49 Shr shr, }
#[derive(Clone, PartialEq, Debug)]
pub struct N(u64);
impl Type for N {}
impl Neg for N { type Output = N; fn neg(self) -> N { N(f1(50, self.0)) } }
impl Not for N { type Output = N; fn not(self) -> N { N(f1(51, self.0)) } }
impl Mul for N { type Output = R; fn mul(self, o: N) -> R { R(f2(52, self.0, o.0)) } }

fn fits(a: &[usize], b: &[usize]) -> bool {
    let m = a.len().min(b.len());
    let mut i = 1;
    while i <= m { if a[a.len() - i] != b[b.len() - i] { return false; } i += 1; }
    true
}
fn agree(t: &Tensor<R>, d: &[usize], n: usize, f: impl Fn(usize) -> u64, id: u64) {
    same_shape(t, d, id);
    let s = t.as_slice();
    check(s.len() == n, id);
    let mut i = 0;
    while i < n { check_eq(s[i].0, f(i), id); i += 1; }
}
/// all six forms of one operator over one pair of operands
macro_rules! forms { ($op:tt, $id:literal, $a:ident, $b:ident, $va:ident, $vb:ident, $da:ident, $db:ident) => {{
    let d = if $da.len() < $db.len() { &$db } else { &$da };
    let n = prod(d);
    let e = |i: usize| f2($id, $va[i % $va.len()], $vb[i % $vb.len()]);
    let id = line!() as u64;
    match pick(0, 5) {
        0 => agree(&(&$a $op &$b), d, n, e, id),
        1 => agree(&($a.clone() $op &$b), d, n, e, id),
        2 => agree(&(&$a $op $b.clone()), d, n, e, id),
        3 => agree(&($a.clone() $op $b.clone()), d, n, e, id),
        4 => agree(&(&$a $op B($vb[0])), &$da, $va.len(), |i| f2($id, $va[i], $vb[0]), id),
        _ => agree(&($a.clone() $op B($vb[0])), &$da, $va.len(), |i| f2($id, $va[i], $vb[0]), id),
    }
}} }
macro_rules! refused { ($op:tt, $a:ident, $b:ident) => {{
    ck!(rejects(|| &$a $op &$b));
    ck!(rejects(|| $a.clone() $op &$b));
    ck!(rejects(|| &$a $op $b.clone()));
    ck!(rejects(|| $a.clone() $op $b.clone()));
}} }
macro_rules! every { ($k:expr, $m:ident, $($r:tt)*) => { match $k {
    0 => $m!(+, 40, $($r)*), 1 => $m!(-, 41, $($r)*), 2 => $m!(*, 42, $($r)*), 3 => $m!(/, 43, $($r)*), 4 => $m!(%, 44, $($r)*),
    5 => $m!(&, 45, $($r)*), 6 => $m!(|, 46, $($r)*), 7 => $m!(^, 47, $($r)*), 8 => $m!(<<, 48, $($r)*), _ => $m!(>>, 49, $($r)*),
} } }
macro_rules! every_refused { ($k:expr, $a:ident, $b:ident) => { match $k {
    0 => refused!(+, $a, $b), 1 => refused!(-, $a, $b), 2 => refused!(*, $a, $b), 3 => refused!(/, $a, $b), 4 => refused!(%, $a, $b),
    5 => refused!(&, $a, $b), 6 => refused!(|, $a, $b), 7 => refused!(^, $a, $b), 8 => refused!(<<, $a, $b), _ => refused!(>>, $a, $b),
} } }
/// a number on the left of a tensor: the same as the number with each element, rejected when that is
macro_rules! left { ($t:ty, $w:literal, $op:tt) => {{
    let s = bits($w) as $t;
    let v = [bits($w) as $t, bits($w) as $t, bits($w) as $t];
    left!(@ s, v, $op, |x: $t| (x as u128 as u64, (x as u128 >> 64) as u64));
}};
(@ $s:ident, $v:ident, $op:tt, $f:expr) => {{
    let d: &[usize] = if pick(0, 1) == 0 { &[3] } else { &[1, 3, 1] };
    let t = Tensor::from_vec($v.to_vec(), d);
    let e = attempt(|| [$s $op $v[0], $s $op $v[1], $s $op $v[2]]);
    let r = if pick(0, 1) == 0 { attempt(|| $s $op &t) } else { attempt(|| $s $op t.clone()) };
    match (e, r) {
        (Some(e), Some(r)) => {
            same_shape(&r, d, line!() as u64);
            let mut i = 0;
            while i < 3 { let (x, y) = ($f(e[i]), $f(r[i])); ckeq!(x.0, y.0); ckeq!(x.1, y.1); i += 1; }
            reach(1);
        }
        (None, None) => reach(2),
        _ => ck!(false),
    }
}} }
macro_rules! left_f { ($t:ty, $mk:ident, $op:tt) => {{
    let s = $mk();
    let v = [$mk(), $mk(), $mk()];
    left!(@ s, v, $op, |x: $t| (x.to_bits() as u64, 0u64));
}} }
macro_rules! left_b { ($op:tt) => {{
    let s = bits(1) == 1;
    let v = [bits(1) == 1, bits(1) == 1, bits(1) == 1];
    left!(@ s, v, $op, |x: bool| (x as u64, 0u64));
}} }
macro_rules! ints { ($k:expr, $op:tt) => { match $k {
    0 => left!(i8, 8, $op), 1 => left!(i16, 16, $op), 2 => left!(i32, 32, $op), 3 => left!(i64, 64, $op), 4 => left!(i128, 64, $op), 5 => left!(isize, 64, $op),
    6 => left!(u8, 8, $op), 7 => left!(u16, 16, $op), 8 => left!(u32, 32, $op), 9 => left!(u64, 64, $op), 10 => left!(u128, 64, $op), _ => left!(usize, 64, $op),
} } }
/// multiplication and division stay within eight bits of data per element
macro_rules! ints8 { ($k:expr, $op:tt) => { match $k {
    0 => left!(i8, 8, $op), 1 => left!(i16, 8, $op), 2 => left!(i32, 8, $op), 3 => left!(i64, 8, $op), 4 => left!(i128, 8, $op), 5 => left!(isize, 8, $op),
    6 => left!(u8, 8, $op), 7 => left!(u16, 8, $op), 8 => left!(u32, 8, $op), 9 => left!(u64, 8, $op), 10 => left!(u128, 8, $op), _ => left!(usize, 8, $op),
} } }

harnesses! {
/// ten operators, tensors and references on both sides, every pair of small shapes that broadcasts, and plain values on the right
fn h_c09_forms() {
    let k = pick(0, 9);
    let (da, db) = (small_dims(0, 2, 2), small_dims(0, 2, 2));
    let (a, va) = mk(&da);
    let (b, vb) = mk(&db);
    let (a, b) = (a.map(|x| A(*x)), b.map(|x| B(*x)));
    if fits(&da, &db) {
        every!(k, forms, a, b, va, vb, da, db);
        reach(1);
    } else {
        every_refused!(k, a, b);
        reach(2);
    }
}
fn h_c09_forms_wide() {
    let k = pick(0, 9);
    let d = [&[9][..], &[3, 4], &[2, 3, 4], &[2, 1, 2, 1, 2, 2], &[300], &[30, 40]][pick(0, 5)];
    let da = d.to_vec();
    let db = d[pick(0, d.len())..].to_vec();
    let (a, va) = view(&da, 1, 2);
    let (b, vb) = own(&db);
    let (a, b) = (a.map(|x| A(*x)), b.map(|x| B(*x)));
    every!(k, forms, a, b, va, vb, da, db);
    reach(1);
}
/// the shorter operand on the left
fn h_c09_forms_left() {
    let k = pick(0, 9);
    let d = [&[9][..], &[3, 4], &[2, 3, 4]][pick(0, 2)];
    let db = d.to_vec();
    let da = d[pick(0, d.len())..].to_vec();
    let (a, va) = own(&da);
    let (b, vb) = own(&db);
    let (a, b) = (a.map(|x| A(*x)), b.map(|x| B(*x)));
    every!(k, forms, a, b, va, vb, da, db);
    reach(1);
}
fn h_c09_unary() {
    let d = any_dims();
    let (t, v) = mk(&d);
    let t = t.map(|x| N(*x));
    let n = v.len();
    let id = line!() as u64;
    let go = |r: Tensor<N>, f: u64| { same_shape(&r, &d, id); let mut i = 0; while i < n { check_eq(r[i].0, f1(f, v[i]), id); i += 1; } };
    go(-&t, 50);
    go(-t.clone(), 50);
    go(!&t, 51);
    go(!t.clone(), 51);
    agree(&t.square(), &d, n, |i| f2(52, v[i], v[i]), id);
    reach(1);
}
fn h_c09_left_add() { ints!(pick(0, 11), +) }
fn h_c09_left_sub() { ints!(pick(0, 11), -) }
fn h_c09_left_mul() { ints8!(pick(0, 11), *) }
fn h_c09_left_div() { ints8!(pick(0, 11), /) }
fn h_c09_left_rem() { ints8!(pick(0, 11), %) }
fn h_c09_left_and() { let k = pick(0, 12); if k == 12 { left_b!(&) } else { ints!(k, &) } }
fn h_c09_left_or() { let k = pick(0, 12); if k == 12 { left_b!(|) } else { ints!(k, |) } }
fn h_c09_left_xor() { let k = pick(0, 12); if k == 12 { left_b!(^) } else { ints!(k, ^) } }
fn h_c09_left_shl() { ints!(pick(0, 11), <<) }
fn h_c09_left_shr() { ints!(pick(0, 11), >>) }
fn h_c09_left_float() {
    match pick(0, 9) {
        0 => left_f!(f32, f32s, +), 1 => left_f!(f32, f32s, -), 2 => left_f!(f32, f32s, *), 3 => left_f!(f32, f32s, /), 4 => left_f!(f32, f32s, %),
        5 => left_f!(f64, f64s, +), 6 => left_f!(f64, f64s, -), 7 => left_f!(f64, f64s, *), 8 => left_f!(f64, f64s, /), _ => left_f!(f64, f64s, %),
    }
}
}
