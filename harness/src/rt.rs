//! Harness runtime: thin wrappers over the engine's intrinsics, and the reference model helpers.
use essay_tensor::tensor::{Shape, Tensor, Type};
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" {
    fn sym_bits(w: u32) -> u64;
    fn sym_pick(lo: u64, hi: u64) -> u64;
    fn sym_range(lo: u64, hi: u64) -> u64;
    fn sym_concrete(x: u64) -> u64;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, id: u64);
    fn sym_assert_eq(a: u64, b: u64, id: u64);
    fn sym_reach(id: u64);
    fn sym_note(id: u64, v: u64);
    fn sym_leak_ok();
    fn sym_live() -> u64;
    fn sym_tier() -> u64;
    fn sym_thread(k: u64);
    fn sym_env(f: usize);
    fn sym_native() -> bool;
    fn sym_uf1(f: u64, a: u64) -> u64;
    fn sym_uf2(f: u64, a: u64, b: u64) -> u64;
    fn sym_uf3(f: u64, a: u64, b: u64, c: u64) -> u64;
}

#[inline] pub fn bits(w: u32) -> u64 { unsafe { sym_bits(w) } }
#[inline] pub fn u64s() -> u64 { bits(64) }
#[inline] pub fn usz() -> usize { bits(64) as usize }
#[inline] pub fn f32s() -> f32 { f32::from_bits(bits(32) as u32) }
#[inline] pub fn f64s() -> f64 { f64::from_bits(bits(64)) }
/// forked to a concrete value in lo..=hi
#[inline] pub fn pick(lo: usize, hi: usize) -> usize { unsafe { sym_pick(lo as u64, hi as u64) as usize } }
/// symbolic value in lo..=hi
#[inline] pub fn range(lo: u64, hi: u64) -> u64 { unsafe { sym_range(lo, hi) } }
#[inline] pub fn conc(x: usize) -> usize { unsafe { sym_concrete(x as u64) as usize } }
#[inline] pub fn assume(c: bool) { unsafe { sym_assume(c) } }
#[inline] pub fn check(c: bool, id: u64) { unsafe { sym_assert(c, id) } }
#[inline] pub fn check_eq(a: u64, b: u64, id: u64) { unsafe { sym_assert_eq(a, b, id) } }
#[inline] pub fn reach(id: u64) { unsafe { sym_reach(id) } }
#[inline] pub fn note(id: u64, v: u64) { unsafe { sym_note(id, v) } }
#[inline] pub fn leak_ok() { unsafe { sym_leak_ok() } }
#[inline] pub fn live() -> u64 { unsafe { sym_live() } }
/// 0 = quick, 1 = thorough
#[inline] pub fn tier() -> u64 { unsafe { sym_tier() } }
/// continue as another thread (one with thread-local data of its own)
#[inline] pub fn thread(k: usize) { unsafe { sym_thread(k as u64) } }
/// from now on call `f` before every access to a global that threads share
#[inline] pub fn env(f: Option<fn()>) { unsafe { sym_env(match f { Some(f) => f as usize, None => 0 }) } }
/// true in the native replay
#[inline] pub fn native() -> bool { unsafe { sym_native() } }
/// arbitrary (uninterpreted) functions
#[inline] pub fn f1(f: u64, a: u64) -> u64 { unsafe { sym_uf1(f, a) } }
#[inline] pub fn f2(f: u64, a: u64, b: u64) -> u64 { unsafe { sym_uf2(f, a, b) } }
#[inline] pub fn f3(f: u64, a: u64, b: u64, c: u64) -> u64 { unsafe { sym_uf3(f, a, b, c) } }

#[macro_export]
macro_rules! ck { ($c:expr) => { $crate::rt::check($c, line!() as u64) } }
#[macro_export]
macro_rules! ckeq { ($a:expr, $b:expr) => { $crate::rt::check_eq(($a) as u64, ($b) as u64, line!() as u64) } }
/// the outcome of a call: None if it was rejected (panicked)
/// (a call that unwinds may leave a half-built buffer unreleased: no property forbids that)
pub fn attempt<R>(f: impl FnOnce() -> R) -> Option<R> {
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    if r.is_none() { leak_ok(); }
    r
}
pub fn rejects<R>(f: impl FnOnce() -> R) -> bool { attempt(f).is_none() }

// ---- reference model: a list of dimensions (outermost first) and a flat row-major vector

pub fn prod(d: &[usize]) -> usize { let mut p = 1; for x in d { p *= *x; } p }

/// flat row-major offset of a multi-index
pub fn flat(d: &[usize], ix: &[usize]) -> usize {
    let mut o = 0;
    let mut i = 0;
    while i < d.len() { o = o * d[i] + ix[i]; i += 1; }
    o
}
/// multi-index of a flat row-major offset
pub fn unflat(d: &[usize], mut o: usize) -> Vec<usize> {
    let mut ix = vec![0; d.len()];
    let mut i = d.len();
    while i > 0 { i -= 1; ix[i] = o % d[i]; o /= d[i]; }
    ix
}
pub fn sh(d: &[usize]) -> Shape { Shape::from(d) }

/// every shape of rank r with dimensions 1..=m, forked
pub fn dims(r: usize, m: usize) -> Vec<usize> {
    let mut v = Vec::new();
    for _ in 0..r { v.push(pick(1, m)); }
    v
}

/// shapes that small ranges do not reach: long, wide, deep, with ones in every place
pub const WIDE: &[&[usize]] = &[
    &[], &[1], &[9], &[17], &[33], &[65], &[130], &[0], &[0, 3], &[3, 0], &[2, 0, 2],
    &[5, 7], &[7, 5], &[2, 16], &[16, 2], &[1, 20], &[20, 1], &[8, 9], &[33, 2],
    &[3, 4, 5], &[5, 4, 3], &[2, 1, 9], &[4, 1, 4], &[1, 1, 6], &[6, 1, 1],
    &[2, 3, 4, 2], &[1, 2, 1, 3], &[2, 2, 3, 3],
    &[2, 1, 3, 1, 2], &[2, 2, 2, 2, 3],
    &[1, 2, 1, 2, 1, 3], &[1, 1, 1, 1, 1, 1], &[2, 2, 2, 2, 2, 2], &[3, 1, 2, 2, 1, 2],
];
/// sizes beyond any plausible small-input shortcut (blocking, unrolling, thresholds)
pub const BIG: &[&[usize]] = &[
    &[300], &[1030], &[4100], &[40, 30], &[2, 600], &[600, 2], &[130, 5, 3], &[3, 5, 70], &[2, 40, 20], &[5, 3, 2, 20],
];
pub fn big_dims() -> Vec<usize> { BIG[pick(0, BIG.len() - 1)].to_vec() }
/// quick: ranks 0..=3 with dimensions 1..=3 (40 shapes) and WIDE; thorough: more
pub fn any_dims() -> Vec<usize> {
    let small: usize = if tier() > 0 { 5 } else { 3 };
    // one pick selects the class, so that slices of it can run in parallel
    let k = pick(0, WIDE.len() + 3 * small);
    if k < WIDE.len() { return WIDE[k].to_vec(); }
    let k = k - WIDE.len();
    if k == 3 * small {
        let mut v = dims(4, 2);
        if tier() > 0 && v.len() == 4 { let e = dims(1, 3); v.push(e[0]); }
        return v;
    }
    let (r, d0) = (k / small + 1, k % small + 1);
    let mut v = vec![d0];
    v.extend(dims(r - 1, small.min(4)));
    v
}
/// as any_dims, with at least `lo` and at most `hi` dimensions
pub fn any_dims_rank(lo: usize, hi: usize) -> Vec<usize> {
    let v = any_dims();
    assume(v.len() >= lo && v.len() <= hi);
    v
}
/// ranks lo..=hi, dimensions 1..=m, all combinations; the first pick covers rank and outer dimension
pub fn small_dims(lo: usize, hi: usize, m: usize) -> Vec<usize> {
    let k = pick(lo * m, hi * m + m - 1);
    let (r, d0) = (k / m, k % m + 1);
    if r == 0 { assume(d0 == 1); return vec![]; }
    let mut v = vec![d0];
    v.extend(dims(r - 1, m));
    v
}
pub fn syms(n: usize) -> Vec<u64> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(u64s()); }
    v
}
pub fn fsyms(n: usize) -> Vec<f32> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(f32s()); }
    v
}
/// A tensor of the given shape and the model of its contents. Half of the paths use a tensor that owns
/// its data, the other half a view that starts and ends inside a larger tensor.
pub fn mk(d: &[usize]) -> (Tensor<u64>, Vec<u64>) {
    let n = prod(d);
    if pick(0, 1) == 0 { own(d) } else {
        let v = syms(n + 5);
        let t = Tensor::from_vec(v.clone(), [n + 5]).subslice_flat(3, n, d);
        (t, v[3..3 + n].to_vec())
    }
}
pub fn own(d: &[usize]) -> (Tensor<u64>, Vec<u64>) {
    let v = syms(prod(d));
    (Tensor::from_vec(v.clone(), d), v)
}
/// a view into the middle of a larger tensor
pub fn view(d: &[usize], before: usize, after: usize) -> (Tensor<u64>, Vec<u64>) {
    let n = prod(d);
    let v = syms(n + before + after);
    let t = Tensor::from_vec(v.clone(), [n + before + after]).subslice_flat(before, n, d);
    (t, v[before..before + n].to_vec())
}
pub fn fmk(d: &[usize]) -> (Tensor<f32>, Vec<f32>) {
    let n = prod(d);
    if pick(0, 1) == 0 {
        let v = fsyms(n);
        (Tensor::from_vec(v.clone(), d), v)
    } else {
        let v = fsyms(n + 5);
        let t = Tensor::from_vec(v.clone(), [n + 5]).subslice_flat(3, n, d);
        (t, v[3..3 + n].to_vec())
    }
}
/// shape and contents of a tensor against the model
pub fn same(t: &Tensor<u64>, d: &[usize], v: &[u64], id: u64) {
    same_shape(t, d, id);
    let s = t.as_slice();
    check(s.len() == v.len(), id);
    let mut i = 0;
    while i < v.len() { check_eq(s[i], v[i], id); i += 1; }
}
pub fn fsame(t: &Tensor<f32>, d: &[usize], v: &[f32], id: u64) {
    same_shape(t, d, id);
    let s = t.as_slice();
    check(s.len() == v.len(), id);
    let mut i = 0;
    while i < v.len() { check_eq(s[i].to_bits() as u64, v[i].to_bits() as u64, id); i += 1; }
}
pub fn same_shape<T: Type>(t: &Tensor<T>, d: &[usize], id: u64) {
    let sv = t.shape().as_vec();
    check(sv.len() == d.len(), id);
    let mut i = 0;
    while i < d.len() { check(sv[i] == d[i], id); i += 1; }
    check(t.rank() == d.len() && t.size() == prod(d), id);
    // equality with an independently built shape: no hidden state
    check(t.shape() == &sh(d), id);
}
#[macro_export]
macro_rules! same { ($t:expr, $d:expr, $v:expr) => { $crate::rt::same($t, $d, $v, line!() as u64) } }
#[macro_export]
macro_rules! fsame { ($t:expr, $d:expr, $v:expr) => { $crate::rt::fsame($t, $d, $v, line!() as u64) } }

/// an element that owns heap memory: the engine sees every double release, leak and use after release
#[derive(PartialEq, Debug)]
pub struct Own(pub Box<u64>);
impl Own { pub fn new(v: u64) -> Self { Own(Box::new(v)) } }
impl Clone for Own { fn clone(&self) -> Self { Own(Box::new(*self.0)) } }
impl Type for Own {}

/// the positions of the elements of one lane along an axis: (outer, length, inner) of a shape
pub fn lanes(d: &[usize], axis: usize) -> (usize, usize, usize) { (prod(&d[..axis]), d[axis], prod(&d[axis + 1..])) }
/// an in-range axis in either spelling: returns (normalised, as given)
pub fn any_axis(rank: usize) -> (usize, isize) {
    let k = pick(0, 2 * rank - 1);
    if k < rank { (k, k as isize) } else { (k - rank, k as isize - 2 * rank as isize) }
}
pub fn without(d: &[usize], axis: usize) -> Vec<usize> { let mut v = d.to_vec(); v.remove(axis); v }
pub fn zero_dim(d: &[usize]) -> bool { let mut i = 0; while i < d.len() { if d[i] == 0 { return true; } i += 1; } false }
/// an element of no size
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Zst;
impl Type for Zst {}
