//! C10: folds and reductions along axes
use crate::rt::*;
use crate::*;
use essay_tensor::tensor::{FoldState, Tensor};

#[derive(Clone)]
struct S(u64);
impl FoldState for S { type Out = u64; fn into_result(self) -> u64 { f1(20, self.0) } }
#[derive(Clone)]
struct R<const N: usize>(u64);
impl<const N: usize> FoldState for R<N> {
    type Out = [u64; N];
    fn into_result(self) -> [u64; N] { let mut o = [0; N]; let mut j = 0; while j < N { o[j] = f2(21, self.0, j as u64); j += 1; } o }
}
fn some_dims() -> Vec<usize> { let d = if pick(0, 3) == 0 { big_dims() } else { any_dims_rank(1, 6) }; assume(!zero_dim(&d)); d }

/// the expected fold of every lane: f(f(init, x0), x1) ..
fn folded(d: &[usize], v: &[u64], axis: usize, init: u64, f: u64) -> Vec<u64> {
    let (o, n, i) = lanes(d, axis);
    let mut out = Vec::new();
    let mut a = 0;
    while a < o { let mut b = 0; while b < i {
        let mut s = init;
        let mut k = 0;
        while k < n { s = f2(f, s, v[(a * n + k) * i + b]); k += 1; }
        out.push(s);
        b += 1; } a += 1; }
    out
}
fn reduced(d: &[usize], v: &[u64], axis: usize, f: u64) -> Vec<u64> {
    let (o, n, i) = lanes(d, axis);
    let mut out = Vec::new();
    let mut a = 0;
    while a < o { let mut b = 0; while b < i {
        let mut s = v[a * n * i + b];
        let mut k = 1;
        while k < n { s = f2(f, s, v[(a * n + k) * i + b]); k += 1; }
        out.push(s);
        b += 1; } a += 1; }
    out
}
fn out_dims(d: &[usize], axis: usize) -> Vec<usize> { if d.len() == 1 { vec![] } else { without(d, axis) } }

fn rowfold<const N: usize>(d: &[usize]) {
    let (t, v) = mk(d);
    let r = d.len();
    let c = d[r - 1];
    let m = v.len() / c;
    let init = u64s();
    let row = |s: u64, k: usize| { let mut s = s; let mut i = 0; while i < c { s = f2(22, s, v[k * c + i]); i += 1; } s };
    let op = |s: R<N>, x: &[u64]| { check(x.len() == c, 1003); let mut s = s.0; let mut i = 0; while i < x.len() { s = f2(22, s, x[i]); i += 1; } R::<N>(s) };
    let fin = |s: u64, o: &mut Vec<u64>| { let mut j = 0; while j < N { o.push(f2(21, s, j as u64)); j += 1; } };
    // over all rows
    let f: Tensor<u64> = t.fold_row(None, R::<N>(init), op);
    let mut s = init;
    let mut k = 0;
    while k < m { s = row(s, k); k += 1; }
    let mut e = Vec::new();
    fin(s, &mut e);
    same!(&f, &[N], &e);
    // along an axis other than the last
    if r > 1 {
        let at = pick(0, r - 2);
        let a = if pick(0, 1) == 0 { at as isize } else { at as isize - r as isize };
        let f: Tensor<u64> = t.fold_row(a, R::<N>(init), op);
        let (o, n, i) = lanes(&d[..r - 1], at);
        let mut e = Vec::new();
        let mut x = 0;
        while x < o { let mut y = 0; while y < i {
            let mut s = init;
            let mut k = 0;
            while k < n { s = row(s, (x * n + k) * i + y); k += 1; }
            fin(s, &mut e);
            y += 1; } x += 1; }
        let mut w = without(&d[..r - 1], at);
        w.push(N);
        same!(&f, &w, &e);
    } else {
        let f: Tensor<u64> = t.fold_row(0, R::<N>(init), op);
        let mut e = Vec::new();
        fin(row(init, 0), &mut e);
        same!(&f, &[N], &e);
    }
}

harnesses! {
fn h_c10_fold() {
    let d = if pick(0, 3) == 0 { big_dims() } else { any_dims() };
    let (t, v) = mk(&d);
    let init = u64s();
    let mut s = init;
    for x in v.iter() { s = f2(1, s, *x); }
    same!(&t.fold(init, |s, x| f2(1, s, *x)), &[], &[s]);
    same!(&t.fold(S(init), |s, x| S(f2(1, s.0, *x))), &[], &[f1(20, s)]);
    same!(&t.fold_axis(None, S(init), |s, x| S(f2(1, s.0, *x))), &[], &[f1(20, s)]);
    reach(1);
}
fn h_c10_fold_axis() {
    let d = some_dims();
    let (t, v) = mk(&d);
    let (at, a) = any_axis(d.len());
    let init = u64s();
    let e = folded(&d, &v, at, init, 2);
    let o = out_dims(&d, at);
    same!(&t.fold_axis(a, init, |s, x| f2(2, s, *x)), &o, &e);
    let e: Vec<u64> = e.iter().map(|x| f1(20, *x)).collect();
    same!(&t.fold_axis(Some(a), S(init), |s, x| S(f2(2, s.0, *x))), &o, &e);
    reach(1);
}
fn h_c10_reduce() {
    let d = if pick(0, 3) == 0 { big_dims() } else { any_dims() };
    assume(!zero_dim(&d));
    let (t, v) = mk(&d);
    let mut s = v[0];
    for x in v[1..].iter() { s = f2(3, s, *x); }
    same!(&t.reduce(|a, b| f2(3, a, b)), &[], &[s]);
    same!(&t.reduce_axis(None, |a, b| f2(3, a, b)), &[], &[s]);
    reach(1);
}
fn h_c10_reduce_axis() {
    let d = some_dims();
    let (t, v) = mk(&d);
    let (at, a) = any_axis(d.len());
    let e = reduced(&d, &v, at, 4);
    same!(&t.reduce_axis(a, |a, b| f2(4, a, b)), &out_dims(&d, at), &e);
    reach(1);
}
fn h_c10_fold_row() {
    let k = pick(0, 3);
    let d = if k == 3 { big_dims() } else { any_dims_rank(1, 6) };
    assume(!zero_dim(&d));
    match k { 0 => rowfold::<1>(&d), 1 => rowfold::<2>(&d), 2 => rowfold::<3>(&d), _ => rowfold::<2>(&d) }
    reach(1);
}
/// the last axis is not a row axis
fn h_c10_fold_row_last() {
    let d = small_dims(2, 4, 2);
    let (t, _v) = own(&d);
    let r = d.len() as isize;
    let a = if pick(0, 1) == 0 { -1 } else { r - 1 };
    ck!(rejects(|| { let x: Tensor<u64> = t.fold_row(a, R::<2>(0), |s, _| s); x }));
    reach(1);
}
}
