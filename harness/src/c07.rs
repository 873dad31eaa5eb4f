//! C07: element and row maps
use crate::rt::*;
use crate::*;
use essay_tensor::tensor::Tensor;

fn rows<const N: usize>(d: &[usize]) {
    let (t, v) = mk(d);
    let r = d.len();
    let c = d[r - 1];
    let n = v.len() / c;
    let mut calls = 0u64;
    let m: Tensor<u64> = t.map_row(|row| {
        check(row.len() == c, 1000);
        let mut acc = calls;
        let mut i = 0;
        while i < row.len() { acc = f2(3, acc, row[i]); i += 1; }
        calls += 1;
        let mut o = [0u64; N];
        let mut j = 0;
        while j < N { o[j] = f2(4, acc, j as u64); j += 1; }
        o
    });
    let mut e = Vec::new();
    let mut k = 0;
    while k < n {
        let mut acc = k as u64;
        let mut i = 0;
        while i < c { acc = f2(3, acc, v[k * c + i]); i += 1; }
        let mut j = 0;
        while j < N { e.push(f2(4, acc, j as u64)); j += 1; }
        k += 1;
    }
    let mut o = d.to_vec();
    if N == 1 && r > 1 { o.pop(); } else { o[r - 1] = N; }
    same!(&m, &o, &e);
}
fn expand<const N: usize>(d: &[usize]) {
    let (t, v) = mk(d);
    let mut calls = 0u64;
    let m: Tensor<u64> = t.map_expand(|x| {
        let mut o = [0u64; N];
        let mut j = 0;
        while j < N { o[j] = f3(5, *x, j as u64, calls); j += 1; }
        calls += 1;
        o
    });
    let mut e = Vec::new();
    let mut i = 0;
    while i < v.len() { let mut j = 0; while j < N { e.push(f3(5, v[i], j as u64, i as u64)); j += 1; } i += 1; }
    let mut o = d.to_vec();
    o.push(N);
    same!(&m, &o, &e);
}

harnesses! {
/// map: same shape, each element its own image, called once per element in order
fn h_c07_map() {
    let d = if pick(0, 3) == 0 { big_dims() } else { any_dims() };
    let (t, v) = mk(&d);
    let mut k = 0u64;
    let m = t.map(|x| { let y = f2(1, *x, k); k += 1; y });
    ck!(k as usize == v.len());
    let e: Vec<u64> = v.iter().enumerate().map(|(i, x)| f2(1, *x, i as u64)).collect();
    same!(&m, &d, &e);
    same!(&t, &d, &v);
    reach(1);
}
/// to element types of other sizes
fn h_c07_map_types() {
    let d = any_dims();
    let (t, v) = mk(&d);
    let b = t.map(|x| f1(1, *x) as u8);
    let w = t.map(|x| (f1(2, *x), f1(3, *x) as u16));
    let z = t.map(|_| Zst);
    ck!(b.shape() == t.shape() && w.shape() == t.shape() && z.shape() == t.shape());
    ck!(b.size() == v.len() && w.as_slice().len() == v.len() && z.as_slice().len() == v.len());
    let mut i = 0;
    while i < v.len() {
        ckeq!(b[i], f1(1, v[i]) as u8);
        ckeq!(w[i].0, f1(2, v[i]));
        ckeq!(w[i].1, f1(3, v[i]) as u16);
        i += 1;
    }
    let back = b.map(|x| *x as u64);
    i = 0;
    while i < v.len() { ckeq!(back[i], f1(1, v[i]) as u8); i += 1; }
    reach(1);
}
fn h_c07_rows() {
    let k = pick(0, 4);
    let d = if k == 4 { big_dims() } else { any_dims_rank(1, 6) };
    assume(!zero_dim(&d));
    match k { 0 => rows::<1>(&d), 1 => rows::<2>(&d), 2 => rows::<3>(&d), 3 => rows::<5>(&d), _ => rows::<2>(&d) }
    reach(1);
}
fn h_c07_expand() {
    let k = pick(0, 4);
    let d = if k == 4 { big_dims() } else { any_dims_rank(0, 5) };
    match k { 0 => expand::<1>(&d), 1 => expand::<2>(&d), 2 => expand::<3>(&d), 3 => expand::<4>(&d), _ => expand::<2>(&d) }
    reach(1);
}
/// init and init_rindexed fill in row-major order; the index is innermost first
fn h_c07_init() {
    let d = if pick(0, 3) == 0 { big_dims() } else { any_dims() };
    let mut k = 0u64;
    let t = Tensor::init(d.as_slice(), || { let y = f1(6, k); k += 1; y });
    let n = prod(&d);
    let e: Vec<u64> = (0..n).map(|i| f1(6, i as u64)).collect();
    same!(&t, &d, &e);
    let r = d.len();
    let mut at = 0;
    let t = Tensor::init_rindexed(d.as_slice(), |ix| {
        check(ix.len() == r, 1001);
        let m = unflat(&d, at);
        let mut i = 0;
        while i < r { check(ix[i] == m[r - 1 - i], 1002); i += 1; }
        at += 1;
        f1(7, at as u64)
    });
    ck!(at == n);
    let e: Vec<u64> = (0..n).map(|i| f1(7, i as u64 + 1)).collect();
    same!(&t, &d, &e);
    reach(1);
}
}
