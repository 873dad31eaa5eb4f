//! C01: every way of reading a tensor agrees with the row-major model, for owned tensors and views
use crate::rt::*;
use crate::*;
use essay_tensor::tensor::Tensor;

/// all the ways to read the whole contents
fn reads(t: &Tensor<u64>, d: &[usize], v: &[u64]) {
    same!(t, d, v);
    let n = v.len();
    let mut i = 0;
    while i < n {
        match t.get(i) { Some(x) => ckeq!(*x, v[i]), None => ck!(false) }
        ckeq!(t[i], v[i]);
        i += 1;
    }
    ck!(t.get(n).is_none());
    i = 0;
    for x in t.iter() { ck!(i < n); ckeq!(*x, v[i]); i += 1; }
    ck!(i == n);
    i = 0;
    for x in t { ck!(i < n); ckeq!(*x, v[i]); i += 1; }
    ck!(i == n);
    let s: &[u64] = t;
    ck!(s.len() == n);
    let s: &[u64] = t.as_ref();
    ck!(s.len() == n);
    i = 0;
    while i < n { ckeq!(s[i], v[i]); i += 1; }
    let a: &Tensor<u64> = t.as_ref();
    ck!(a.as_slice().as_ptr() == t.as_slice().as_ptr());
    ck!(unsafe { t.as_ptr() } == t.as_slice().as_ptr());
}
/// accessors of the shape through the tensor
fn meta(t: &Tensor<u64>, d: &[usize]) {
    let r = d.len();
    let mut i = 0;
    while i < r { ck!(t.dim(i) == d[i] && t.rdim(i) == d[r - 1 - i]); i += 1; }
    if r > 0 { ck!(t.len() == d[0] && t.cols() == d[r - 1]); }
    ck!(t.rows() == if r > 1 { d[r - 2] } else { 0 });
}

harnesses! {
fn h_c01_access() {
    let d = any_dims();
    let (t, v) = mk(&d);
    reads(&t, &d, &v);
    meta(&t, &d);
    reach(1);
}
fn h_c01_big() {
    let d = big_dims();
    let (t, v) = mk(&d);
    reads(&t, &d, &v);
    reach(1);
}
/// a flat position is accepted exactly when it is inside
fn h_c01_flat_index() {
    let d = any_dims_rank(0, 3);
    let (t, v) = mk(&d);
    let n = v.len();
    let i = usz();
    let g = t.get(i);
    ck!(g.is_some() == (i < n));
    if let Some(x) = g { ckeq!(*x, v[conc(i)]); }
    match attempt(|| t[i]) {
        Some(x) => { ck!(i < n); ckeq!(x, v[conc(i)]); reach(1); }
        None => { ck!(i >= n); reach(2); }
    }
}
/// a tuple of as many components as dimensions addresses the row-major element, out of range is rejected
fn h_c01_tuple_index() {
    let k = pick(0, 13);
    let d: Vec<usize> = match k {
        0 => vec![1, 1], 1 => vec![2, 3], 2 => vec![3, 2], 3 => vec![4, 1], 4 => vec![1, 5],
        5 => vec![2, 3, 2], 6 => vec![1, 2, 4], 7 => vec![3, 1, 2], 8 => vec![2, 2, 3],
        9 => vec![2, 3, 1, 2], 10 => vec![2, 1, 3, 2], 11 => vec![1, 2, 2, 3],
        12 => vec![2, 1, 2, 2, 2], _ => vec![1, 2, 1, 3, 2],
    };
    let (t, v) = mk(&d);
    let mut ix = Vec::new();
    let mut ok = true;
    for m in d.iter() { let i = usz(); ok = ok & (i < *m); ix.push(i); }
    let r = match d.len() {
        2 => attempt(|| t[(ix[0], ix[1])]),
        3 => attempt(|| t[(ix[0], ix[1], ix[2])]),
        4 => attempt(|| t[(ix[0], ix[1], ix[2], ix[3])]),
        _ => attempt(|| t[(ix[0], ix[1], ix[2], ix[3], ix[4])]),
    };
    match r {
        Some(x) => {
            ck!(ok);
            let mut j = 0;
            while j < ix.len() { ix[j] = conc(ix[j]); j += 1; }
            ckeq!(x, v[flat(&d, &ix)]);
            reach(1);
        }
        None => { ck!(!ok); reach(2); }
    }
}
/// a tuple with more components than dimensions is rejected
fn h_c01_tuple_rank() {
    let d = small_dims(0, 4, 2);
    let (t, _v) = mk(&d);
    let k = pick(2, 5);
    assume(k > d.len());
    let r = match k {
        2 => attempt(|| t[(0, 0)]),
        3 => attempt(|| t[(0, 0, 0)]),
        4 => attempt(|| t[(0, 0, 0, 0)]),
        _ => attempt(|| t[(0, 0, 0, 0, 0)]),
    };
    ck!(r.is_none());
    reach(1);
}
/// rows come out in order, each with all its columns
fn h_c01_rows() {
    let d = if pick(0, 1) == 0 { any_dims_rank(2, 6) } else { big_dims() };
    assume(d.len() > 1 && !zero_dim(&d));
    let (t, v) = mk(&d);
    let c = d[d.len() - 1];
    let mut i = 0;
    for row in t.iter_row() {
        ck!(row.len() == c);
        let mut j = 0;
        while j < c { ck!(i < v.len()); ckeq!(row[j], v[i]); i += 1; j += 1; }
    }
    ck!(i == v.len());
    reach(1);
}
/// wrapping slices start at the position modulo the size and stay inside
fn h_c01_wrap() {
    let d = small_dims(1, 2, 4);
    let (t, v) = mk(&d);
    let n = v.len();
    let o = usz();
    let at = conc(o % n);
    let s = t.as_wrap_slice(o);
    ck!(s.len() == n - at);
    let mut i = 0;
    while i < s.len() { ckeq!(s[i], v[at + i]); i += 1; }
    ckeq!(unsafe { *t.as_wrap_ptr(o) }, v[at]);
    let len = usz();
    match attempt(|| t.as_wrap_slice_n(o, len)) {
        Some(s) => {
            ck!(len <= n - at && s.len() == len);
            let len = conc(len);
            let mut i = 0;
            while i < len { ckeq!(s[i], v[at + i]); i += 1; }
            reach(1);
        }
        None => { ck!(len > n - at); reach(2); }
    }
}
/// other element sizes, including none
fn h_c01_types() {
    let n = pick(0, 5);
    let k = pick(0, 2);
    let mut b: Vec<u8> = Vec::new();
    let mut q: Vec<(u64, u8)> = Vec::new();
    let mut z: Vec<()> = Vec::new();
    for _ in 0..n + k { b.push(bits(8) as u8); q.push((u64s(), bits(8) as u8)); z.push(()); }
    let tb = Tensor::from_vec(b.clone(), [n + k]).subslice_flat(k, n, [n]);
    let tq = Tensor::from_vec(q.clone(), [n + k]).subslice_flat(k, n, [n]);
    let mut i = 0;
    ck!(tb.as_slice().len() == n && tq.as_slice().len() == n);
    while i < n {
        ckeq!(tb[i], b[k + i]);
        ckeq!(*tb.get(i).unwrap(), b[k + i]);
        ckeq!(tq[i].0, q[k + i].0);
        ckeq!(tq.get(i).unwrap().1, q[k + i].1);
        i += 1;
    }
    ck!(tb.get(n).is_none() && tq.get(n).is_none());
    let zt = Tensor::from_vec(vec![Zst; n + k], [n + k]).subslice_flat(k, n, [n]);
    ck!(zt.as_slice().len() == n && zt.iter().count() == n && zt.get(n).is_none());
    let _ = z;
    reach(1);
}
}
