//! C02: views
use crate::rt::*;
use crate::*;
use essay_tensor::tensor::Tensor;

harnesses! {
/// subslice: exactly the rows offset..offset+len
fn h_c02_subslice() {
    let d = any_dims_rank(1, 6);
    assume(!zero_dim(&d) && d[0] <= 9 && prod(&d) <= 72);
    let (t, v) = mk(&d);
    let (o, l) = (usz(), usz());
    let fits = l <= d[0] && o <= d[0] - l;
    match attempt(|| t.subslice(o, l)) {
        Some(s) => {
            ck!(fits);
            let (o, l) = (conc(o), conc(l));
            let row = prod(&d[1..]);
            let mut e = d.clone();
            e[0] = l;
            same!(&s, &e, &v[o * row..(o + l) * row]);
            // the parent is unchanged
            same!(&t, &d, &v);
            reach(1);
        }
        None => { ck!(!fits || l == 0); reach(2); }
    }
}
fn h_c02_subslice_big() {
    let d = big_dims();
    let (t, v) = view(&d, 2, 1);
    let o = pick(0, 2) * (d[0] - 1) / 2;
    let l = if pick(0, 1) == 0 { 1 } else { d[0] - o };
    let s = t.subslice(o, l);
    let row = prod(&d[1..]);
    let mut e = d.clone();
    e[0] = l;
    same!(&s, &e, &v[o * row..(o + l) * row]);
    reach(1);
}
/// subslice_flat: accepted exactly when the range lies inside and the shape has that many elements
fn h_c02_flat() {
    let d = small_dims(1, 2, 4);
    let (t, v) = mk(&d);
    let n = v.len();
    let e: Vec<usize> = match pick(0, 8) {
        0 => vec![], 1 => vec![1], 2 => vec![3], 3 => vec![2, 2], 4 => vec![6], 5 => vec![2, 1, 3],
        6 => vec![0], 7 => vec![1, 1, 1, 2, 1, 2], _ => vec![3, 0],
    };
    let (o, l) = (usz(), usz());
    let fits = l <= n && o <= n - l;
    match attempt(|| t.subslice_flat(o, l, e.as_slice())) {
        Some(s) => {
            ck!(fits && l == prod(&e));
            let (o, l) = (conc(o), conc(l));
            same!(&s, &e, &v[o..o + l]);
            same!(&t, &d, &v);
            reach(1);
        }
        None => { ck!(!fits || l != prod(&e)); reach(2); }
    }
}
/// a shape given by symbolic dimensions
fn h_c02_flat_shape() {
    let n = pick(1, 6);
    let (t, v) = own(&[n]);
    let b = [0, 1, 2, 3, 1 << 31, (1 << 32) - 1, 1 << 32][pick(0, 6)];
    let a = usz();
    let o = pick(0, n);
    let l = pick(0, n);
    let fits = o + l <= n;
    let ok = fits && ((l == 0 && (a == 0 || b == 0)) || (l > 0 && a <= l && b <= l && a * b == l));
    let wide = a > u32::MAX as usize || b > u32::MAX as usize;
    match attempt(|| t.subslice_flat(o, l, [a, b])) {
        Some(s) => {
            ck!(ok);
            ck!(s.size() == l);
            let mut i = 0;
            while i < l { ckeq!(s[i], v[o + i]); i += 1; }
            ck!(s.dim(0) == a && s.dim(1) == b);
            reach(1);
        }
        None => { ck!(!ok || wide); reach(2); }
    }
}
/// views of views, and views outliving their parent
fn h_c02_nested() {
    let k = pick(0, 5);
    let d: Vec<usize> = match k { 0 => vec![5], 1 => vec![4, 2], 2 => vec![3, 2, 2], 3 => vec![3, 1, 2], 4 => vec![6], _ => vec![2, 2, 1, 1, 1, 2] };
    let (t, v) = mk(&d);
    let mut cur = t;
    let (mut at, mut d, mut n) = (0usize, d, v.len());
    let depth = if tier() > 0 { 3 } else { 2 };
    for _ in 0..depth {
        let next;
        match pick(0, 3) {
            0 => {
                let o = pick(0, d[0] - 1);
                let l = pick(1, d[0] - o);
                next = cur.subslice(o, l);
                at += o * prod(&d[1..]);
                d[0] = l;
            }
            1 => {
                let o = pick(0, n - 1);
                let l = if pick(0, 1) == 0 { 1 } else { n - o };
                next = cur.subslice_flat(o, l, [l]);
                at += o;
                d = vec![l];
            }
            2 => { next = cur.clone().flatten(); d = vec![n]; }
            _ => { assume(d.len() < 6); next = cur.clone().expand_dims(0); d.insert(0, 1); }
        }
        n = prod(&d);
        cur = next; // the parent is released here
        same!(&cur, &d, &v[at..at + n]);
        let mut i = 0;
        while i < n { match cur.get(i) { Some(x) => ckeq!(*x, v[at + i]), None => ck!(false) } i += 1; }
    }
    ck!(cur.get(n).is_none());
    reach(1);
}
/// operations applied to a view see only the view
fn h_c02_ops() {
    let d = small_dims(1, 3, 2);
    let (t, v) = view(&d, 3, 2);
    let n = v.len();
    let m = t.map(|x| f1(1, *x));
    let e: Vec<u64> = v.iter().map(|x| f1(1, *x)).collect();
    same!(&m, &d, &e);
    let c = Tensor::from_merge(&[t.clone(), t.clone()], [2 * n]);
    let mut w = v.clone();
    w.extend_from_slice(&v);
    same!(&c, &[2 * n], &w);
    let s = t.fold(1u64, |s, x| f2(2, s, *x));
    let mut acc = 1;
    for x in v.iter() { acc = f2(2, acc, *x); }
    same!(&s, &[], &[acc]);
    ck!(t == Tensor::from_vec(v.clone(), d.as_slice()));
    reach(1);
}
}
