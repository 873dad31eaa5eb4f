//! C13: splitting, and that joining undoes it
use crate::rt::*;
use crate::*;
use essay_tensor::array::{concatenate_axis, stack_axis};
use essay_tensor::tensor::Tensor;

/// the model: the part start..end of the axis
fn part(d: &[usize], v: &[u64], axis: usize, s: usize, e: usize) -> (Vec<usize>, Vec<u64>) {
    let (o, n, i) = lanes(d, axis);
    let mut w = Vec::new();
    let mut k = 0;
    while k < o { w.extend_from_slice(&v[(k * n + s) * i..(k * n + e) * i]); k += 1; }
    let mut x = d.to_vec();
    x[axis] = e - s;
    (x, w)
}
fn parts(p: &[Tensor<u64>], d: &[usize], v: &[u64], axis: usize, cuts: &[usize], id: u64) {
    let mut prev = 0;
    let mut k = 0;
    for c in cuts.iter().chain([d[axis]].iter()) {
        if *c == prev { continue; }
        let (x, w) = part(d, v, axis, prev, *c);
        check(k < p.len(), id);
        same(&p[k], &x, &w, id);
        k += 1;
        prev = *c;
    }
    check(k == p.len(), id);
}

harnesses! {
/// split into n equal parts; joining them gives the tensor back
fn h_c13_equal() {
    let d = any_dims_rank(1, 6);
    assume(!zero_dim(&d));
    let (t, v) = mk(&d);
    let (at, a) = any_axis(d.len());
    let n = pick(1, 9);
    match attempt(|| t.split_axis(a, n)) {
        Some(p) => {
            ck!(n <= d[at]);
            if d[at] % n == 0 {
                ck!(p.len() == n);
                let s = d[at] / n;
                let mut k = 0;
                while k < n { let (x, w) = part(&d, &v, at, k * s, (k + 1) * s); same!(&p[k], &x, &w); k += 1; }
                reach(1);
            }
            same!(&concatenate_axis(a, p), &d, &v);
        }
        None => { ck!(d[at] % n != 0); reach(2); }
    }
    same!(&t, &d, &v);
}
fn h_c13_big() {
    let d = big_dims();
    let (t, v) = mk(&d);
    let (at, a) = any_axis(d.len());
    let c = d[at] / 2;
    let p = t.split_axis(a, [1, c]);
    parts(&p, &d, &v, at, &[1, c], line!() as u64);
    if d[at] % 2 == 0 { parts(&t.split_axis(a, 2), &d, &v, at, &[c], line!() as u64); }
    reach(1);
}
/// split at given positions: pieces between consecutive cuts, empty ones left out
fn h_c13_cuts() {
    let d = any_dims_rank(1, 6);
    assume(!zero_dim(&d));
    let (t, v) = mk(&d);
    let (at, a) = any_axis(d.len());
    let n = d[at];
    assume(n <= 9);
    let m = pick(0, 2);
    let mut c = Vec::new();
    for _ in 0..m { let k = pick(0, n + 2); c.push(if k == n + 2 { usize::MAX } else { k }); }
    let mut ok = true;
    let mut prev = 0;
    for x in c.iter() { ok = ok && *x >= prev && *x <= n; prev = *x; }
    let r = match m {
        0 => attempt(|| t.split_axis(a, [])),
        1 => attempt(|| t.split_axis(a, [c[0]])),
        _ => attempt(|| t.split_axis(a, [c[0], c[1]])),
    };
    match r {
        Some(p) => { ck!(ok); parts(&p, &d, &v, at, &c, line!() as u64); same!(&concatenate_axis(a, p), &d, &v); reach(1); }
        None => { ck!(!ok); reach(2); }
    }
}
/// cuts at arbitrary positions along the outer axis
fn h_c13_cuts_symbolic() {
    let d = small_dims(1, 2, 4);
    let (t, v) = mk(&d);
    let n = d[0];
    let (x, y) = (usz(), usz());
    let ok = x <= y && y <= n;
    match attempt(|| t.split([x, y])) {
        Some(p) => { ck!(ok); parts(&p, &d, &v, 0, &[conc(x), conc(y)], line!() as u64); reach(1); }
        None => { ck!(!ok); reach(2); }
    }
}
/// the named forms are the axis forms
fn h_c13_forms() {
    let d = small_dims(1, 4, 4);
    assume(prod(&d) <= 36);
    let (t, v) = mk(&d);
    let k = pick(0, 3);
    let at = [0, 0, 1, 2][k];
    assume(at < d.len());
    let n = pick(1, 4);
    assume(d[at] % n == 0);
    let s = d[at] / n;
    let cuts: Vec<usize> = (1..n).map(|i| i * s).collect();
    let p = match k { 0 => t.split(n), 1 => t.vsplit(n), 2 => t.hsplit(n), _ => t.dsplit(n) };
    parts(&p, &d, &v, at, &cuts, line!() as u64);
    if d[at] > 1 {
        let p = match k { 0 => t.split([1]), 1 => t.vsplit([1]), 2 => t.hsplit([1]), _ => t.dsplit([1]) };
        parts(&p, &d, &v, at, &[1], line!() as u64);
    }
    reach(1);
}
/// unstack removes the axis; stacking along it gives the tensor back
fn h_c13_unstack() {
    let d = if pick(0, 4) == 0 { vec![3, 40, 2] } else { any_dims_rank(1, 6) };
    assume(!zero_dim(&d));
    let (t, v) = mk(&d);
    let (at, a) = any_axis(d.len());
    let p = t.unstack(a);
    ck!(p.len() == d[at]);
    let e = without(&d, at);
    let mut k = 0;
    while k < d[at] { let (_, w) = part(&d, &v, at, k, k + 1); same!(&p[k], &e, &w); k += 1; }
    same!(&stack_axis(at as isize, p), &d, &v);
    reach(1);
}
}
