//! C03: construction
use crate::rt::*;
use crate::*;
use essay_tensor::ten;
use essay_tensor::tensor::{scalar, Tensor};

/// lengths of `n` rows, chosen freely in 0..=m
fn lens(n: usize, m: usize) -> Vec<usize> { let mut v = Vec::new(); for _ in 0..n { v.push(pick(0, m)); } v }
fn equal(l: &[usize]) -> bool { let mut i = 1; while i < l.len() { if l[i] != l[0] { return false; } i += 1; } true }

harnesses! {
/// from_vec / from_box: the given elements in order under the given shape
fn h_c03_from_vec() {
    let d = if pick(0, 3) == 0 { big_dims() } else { any_dims() };
    let v = syms(prod(&d));
    same!(&Tensor::from_vec(v.clone(), d.as_slice()), &d, &v);
    same!(&Tensor::from_box(v.clone().into_boxed_slice(), sh(&d)), &d, &v);
    if !zero_dim(&d) { same!(&Tensor::from_vec(v.clone(), d.clone()), &d, &v); }
    // spare capacity is not data
    let mut w = Vec::with_capacity(v.len() + 3);
    w.extend_from_slice(&v);
    same!(&Tensor::from_vec(w, &sh(&d)), &d, &v);
    reach(1);
}
/// the number of elements must match the shape
fn h_c03_count() {
    let n = pick(0, 6);
    let v = syms(n);
    let b = [0, 1, 2, 3, 1 << 31, (1 << 32) - 1, 1 << 32][pick(0, 6)];
    let a = usz();
    let wide = a > u32::MAX as usize || b > u32::MAX as usize;
    let ok = (n == 0 && (a == 0 || b == 0)) || (n > 0 && a <= n && b <= n && a * b == n);
    let f = pick(0, 2);
    let r = match f {
        0 => attempt(|| Tensor::from_vec(v.clone(), [a, b])),
        1 => attempt(|| Tensor::from_box(v.clone().into_boxed_slice(), [a, b])),
        _ => attempt(|| Tensor::from(v.clone()).reshape([a, b])),
    };
    match r {
        Some(t) => {
            ck!(ok && t.size() == n && t.dim(0) == a && t.dim(1) == b);
            let mut i = 0;
            while i < n { ckeq!(t[i], v[i]); i += 1; }
            reach(1);
        }
        None => { ck!(!ok || wide); reach(2); }
    }
}
/// counts near every multiple of small shapes, higher ranks
fn h_c03_count_ranks() {
    let d = small_dims(0, 4, 2);
    let n = pick(0, 18);
    let v = syms(n);
    match attempt(|| Tensor::from_vec(v.clone(), d.as_slice())) {
        Some(t) => { ck!(n == prod(&d)); same!(&t, &d, &v); reach(1); }
        None => { ck!(n != prod(&d)); reach(2); }
    }
}
fn h_c03_flat_sources() {
    let n = [0, 1, 2, 3, 7, 8, 9, 33, 300, 1030][pick(0, 9)];
    let v = syms(n);
    let d = [n];
    same!(&Tensor::from(v.clone()), &d, &v);
    same!(&Tensor::from(&v), &d, &v);
    same!(&Tensor::from(v.as_slice()), &d, &v);
    same!(&Tensor::from_slice(&v), &d, &v);
    same!(&Tensor::from_slice(v.as_slice()), &d, &v);
    same!(&v.iter().collect::<Tensor<u64>>(), &d, &v);
    same!(&v.clone().into_iter().collect::<Tensor<u64>>(), &d, &v);
    let t = Tensor::from(v.clone());
    same!(&Tensor::from(&t), &d, &v);
    same!(&Tensor::from_slice(&t), &d, &v);
    reach(1);
}
fn h_c03_scalars() {
    let x = u64s();
    same!(&Tensor::from_scalar(x), &[], &[x]);
    same!(&Tensor::from(x), &[], &[x]);
    same!(&scalar(x), &[], &[x]);
    same!(&Tensor::<u64>::from(Some(x)), &[], &[x]);
    same!(&Tensor::<u64>::from(None::<u64>), &[0], &[]);
    let s = Tensor::<String>::from("ab");
    ck!(s.rank() == 0 && s[0].as_bytes() == b"ab");
    let s = Tensor::<String>::from(vec!["x", "", "yz"]);
    ck!(s.shape() == &sh(&[3]) && s[0].as_bytes() == b"x" && s[1].len() == 0 && s[2].as_bytes() == b"yz");
    let s = Tensor::<String>::from(["x", "yz"]);
    ck!(s.shape() == &sh(&[2]) && s[0].as_bytes() == b"x" && s[1].as_bytes() == b"yz");
    reach(1);
}
fn h_c03_arrays() {
    let v = syms(36);
    let e: [u64; 0] = [];
    same!(&Tensor::from(e), &[0], &[]);
    same!(&Tensor::from([v[0]]), &[1], &v[..1]);
    same!(&Tensor::from([v[0], v[1], v[2]]), &[3], &v[..3]);
    let a2 = [[v[0], v[1], v[2]], [v[3], v[4], v[5]]];
    same!(&Tensor::from(a2), &[2, 3], &v[..6]);
    same!(&Tensor::from(&a2[..]), &[2, 3], &v[..6]);
    same!(&Tensor::from(a2.to_vec()), &[2, 3], &v[..6]);
    same!(&Tensor::from(&a2.to_vec()), &[2, 3], &v[..6]);
    same!(&Tensor::from([[v[0]], [v[1]], [v[2]]]), &[3, 1], &v[..3]);
    same!(&Tensor::from([[v[0], v[1], v[2], v[3]]]), &[1, 4], &v[..4]);
    let a3 = [[[v[0], v[1], v[2]], [v[3], v[4], v[5]]], [[v[6], v[7], v[8]], [v[9], v[10], v[11]]],
        [[v[12], v[13], v[14]], [v[15], v[16], v[17]]], [[v[18], v[19], v[20]], [v[21], v[22], v[23]]]];
    same!(&Tensor::from(a3), &[4, 2, 3], &v[..24]);
    let b3 = [[[v[0], v[1]], [v[2], v[3]], [v[4], v[5]]], [[v[6], v[7]], [v[8], v[9]], [v[10], v[11]]]];
    same!(&Tensor::from(b3), &[2, 3, 2], &v[..12]);
    let a4 = [[[[v[0], v[1]], [v[2], v[3]], [v[4], v[5]]]], [[[v[6], v[7]], [v[8], v[9]], [v[10], v[11]]]]];
    same!(&Tensor::from(a4), &[2, 1, 3, 2], &v[..12]);
    let c4 = [[[[v[0]], [v[1]]], [[v[2]], [v[3]]], [[v[4]], [v[5]]]]];
    same!(&Tensor::from(c4), &[1, 3, 2, 1], &v[..6]);
    let e4 = [b3, b3];
    let mut w = v[..12].to_vec();
    w.extend_from_slice(&v[..12]);
    same!(&Tensor::from(e4), &[2, 2, 3, 2], &w);
    same!(&ten![v[0], v[1], v[2]], &[3], &v[..3]);
    same!(&ten![[v[0], v[1], v[2]], [v[3], v[4], v[5]]], &[2, 3], &v[..6]);
    same!(&ten![[[v[0], v[1]], [v[2], v[3]], [v[4], v[5]]], [[v[6], v[7]], [v[8], v[9]], [v[10], v[11]]]], &[2, 3, 2], &v[..12]);
    let z: Vec<[u64; 0]> = vec![[], [], []];
    same!(&Tensor::from(z), &[3, 0], &[]);
    let z: Vec<[u64; 3]> = vec![];
    same!(&Tensor::from(z), &[0, 3], &[]);
    reach(1);
}
/// nested vectors: accepted exactly when rectangular
fn h_c03_nested2() {
    let n = pick(0, if tier() > 0 { 4 } else { 3 });
    let l = lens(n, 3);
    let mut all = Vec::new();
    let mut vv = Vec::new();
    for k in l.iter() { let r = syms(*k); all.extend_from_slice(&r); vv.push(r); }
    match attempt(|| Tensor::<u64>::from(&vv)) {
        Some(t) => { ck!(equal(&l)); if n > 0 { same!(&t, &[n, l[0]], &all); } else { ck!(t.size() == 0); } reach(1); }
        None => { ck!(n == 0 || !equal(&l) || l[0] == 0); reach(2); }
    }
}
fn h_c03_nested3() {
    let n = pick(0, 2);
    let ls = lens(n, 2);
    let mut inner = Vec::new();
    let mut all = Vec::new();
    let mut vvv = Vec::new();
    for k in ls.iter() {
        let li = lens(*k, 2);
        let mut vv = Vec::new();
        for m in li.iter() { let r = syms(*m); all.extend_from_slice(&r); vv.push(r); inner.push(*m); }
        vvv.push(vv);
    }
    match attempt(|| Tensor::<u64>::from(&vvv)) {
        Some(t) => {
            ck!(equal(&ls) && equal(&inner));
            if n > 0 && ls[0] > 0 { same!(&t, &[n, ls[0], inner[0]], &all); } else { ck!(t.size() == 0); }
            reach(1);
        }
        None => { ck!(all.len() == 0 || !equal(&ls) || !equal(&inner)); reach(2); }
    }
}
/// ranks 4 and 5: at most one place deviates from the regular nesting
fn h_c03_nested45() {
    let d: Vec<usize> = match pick(0, 6) { 0 => vec![2, 2, 2, 2, 2], 1 => vec![1, 2, 3, 1, 2], 2 => vec![2, 1, 1, 2, 3], 3 => vec![3, 2, 1, 2, 1], 4 => vec![1, 1, 2, 2, 2], 5 => vec![2, 2, 1, 1, 1], _ => vec![1, 3, 2, 2, 1] };
    let v = syms(prod(&d));
    let mut at = 0;
    let mut v5 = Vec::new();
    for _ in 0..d[0] { let mut v4 = Vec::new();
        for _ in 0..d[1] { let mut v3 = Vec::new();
            for _ in 0..d[2] { let mut v2 = Vec::new();
                for _ in 0..d[3] { v2.push(v[at..at + d[4]].to_vec()); at += d[4]; }
                v3.push(v2);
            }
            v4.push(v3);
        }
        v5.push(v4);
    }
    let level = pick(0, 4);
    if level == 0 {
        same!(&Tensor::<u64>::from(&v5), &d, &v);
        same!(&Tensor::<u64>::from(&v5[0]), &d[1..], &v[..prod(&d[1..])]);
        reach(1);
        return;
    }
    // drop or duplicate one entry in one list of that level
    let grow = pick(0, 1) == 1;
    let (i, j, k, l) = (pick(0, d[0] - 1), pick(0, d[1] - 1), pick(0, d[2] - 1), pick(0, d[3] - 1));
    assume(level > 1 || (j == 0 && k == 0 && l == 0));
    assume(level > 2 || (k == 0 && l == 0));
    assume(level > 3 || l == 0);
    fn change<T: Clone>(v: &mut Vec<T>, grow: bool) { if grow { let x = v[0].clone(); v.push(x); } else { v.pop(); } }
    match level {
        1 => { assume(d[0] > 1); change(&mut v5[i], grow) }
        2 => { assume(d[0] * d[1] > 1); change(&mut v5[i][j], grow) }
        3 => { assume(d[0] * d[1] * d[2] > 1); change(&mut v5[i][j][k], grow) }
        _ => { assume(d[0] * d[1] * d[2] * d[3] > 1); change(&mut v5[i][j][k][l], grow) }
    }
    ck!(rejects(|| Tensor::<u64>::from(&v5)));
    if level > 1 && i == 0 && prod(&d[1..level]) > 1 { ck!(rejects(|| Tensor::<u64>::from(&v5[0]))); }
    reach(2);
}
/// an entry moved from one list to another of the same level: the counts add up, the nesting is ragged
fn h_c03_nested_move() {
    let d: Vec<usize> = match pick(0, 2) { 0 => vec![2, 2, 2, 2, 2], 1 => vec![1, 2, 3, 1, 2], _ => vec![1, 3, 1, 2, 3] };
    let v = syms(prod(&d));
    let mut at = 0;
    let mut v5 = Vec::new();
    for _ in 0..d[0] { let mut v4 = Vec::new();
        for _ in 0..d[1] { let mut v3 = Vec::new();
            for _ in 0..d[2] { let mut v2 = Vec::new();
                for _ in 0..d[3] { v2.push(v[at..at + d[4]].to_vec()); at += d[4]; }
                v3.push(v2);
            }
            v4.push(v3);
        }
        v5.push(v4);
    }
    let level = pick(1, 4);
    let m = prod(&d[..level]);
    let (a, b) = (pick(0, m - 1), pick(0, m - 1));
    assume(a != b);
    match level {
        1 => { let x = v5[a].pop().unwrap(); v5[b].push(x); }
        2 => { let x = v5[a / d[1]][a % d[1]].pop().unwrap(); v5[b / d[1]][b % d[1]].push(x); }
        3 => { let f = |x: usize| (x / d[2] / d[1], x / d[2] % d[1], x % d[2]); let (p, q) = (f(a), f(b)); let x = v5[p.0][p.1][p.2].pop().unwrap(); v5[q.0][q.1][q.2].push(x); }
        _ => { let f = |x: usize| (x / d[3] / d[2] / d[1], x / d[3] / d[2] % d[1], x / d[3] % d[2], x % d[3]); let (p, q) = (f(a), f(b)); let x = v5[p.0][p.1][p.2][p.3].pop().unwrap(); v5[q.0][q.1][q.2][q.3].push(x); }
    }
    ck!(rejects(|| Tensor::<u64>::from(&v5)));
    if level > 1 && d[0] == 1 {
        ck!(rejects(|| Tensor::<u64>::from(&v5[0])));
        if level > 2 && d[1] == 1 { ck!(rejects(|| Tensor::<u64>::from(&v5[0][0]))); }
    }
    reach(2);
}
fn h_c03_rows_of_arrays() {
    let n = pick(0, 3);
    let l = lens(n, 2);
    let mut all = Vec::new();
    let mut vv: Vec<Vec<[u64; 2]>> = Vec::new();
    for k in l.iter() {
        let mut r = Vec::new();
        for _ in 0..*k { let (a, b) = (u64s(), u64s()); r.push([a, b]); all.push(a); all.push(b); }
        vv.push(r);
    }
    match attempt(|| Tensor::<u64>::from(&vv)) {
        Some(t) => { ck!(equal(&l)); if n > 0 { same!(&t, &[n, l[0], 2], &all); } reach(1); }
        None => { ck!(all.len() == 0 || !equal(&l)); reach(2); }
    }
}
/// stacking existing tensors of one shape
fn h_c03_tensors() {
    let n = pick(0, 3);
    let d = small_dims(0, 2, 2);
    let odd = pick(0, 3);
    let e = if odd == 3 { let mut e = d.clone(); e.push(1); e } else if odd == 2 && d.len() > 0 { let mut e = d.clone(); e[0] += 1; e } else { d.clone() };
    let mut ts = Vec::new();
    let mut all = Vec::new();
    for i in 0..n {
        let (t, v) = if i == 1 && odd > 1 { own(&e) } else { mk(&d) };
        all.extend_from_slice(&v);
        ts.push(t);
    }
    let bad = n == 0 || (n > 1 && e != d);
    let mut o = vec![n];
    o.extend_from_slice(&d);
    match attempt(|| Tensor::from(&ts)) {
        Some(t) => { ck!(!bad); same!(&t, &o, &all); reach(1); }
        None => { ck!(bad); reach(2); }
    }
    match attempt(|| Tensor::from(ts.as_slice())) {
        Some(t) => { ck!(!bad); same!(&t, &o, &all); }
        None => ck!(bad),
    }
    if n == 2 {
        match attempt(|| Tensor::from([ts[0].clone(), ts[1].clone()])) {
            Some(t) => { ck!(!bad); same!(&t, &o, &all); }
            None => ck!(bad),
        }
    }
}
/// from_merge and join_vec concatenate in order; the count must match
fn h_c03_merge() {
    let n = pick(0, 3);
    let mut ts = Vec::new();
    let mut all = Vec::new();
    for _ in 0..n {
        let d: Vec<usize> = match pick(0, 3) { 0 => vec![], 1 => vec![2], 2 => vec![1, 3], _ => vec![0] };
        let (t, v) = mk(&d);
        all.extend_from_slice(&v);
        ts.push(t);
    }
    let extra = pick(0, 2);
    assume(all.len() + extra >= 1);
    let m = all.len() + extra - 1;
    match attempt(|| Tensor::from_merge(&ts, [m])) {
        Some(t) => { ck!(extra == 1); same!(&t, &[m], &all); reach(1); }
        None => ck!(extra != 1),
    }
    reach(2);
}
fn h_c03_join() {
    let n = pick(0, 4);
    let l = lens(n, 2);
    let mut vv = Vec::new();
    let mut w = Vec::new();
    for k in l.iter() { let r = syms(*k); w.extend_from_slice(&r); vv.push(r); }
    same!(&Tensor::join_vec(&vv), &[w.len()], &w);
    reach(1);
}
}
