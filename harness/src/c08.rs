//! C08: broadcasting maps
use crate::rt::*;
use crate::*;

/// do the trailing dimensions agree?
fn fits(a: &[usize], b: &[usize]) -> bool {
    let m = a.len().min(b.len());
    let mut i = 1;
    while i <= m { if a[a.len() - i] != b[b.len() - i] { return false; } i += 1; }
    true
}
fn longer<'a>(a: &'a [usize], b: &'a [usize]) -> &'a [usize] { if a.len() < b.len() { b } else { a } }
/// a suffix of a shape
fn tail(d: &[usize]) -> Vec<usize> { let k = pick(0, d.len()); d[k..].to_vec() }

harnesses! {
/// map2 over every pair of small shapes: the result pairs row-major positions modulo the operand sizes
fn h_c08_map2() {
    let (da, db) = (small_dims(0, 3, 2), small_dims(0, 3, 2));
    let (a, va) = mk(&da);
    let (b, vb) = mk(&db);
    let ok = fits(&da, &db);
    match attempt(|| { let mut k = 0u64; a.map2(&b, |x, y| { let r = f3(1, *x, *y, k); k += 1; r }) }) {
        Some(t) => {
            ck!(ok);
            let d = longer(&da, &db);
            let n = prod(d);
            let e: Vec<u64> = (0..n).map(|i| f3(1, va[i % va.len()], vb[i % vb.len()], i as u64)).collect();
            same!(&t, d, &e);
            same!(&a, &da, &va);
            same!(&b, &db, &vb);
            reach(1);
        }
        None => { ck!(!ok); reach(2); }
    }
}
/// larger shapes with every trailing part of them, both ways round
fn h_c08_map2_wide() {
    let d = if pick(0, 3) == 0 { big_dims() } else { any_dims() };
    assume(!zero_dim(&d));
    let (a, va) = mk(&d);
    let e = tail(&d);
    let (b, vb) = mk(&e);
    let t = a.map2(&b, |x, y| f2(1, *x, *y));
    let u = b.map2(&a, |x, y| f2(2, *x, *y));
    let n = va.len();
    let w: Vec<u64> = (0..n).map(|i| f2(1, va[i], vb[i % vb.len()])).collect();
    let x: Vec<u64> = (0..n).map(|i| f2(2, vb[i % vb.len()], va[i])).collect();
    same!(&t, &d, &w);
    same!(&u, &d, &x);
    reach(1);
}
/// near misses are rejected: one trailing dimension changed
fn h_c08_mismatch() {
    let d = any_dims_rank(1, 6);
    assume(!zero_dim(&d));
    let (a, _va) = own(&d);
    let mut e = tail(&d);
    assume(e.len() > 0);
    let k = pick(0, e.len() - 1);
    // to another divisor or multiple: the element counts may still divide each other
    let was = e[k];
    e[k] = [1, 2, was + 1, was * 2][pick(0, 3)];
    assume(e[k] != was);
    let (b, _vb) = own(&e);
    ck!(rejects(|| a.map2(&b, |x, _| *x)));
    ck!(rejects(|| b.map2(&a, |x, _| *x)));
    ck!(rejects(|| a.map3(&a, &b, |x, _, _| *x)));
    ck!(rejects(|| a.map3(&b, &a, |x, _, _| *x)));
    ck!(rejects(|| b.map3(&a, &a, |x, _, _| *x)));
    reach(1);
}
fn h_c08_map3() {
    let d = small_dims(0, 3, 3);
    let (ka, kb, kc) = (pick(0, 3), pick(0, 3), pick(0, 3));
    assume(ka <= d.len() && kb <= d.len() && kc <= d.len() && (ka == 0 || kb == 0 || kc == 0));
    let (da, db, dc) = (&d[ka..], &d[kb..], &d[kc..]);
    let (a, va) = mk(da);
    let (b, vb) = view(db, 1, 2);
    let (c, vc) = own(dc);
    let mut k = 0u64;
    let t = a.map3(&b, &c, |x, y, z| { let r = f2(9, f3(1, *x, *y, *z), k); k += 1; r });
    let n = prod(&d);
    let e: Vec<u64> = (0..n).map(|i| f2(9, f3(1, va[i % va.len()], vb[i % vb.len()], vc[i % vc.len()]), i as u64)).collect();
    same!(&t, &d, &e);
    reach(1);
}
fn h_c08_map3_any() {
    let (da, db, dc) = (small_dims(0, 2, 2), small_dims(0, 2, 2), small_dims(0, 2, 2));
    let (a, va) = own(&da);
    let (b, vb) = own(&db);
    let (c, vc) = own(&dc);
    let ok = fits(&da, &db) && fits(longer(&da, &db), &dc);
    match attempt(|| a.map3(&b, &c, |x, y, z| f3(1, *x, *y, *z))) {
        Some(t) => {
            ck!(ok);
            let d = longer(longer(&da, &db), &dc);
            let n = prod(d);
            let e: Vec<u64> = (0..n).map(|i| f3(1, va[i % va.len()], vb[i % vb.len()], vc[i % vc.len()])).collect();
            same!(&t, d, &e);
            reach(1);
        }
        None => { ck!(!ok); reach(2); }
    }
}
fn h_c08_map3_big() {
    let d = big_dims();
    let (a, va) = mk(&d);
    let e = &d[d.len() - 1..];
    let (b, vb) = own(e);
    let (c, vc) = own(&[]);
    let t = a.map3(&b, &c, |x, y, z| f3(1, *x, *y, *z));
    let u = c.map3(&a, &b, |x, y, z| f3(2, *x, *y, *z));
    let n = va.len();
    let w: Vec<u64> = (0..n).map(|i| f3(1, va[i], vb[i % vb.len()], vc[0])).collect();
    let x: Vec<u64> = (0..n).map(|i| f3(2, vc[0], va[i], vb[i % vb.len()])).collect();
    same!(&t, &d, &w);
    same!(&u, &d, &x);
    reach(1);
}
/// operands of different element types
fn h_c08_types() {
    let d = small_dims(0, 3, 2);
    let (a, va) = mk(&d);
    let e = tail(&d);
    let (b0, vb) = mk(&e);
    let b = b0.map(|x| f1(4, *x) as u8);
    let t = a.map2(&b, |x, y| (f2(1, *x, *y as u64), *y));
    ck!(t.shape() == a.shape());
    let mut i = 0;
    while i < va.len() {
        let y = f1(4, vb[i % vb.len()]) as u8;
        ckeq!(t[i].0, f2(1, va[i], y as u64));
        ckeq!(t[i].1, y);
        i += 1;
    }
    reach(1);
}
}
