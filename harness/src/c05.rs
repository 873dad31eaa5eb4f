//! C05: Shape behaves as the list of its dimensions, outermost first
use crate::rt::*;
use crate::*;
use essay_tensor::tensor::{Axis, Shape};

const U: u64 = u32::MAX as u64;
/// symbolic dimensions, every 32-bit value
fn sdims(r: usize) -> Vec<usize> { let mut v = Vec::new(); for _ in 0..r { v.push(range(0, U) as usize); } v }
fn is(s: &Shape, d: &[usize], id: u64) {
    check(s.rank() == d.len(), id);
    let v = s.as_vec();
    check(v.len() == d.len(), id);
    let mut i = 0;
    while i < d.len() { check_eq(v[i] as u64, d[i] as u64, id); i += 1; }
    // equality sees nothing but the list
    check(s == &Shape::from(d), id);
}
macro_rules! is { ($s:expr, $d:expr) => { is(&$s, &$d, line!() as u64) } }
macro_rules! is_or { ($r:expr, $ok:expr, $d:expr) => { match attempt(|| $r) { Some(s) => { ck!($ok); is(&s, &$d, line!() as u64) } None => ck!(!$ok) } } }
fn ins(d: &[usize], i: usize, x: usize) -> Vec<usize> { let mut v = d.to_vec(); v.insert(i, x); v }
fn set(d: &[usize], i: usize, x: usize) -> Vec<usize> { let mut v = d.to_vec(); v[i] = x; v }

harnesses! {
/// construction from lists, arrays and numbers; a dimension that does not fit or a seventh one is rejected
fn h_c05_from() {
    let r = pick(0, 7);
    let mut d = Vec::new();
    for _ in 0..r { d.push(usz()); }
    let mut fits = r <= 6;
    let mut pos = true;
    for x in d.iter() { fits = fits & (*x <= U as usize); pos = pos & (*x > 0); }
    is_or!(Shape::from(d.as_slice()), fits, d);
    match attempt(|| Shape::from(d.clone())) { Some(s) => { ck!(fits); is!(s, d); } None => ck!(!fits || !pos) }
    match r {
        0 => is!(Shape::scalar(), d),
        1 => {
            is_or!(Shape::from(d[0]), fits, d);
            is_or!(Shape::from([d[0]]), fits, d);
            match attempt(|| Shape::vector(d[0])) { Some(s) => { ck!(fits); is!(s, d); } None => ck!(!fits || !pos) }
        }
        2 => is_or!(Shape::from([d[0], d[1]]), fits, d),
        3 => is_or!(Shape::from([d[0], d[1], d[2]]), fits, d),
        4 => is_or!(Shape::from([d[0], d[1], d[2], d[3]]), fits, d),
        5 => is_or!(Shape::from([d[0], d[1], d[2], d[3], d[4]]), fits, d),
        6 => is_or!(Shape::from([d[0], d[1], d[2], d[3], d[4], d[5]]), fits, d),
        _ => { ck!(rejects(|| Shape::from([d[0], d[1], d[2], d[3], d[4], d[5], d[6]]))); reach(2); }
    }
    reach(1);
}
fn h_c05_query() {
    let r = pick(0, 6);
    let d = sdims(r);
    let s = sh(&d);
    is!(s, d);
    is!(s.clone(), d);
    is!(Shape::from(&s), d);
    let mut i = 0;
    while i < r {
        ckeq!(s.dim(i), d[i]);
        ckeq!(s.rdim(i), d[r - 1 - i]);
        ckeq!(s.idim(i as isize), d[i]);
        ckeq!(s.idim(i as isize - r as isize), d[i]);
        i += 1;
    }
    ck!(rejects(|| s.dim(r)));
    ckeq!(s.cols(), if r > 0 { d[r - 1] } else { 0 });
    ckeq!(s.rows(), if r > 1 { d[r - 2] } else { 0 });
    if r > 0 { ckeq!(s.len(), d[0]); } else { ck!(rejects(|| s.len())); }
    reach(1);
}
/// equality is equality of lists
fn h_c05_eq() {
    let (ra, rb) = (pick(0, 6), pick(0, 6));
    let (a, b) = (sdims(ra), sdims(rb));
    let mut e = ra == rb;
    let mut i = 0;
    while i < ra && i < rb { e = e & (a[i] == b[i]); i += 1; }
    ck!((sh(&a) == sh(&b)) == e);
    reach(1);
}
/// the number of elements and partial products
fn h_c05_size() {
    let r = pick(0, 6);
    let mut d = Vec::new();
    let sympos = pick(0, 6);
    let pat = [[2, 3, 5, 7, 11, 13], [40, 1, 2, 3, 1, 1], [1, 9, 1, 4, 1, 5], [3, 2, 0, 2, 4, 2]][pick(0, 3)];
    for i in 0..r { d.push(if i == sympos { bits(20) as usize } else { pat[i] }); }
    let s = sh(&d);
    ckeq!(s.size(), prod(&d));
    let mut i = 0;
    while i <= r {
        let mut j = i;
        while j <= r {
            ckeq!(s.sublen(i, j), prod(&d[i..j]));
            ckeq!(s.rsublen(i, j), prod(&d[r - j..r - i]));
            j += 1;
        }
        ckeq!(s.batch_len(i), prod(&d[..r - i]));
        i += 1;
    }
    ckeq!(s.batch_len(r + 1), 1);
    reach(1);
}
/// an element count beyond usize is never wrapped into a small one
fn h_c05_size_overflow() {
    let mut d = Vec::new();
    let r = pick(1, 4);
    for _ in 0..r { d.push([1, 3, 65536, 1 << 31, 4294967295usize][pick(0, 4)]); }
    let mut p: Option<usize> = Some(1);
    for x in d.iter().rev() { p = match p { Some(p) => p.checked_mul(*x), None => None }; }
    match attempt(|| sh(&d).size()) {
        Some(n) => { ck!(p == Some(n)); reach(1); }
        None => { ck!(p.is_none()); reach(2); }
    }
}
fn h_c05_replace() {
    let r = pick(0, 6);
    let d = sdims(r);
    let s = sh(&d);
    let x = usz();
    let ok = x <= U as usize;
    let i = pick(0, 6);
    is_or!(s.clone().replace(i, x), ok && i < r, set(&d, i, x));
    is_or!(s.clone().with_dim(i, x), ok && i < r, set(&d, i, x));
    is_or!(s.clone().rreplace(i, x), ok && i < r, set(&d, r - 1 - i, x));
    is_or!(s.clone().with_cols(x), ok && r > 0, set(&d, r - 1, x));
    is_or!(s.clone().with_rows(x), ok && r > 1, set(&d, r - 2, x));
    reach(1);
}
fn h_c05_insert() {
    let r = pick(0, 6);
    let d = sdims(r);
    let s = sh(&d);
    let x = usz();
    let ok = x <= U as usize && r < 6;
    is_or!(s.push(x), ok, ins(&d, 0, x));
    let i = pick(0, 6);
    is_or!(s.clone().insert(i, x), ok && i <= r, ins(&d, i, x));
    is_or!(s.clone().rinsert(i, x), ok && i <= r, ins(&d, r - i, x));
    reach(1);
}
fn h_c05_append() {
    let r = pick(0, 6);
    let d = sdims(r);
    let k = pick(0, 3);
    let t = sdims(k);
    let mut e = d.clone();
    e.extend_from_slice(&t);
    is_or!(sh(&d).append(&t), r + k <= 6, e);
    reach(1);
}
fn h_c05_remove() {
    let r = pick(0, 6);
    let d = sdims(r);
    let s = sh(&d);
    let i = pick(0, 6);
    is_or!(s.clone().remove(i), i < r, without(&d, i));
    is_or!(s.clone().rremove(i), i < r, without(&d, r - 1 - i));
    if r > 0 { is!(s.pop(), d[1..]); }
    if r > 1 { is!(s.clone().reduce(), d[..r - 1]); }
    if r == 1 { is!(s.clone().reduce(), [1]); }
    reach(1);
}
/// insert and remove are inverse, through every axis
fn h_c05_inverse() {
    let r = pick(0, 5);
    let d = sdims(r);
    let s = sh(&d);
    let x = range(0, U) as usize;
    let i = pick(0, 5);
    assume(i <= r);
    ck!(s.clone().insert(i, x).remove(i) == s);
    ck!(s.clone().rinsert(i, x).rremove(i) == s);
    if r > 0 { ck!(s.push(x).pop() == s); }
    reach(1);
}
fn h_c05_expand_squeeze() {
    let r = pick(0, 6);
    let mut d = Vec::new();
    for _ in 0..r { d.push(range(1, U) as usize); }
    let s = sh(&d);
    let a = pick(0, 13) as isize - 7;
    // expand_dims accepts -(r+1)..=r
    let ok = a <= r as isize && a >= -(r as isize) - 1 && r < 6;
    let at = if a >= 0 { a } else { a + r as isize + 1 };
    is_or!(s.expand_dims(a), ok, ins(&d, at as usize, 1));
    if r > 0 {
        let mut e = Vec::new();
        for x in d.iter() { if *x != 1 { e.push(*x); } }
        if e.len() == 0 { e.push(1); }
        is!(s.squeeze(None), e);
        is!(s.squeeze(Axis::axis_opt(None)), e);
        if a >= -(r as isize) && a < r as isize {
            let at = (if a >= 0 { a } else { a + r as isize }) as usize;
            let mut e = d.clone();
            if d[at] == 1 && r > 1 { e.remove(at); }
            is!(s.squeeze(a), e);
            is!(s.squeeze(Some(a)), e);
        }
    }
    reach(1);
}
/// broadcasting: trailing dimensions must agree, the result is the longer list
fn h_c05_broadcast() {
    let (ra, rb) = (pick(0, 6), pick(0, 6));
    let (a, b) = (sdims(ra), sdims(rb));
    let (sa, sb) = (sh(&a), sh(&b));
    let m = ra.min(rb);
    let mut ok = true;
    let mut i = 0;
    while i < m { ok = ok & (a[ra - 1 - i] == b[rb - 1 - i]); i += 1; }
    let e = if ra < rb { b.clone() } else { a.clone() };
    is_or!(sa.broadcast_to(&sb), ok, e);
    ck!(attempt(|| sa.check_broadcast(&sb)).is_some() == ok);
    reach(1);
}
fn h_c05_broadcast_size() {
    let a = small_dims(0, 3, 3);
    let b = small_dims(0, 3, 3);
    let (ra, rb) = (a.len(), b.len());
    let m = ra.min(rb);
    let mut ok = true;
    let mut i = 0;
    while i < m { ok = ok & (a[ra - 1 - i] == b[rb - 1 - i]); i += 1; }
    match attempt(|| sh(&a).broadcast(&sh(&b))) {
        Some(n) => { ck!(ok); ckeq!(n, if ra < rb { prod(&b) } else { prod(&a) }); }
        None => ck!(!ok),
    }
    // leading dimensions only
    let (am, bm) = (pick(0, 1), pick(0, 1));
    if am <= ra && bm <= rb {
        let (la, lb) = (&a[..ra - am], &b[..rb - bm]);
        let m = la.len().min(lb.len());
        let mut ok = true;
        let mut i = 0;
        while i < m { ok = ok & (la[la.len() - 1 - i] == lb[lb.len() - 1 - i]); i += 1; }
        match attempt(|| sh(&a).broadcast_min(am, &sh(&b), bm)) {
            Some(n) => { ck!(ok); ckeq!(n, if la.len() < lb.len() { prod(lb) } else { prod(la) }); }
            None => ck!(!ok),
        }
    }
    reach(1);
}
fn h_c05_axis() {
    let r = pick(1, 6);
    let (at, a) = any_axis(r);
    ck!(Axis::axis(a).axis_from_rank(r) == at);
    ck!(Axis::axis(a).get_axis() == Some(a));
    ck!(Axis::axis_opt(Some(a)).get_axis() == Some(a));
    ck!(Axis::axis_opt(None).get_axis() == None && Axis::default().get_axis() == None);
    let x: Axis = a.into();
    ck!(x.get_axis() == Some(a));
    let x: Axis = Some(a).into();
    ck!(x.get_axis() == Some(a));
    let x: Axis = None.into();
    ck!(x.get_axis() == None);
    // reduce: the shape without the axis and the lane geometry
    let mut d = Vec::new();
    let pat = [[2, 3, 5, 7, 11, 13], [4, 1, 2, 3, 1, 6], [1, 9, 1, 4, 1, 5]][pick(0, 2)];
    let sympos = pick(0, r);
    for i in 0..r { d.push(if i == sympos { range(1, 1 << 20) as usize } else { pat[i] }); }
    let (s, o, n, i) = Axis::axis(a).reduce(&sh(&d));
    if r == 1 { is!(s, []); } else { is!(s, without(&d, at)); }
    ckeq!(n, d[at]);
    ckeq!(o, prod(&d[..at]));
    ckeq!(i, prod(&d[at + 1..]));
    let (s, o, n, i) = Axis::axis_opt(None).reduce(&sh(&d));
    is!(s, []);
    ckeq!(o * n * i, prod(&d));
    ck!(o == 1 && i == 1);
    reach(1);
}
}
