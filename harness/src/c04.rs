//! C04: storage is released exactly once, and only when the last tensor using it is gone
use crate::rt::*;
use crate::*;
use essay_tensor::array::{concatenate, concatenate_axis, stack, stack_axis, tile, vstack};
use essay_tensor::tensor::{Tensor, Type};

type M = (Vec<usize>, Vec<u64>);
fn owned(d: &[usize]) -> (Tensor<Own>, M) {
    let v = syms(prod(d));
    (Tensor::from_vec(v.iter().map(|x| Own::new(*x)).collect(), d), (d.to_vec(), v))
}
fn agree(t: &Tensor<Own>, m: &M, id: u64) {
    same_shape(t, &m.0, id);
    let s = t.as_slice();
    check(s.len() == m.1.len(), id);
    let mut i = 0;
    while i < m.1.len() { check_eq(*s[i].0, m.1[i], id); i += 1; }
}
macro_rules! agree { ($t:expr, $m:expr) => { agree($t, $m, line!() as u64) } }

/// one operation on t, with the model of its result
fn step(op: usize, t: &Tensor<Own>, m: &M) -> (Tensor<Own>, M) {
    let (d, v) = m;
    let n = v.len();
    match op {
        0 => (t.clone(), m.clone()),
        1 => { let mut e = d.clone(); e[0] = 1; let row = prod(&d[1..]); let o = d[0] - 1; (t.subslice(o, 1), (e, v[o * row..].to_vec())) }
        2 => (t.subslice_flat(0, n - 1, [n - 1]), (vec![n - 1], v[..n - 1].to_vec())),
        3 => (t.clone().flatten(), (vec![n], v.clone())),
        4 => (t.map(|x| x.clone()), m.clone()),
        5 => { let mut w = v.clone(); w.extend_from_slice(v); let mut e = d.clone(); e[0] *= 2; (concatenate(vec![t, t]), (e, w)) }
        6 => { let mut w = v.clone(); w.extend_from_slice(v); let mut e = d.clone(); e.insert(0, 2); (stack(vec![t.clone(), t.clone()]), (e, w)) }
        7 => { let w = v.clone(); let f = t.clone().flatten(); let mut x = w.clone(); x.extend_from_slice(&w); (f.append(&f), (vec![2 * n], x)) }
        8 => { let p = t.split(d[0]); let k = p.len() - 1; let row = prod(&d[1..]); let mut e = d.clone(); e[0] = 1; (p[k].clone(), (e, v[k * row..].to_vec())) }
        9 => { let f = t.clone().flatten(); let mut x = v.clone(); x.extend_from_slice(v); (f.tile([2]), (vec![2 * n], x)) }
        10 => { let r = t.reduce(|a, _| a); (r, (vec![], vec![v[0]])) }
        11 => { let r = t.fold(Own::new(7), |_, x| x.clone()); (r, (vec![], vec![v[n - 1]])) }
        12 => (t.map2(t, |a, _| a.clone()), m.clone()),
        13 => { let f = t.clone().flatten(); (f.transpose(), (vec![n, 1], v.clone())) }
        14 => { let f = t.clone().flatten(); let r = f.reduce_axis(0, |_, b| b); (r, (vec![], vec![v[n - 1]])) }
        15 => { let x = v[0]; (Tensor::fill([2, 2], Own::new(x)), (vec![2, 2], vec![x; 4])) }
        16 => { let f = t.clone().flatten(); let r = f.map_expand(|x| [x.clone(), x.clone()]); let mut w = Vec::new(); for x in v.iter() { w.push(*x); w.push(*x); } (r, (vec![n, 2], w)) }
        17 => { let f = t.clone().flatten(); let r: Tensor<Own> = f.map_row(|r| [r[0].clone(), r[0].clone()]); (r, (vec![2], vec![v[0], v[0]])) }
        18 => { let r: Tensor<Own> = t.iter().collect(); (r, (vec![n], v.clone())) }
        19 => { let r = Tensor::from_merge(&[t.clone()], [n]); (r, (vec![n], v.clone())) }
        20 => { let f = t.clone().flatten(); let mut p = f.split_axis(0, [1]); let k = p.pop().unwrap(); (k, (vec![n - 1], v[1..].to_vec())) }
        21 => { let f = t.clone().flatten(); let mut p = f.unstack(0); let k = p.pop().unwrap(); (k, (vec![], vec![v[n - 1]])) }
        22 => { let r = t.normalize(None, Own::new(1), |s, _| s, |s| s, |_, x| x.clone()); (r, m.clone()) }
        _ => { let r: Tensor<Own> = t.clone().flatten().fold_row(None, [Own::new(3)], |s: [Own; 1], _| s); (r, (vec![1], vec![3])) }
    }
}
const OPS: usize = 23;

/// an element whose clone panics when its turn comes
#[derive(PartialEq, Debug)]
pub struct Bomb(Box<u64>);
static mut FUSE: usize = usize::MAX;
fn burn() { unsafe { if FUSE == 0 { FUSE = usize::MAX; panic!("clone"); } if FUSE != usize::MAX { FUSE -= 1; } } }
impl Clone for Bomb { fn clone(&self) -> Self { burn(); Bomb(Box::new(*self.0)) } }
impl Type for Bomb {}
fn bombs(d: &[usize]) -> (Tensor<Bomb>, Vec<u64>) {
    let v = syms(prod(d));
    (Tensor::from_vec(v.iter().map(|x| Bomb(Box::new(*x))).collect(), d), v)
}

harnesses! {
/// histories of operations and releases: contents stay right, everything is released exactly once
fn h_c04_history() {
    let k = pick(0, OPS);
    let d: Vec<usize> = match pick(0, 1) { 0 => vec![3], _ => vec![2, 2] };
    let (t0, m0) = owned(&d);
    let (t1, m1) = step(k, &t0, &m0);
    agree!(&t1, &m1);
    agree!(&t0, &m0);
    let keep = pick(0, 1) == 0;
    if keep { agree!(&t0, &m0); }
    let left = if keep { Some(t0) } else { drop(t0); None };
    agree!(&t1, &m1);
    if m1.1.len() >= 2 && m1.0.len() >= 1 {
        let (t2, m2) = step(pick(0, OPS), &t1, &m1);
        drop(t1);
        agree!(&t2, &m2);
        if let Some(t) = &left { agree!(t, &m0); }
    } else {
        drop(t1);
    }
    if let Some(t) = &left { agree!(t, &m0); }
    drop(left);
    reach(1);
}
/// every release order of a family of views
fn h_c04_release_order() {
    let d = small_dims(1, 3, 2);
    let n = prod(&d);
    let (t, m) = owned(&d);
    let mut fam: Vec<Option<(Tensor<Own>, M)>> = Vec::new();
    let c = t.clone();
    let s = t.subslice(d[0] - 1, 1);
    let row = prod(&d[1..]);
    let mut e = d.clone();
    e[0] = 1;
    let f = t.clone().flatten();
    let ms = (e, m.1[(d[0] - 1) * row..].to_vec());
    let mf = (vec![n], m.1.clone());
    fam.push(Some((t, m.clone())));
    fam.push(Some((c, m.clone())));
    fam.push(Some((s, ms)));
    fam.push(Some((f, mf)));
    for r in 0..4 {
        let mut k = pick(0, 3 - r);
        let mut i = 0;
        loop { if fam[i].is_some() { if k == 0 { break; } k -= 1; } i += 1; }
        fam[i] = None;
        for x in fam.iter() { if let Some((t, m)) = x { agree!(t, m); } }
    }
    reach(1);
}
/// empty tensors and elements of no size never allocate storage of size zero, nor release what they do not own
fn h_c04_empty() {
    let k = pick(0, 7);
    let v: Vec<Own> = Vec::new();
    match k {
        0 => { let t = Tensor::from(v); let c = t.clone(); drop(t); ck!(c.size() == 0 && c.get(0).is_none()); }
        1 => { let t = Tensor::from_vec(v, [0, 3]); let f = t.flatten(); ck!(f.size() == 0); let m = f.map(|x| x.clone()); ck!(m.size() == 0); }
        2 => { let t = Tensor::from_slice(&v); ck!(t.size() == 0 && t.iter().count() == 0); }
        3 => { let t: Tensor<Own> = Tensor::init([0], || Own::new(1)); ck!(t.size() == 0); let u = t.subslice_flat(0, 0, [0]); drop(t); ck!(u.as_slice().len() == 0); }
        4 => { let t: Tensor<Own> = Vec::<Own>::new().into_iter().collect(); ck!(t.size() == 0); }
        5 => { let t = Tensor::from_vec(vec![Zst; 5], [5]); let m = t.map(|_| Zst); let s = m.subslice(1, 3); drop(m); ck!(s.size() == 3); let f: Tensor<Zst> = Tensor::fill([2, 3], Zst); ck!(f.iter().count() == 6); }
        6 => { let t = Tensor::from(Vec::<[Own; 2]>::new()); ck!(t.size() == 0); let t = Tensor::from(vec![[Zst; 3]; 2]); ck!(t.size() == 6); }
        _ => { let t = Tensor::from_merge(&[Tensor::from(v)], [0]); ck!(t.size() == 0); }
    }
    reach(1);
}
/// conversions that take over or copy storage
fn h_c04_convert() {
    let v = syms(6);
    let o = |i: usize| Own::new(v[i]);
    let id = line!() as u64;
    match pick(0, 11) {
        0 => agree(&Tensor::from([o(0), o(1)]), &(vec![2], v[..2].to_vec()), id),
        1 => agree(&Tensor::from([[o(0), o(1), o(2)], [o(3), o(4), o(5)]]), &(vec![2, 3], v[..6].to_vec()), id),
        2 => agree(&Tensor::from([[[o(0)], [o(1)]], [[o(2)], [o(3)]]]), &(vec![2, 2, 1], v[..4].to_vec()), id),
        3 => agree(&Tensor::from(vec![[o(0), o(1), o(2)], [o(3), o(4), o(5)]]), &(vec![2, 3], v[..6].to_vec()), id),
        4 => { let w = vec![[o(0), o(1)], [o(2), o(3)], [o(4), o(5)]]; agree(&Tensor::from(&w), &(vec![3, 2], v[..6].to_vec()), id) }
        5 => { let w = vec![vec![o(0), o(1)], vec![o(2), o(3)]]; agree(&Tensor::<Own>::from(&w), &(vec![2, 2], v[..4].to_vec()), id) }
        6 => { let mut w = Vec::with_capacity(9); w.push(o(0)); w.push(o(1)); agree(&Tensor::from(w), &(vec![2], v[..2].to_vec()), id) }
        7 => agree(&Tensor::from_box(vec![o(0), o(1), o(2)].into_boxed_slice(), [3, 1]), &(vec![3, 1], v[..3].to_vec()), id),
        8 => { let w = vec![vec![o(0)], vec![], vec![o(1), o(2)]]; agree(&Tensor::join_vec(&w), &(vec![3], v[..3].to_vec()), id) }
        9 => { let w = vec![o(0), o(1)]; agree(&Tensor::from_slice(&w), &(vec![2], v[..2].to_vec()), id) }
        10 => agree(&Tensor::from([[[[o(0), o(1)]], [[o(2), o(3)]]]]), &(vec![1, 2, 1, 2], v[..4].to_vec()), id),
        _ => agree(&Tensor::from(Some(o(0))), &(vec![], v[..1].to_vec()), id),
    }
    reach(1);
}
/// a rejected construction releases what it was given
fn h_c04_rejected() {
    let v = syms(4);
    let o = || v.iter().map(|x| Own::new(*x)).collect::<Vec<Own>>();
    match pick(0, 6) {
        0 => ck!(rejects(|| Tensor::from_vec(o(), [5]))),
        1 => ck!(rejects(|| Tensor::from_box(o().into_boxed_slice(), [3]))),
        2 => ck!(rejects(|| Tensor::from(o()).reshape([3, 2]))),
        3 => { let t = Tensor::from(o()); ck!(rejects(|| t.subslice(2, 3))); agree!(&t, &(vec![4], v.clone())); }
        4 => { let t = Tensor::from(o()); ck!(rejects(|| Tensor::from_merge(&[t.clone(), t.clone()], [7]))); agree!(&t, &(vec![4], v.clone())); }
        5 => { let t = Tensor::from(o()); ck!(rejects(|| concatenate(vec![t.clone(), t.clone().reshape([2, 2])]))); agree!(&t, &(vec![4], v.clone())); }
        _ => { let t = Tensor::from(o()); ck!(rejects(|| stack(vec![t.clone(), t.clone().reshape([2, 2])]))); agree!(&t, &(vec![4], v.clone())); }
    }
    reach(1);
}
/// a callback that panics part way: no element is released twice and the inputs stay usable (what was
/// built so far may be leaked)
fn h_c04_panicking_callback() {
    leak_ok();
    let d = if pick(0, 1) == 0 { vec![3] } else { vec![2, 2] };
    let (t, m) = owned(&d);
    let n = prod(&d);
    let at = pick(0, 4);
    let mut calls = 0;
    let mut tick = || { if calls == at { panic!("callback"); } calls += 1; };
    let k = pick(0, 12);
    let done = match k {
        0 => attempt(|| Tensor::init([n], || { tick(); Own::new(1) })).is_some(),
        1 => attempt(|| Tensor::init_rindexed([n], |i| { tick(); Own::new(i[0] as u64) })).is_some(),
        2 => attempt(|| t.map(|x| { tick(); x.clone() })).is_some(),
        3 => attempt(|| t.map2(&t, |x, _| { tick(); x.clone() })).is_some(),
        4 => attempt(|| t.map3(&t, &t, |x, _, _| { tick(); x.clone() })).is_some(),
        5 => attempt(|| t.map_row(|r| { tick(); [r[0].clone(), r[0].clone()] })).is_some(),
        6 => attempt(|| t.map_expand(|x| { tick(); [x.clone(), x.clone()] })).is_some(),
        7 => attempt(|| t.fold(Own::new(0), |_, x| { tick(); x.clone() })).is_some(),
        8 => attempt(|| t.fold_axis(0, Own::new(0), |_, x| { tick(); x.clone() })).is_some(),
        9 => attempt(|| t.fold_row(None, [Own::new(0)], |_: [Own; 1], x| { tick(); [x[0].clone()] })).is_some(),
        10 => attempt(|| t.reduce(|a, _| { tick(); a })).is_some(),
        11 => attempt(|| t.reduce_axis(0, |_, b| { tick(); b })).is_some(),
        _ => attempt(|| t.normalize(0, Own::new(0), |s, _| s, |s| s, |_, x| { tick(); x.clone() })).is_some(),
    };
    agree!(&t, &m);
    if done { reach(1); } else { reach(2); }
}
/// the same for an element whose clone panics
fn h_c04_panicking_clone() {
    leak_ok();
    let d = if pick(0, 1) == 0 { vec![3] } else { vec![2, 2] };
    let (t, v) = bombs(&d);
    let at = pick(0, 5);
    unsafe { FUSE = at; }
    let k = pick(0, 12);
    let done = match k {
        0 => attempt(|| concatenate(vec![&t, &t])).is_some(),
        1 => attempt(|| stack(vec![&t, &t])).is_some(),
        2 => attempt(|| tile(&t, [2])).is_some(),
        3 => attempt(|| t.transpose()).is_some(),
        4 => attempt(|| t.split_axis(-1, [1])).is_some(),
        5 => attempt(|| Tensor::from_merge(&[t.clone(), t.clone()], [2 * v.len()])).is_some(),
        6 => attempt(|| Tensor::from_slice(t.as_slice())).is_some(),
        7 => attempt(|| t.reduce(|a, _| a)).is_some(),
        8 => attempt(|| Tensor::from(t.as_slice())).is_some(),
        9 => attempt(|| Tensor::fill([4], t[0].clone())).is_some(),
        10 => attempt(|| stack_axis(-1, vec![&t, &t])).is_some(),
        11 => attempt(|| vstack(vec![&t, &t])).is_some(),
        _ => attempt(|| concatenate_axis(-1, vec![&t, &t])).is_some(),
    };
    unsafe { FUSE = usize::MAX; }
    let mut i = 0;
    while i < v.len() { ckeq!(*t[i].0, v[i]); i += 1; }
    if done { reach(1); } else { reach(2); }
}
}
