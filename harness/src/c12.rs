//! C12: joining tensors
use crate::rt::*;
use crate::*;
use essay_tensor::array::{concatenate, concatenate_axis, dstack, hstack, stack, stack_axis, vstack};
use essay_tensor::tensor::{IntoTensorList, Tensor};

type A = (Tensor<u64>, Vec<usize>, Vec<u64>);
fn arg(d: &[usize]) -> A { let (t, v) = mk(d); (t, d.to_vec(), v) }
fn ts(a: &[A]) -> Vec<Tensor<u64>> { a.iter().map(|x| x.0.clone()).collect() }
/// the model of concatenation: None unless ranks agree and all other dimensions agree
fn join(a: &[A], axis: usize) -> Option<(Vec<usize>, Vec<u64>)> {
    let d = &a[0].1;
    if axis >= d.len() { return None; }
    let mut len = 0;
    for x in a {
        if x.1.len() != d.len() { return None; }
        let mut i = 0;
        while i < d.len() { if i != axis && x.1[i] != d[i] { return None; } i += 1; }
        len += x.1[axis];
    }
    let (o, _, i) = lanes(d, axis);
    let mut v = Vec::new();
    let mut k = 0;
    while k < o {
        for x in a { let w = x.1[axis] * i; v.extend_from_slice(&x.2[k * w..(k + 1) * w]); }
        k += 1;
    }
    let mut e = d.clone();
    e[axis] = len;
    Some((e, v))
}
fn with_axis(a: &[A], axis: usize) -> Vec<A> {
    a.iter().map(|x| { let mut d = x.1.clone(); d.insert(axis, 1); (x.0.clone(), d, x.2.clone()) }).collect()
}
fn expect(r: Option<Tensor<u64>>, m: Option<(Vec<usize>, Vec<u64>)>, id: u64) {
    match (r, m) {
        (Some(t), Some((d, v))) => { same(&t, &d, &v, id); reach(1); }
        (None, None) => reach(2),
        _ => check(false, id),
    }
}
macro_rules! expect { ($r:expr, $m:expr) => { expect(attempt(|| $r), $m, line!() as u64) } }
/// one, two or three arguments that fit along the axis
fn fitting(d: &[usize], axis: usize) -> Vec<A> {
    let n = pick(1, 3);
    let mut v = vec![arg(d)];
    if n > 1 { let mut e = d.to_vec(); e[axis] = pick(1, 3); v.push(arg(&e)); }
    if n > 2 { let mut e = d.to_vec(); e[axis] += 1; let (t, m) = own(&e); v.push((t, e, m)); }
    v
}

harnesses! {
fn h_c12_concat_axis() {
    let d = any_dims_rank(1, 6);
    assume(!zero_dim(&d));
    let (at, a) = any_axis(d.len());
    let args = fitting(&d, at);
    let m = join(&args, at);
    expect!(concatenate_axis(a, ts(&args)), m.clone());
    if args.len() > 1 { expect!(args[0].0.concatenate_axis(a, ts(&args[1..])), m.clone()); }
    if at == 0 {
        expect!(concatenate(ts(&args)), m.clone());
        if args.len() > 1 { expect!(args[0].0.concatenate(ts(&args[1..])), m); }
    }
}
fn h_c12_concat_big() {
    let d = big_dims();
    let (at, a) = any_axis(d.len());
    let args = vec![arg(&d), arg(&{ let mut e = d.clone(); e[at] = 2; e })];
    expect!(concatenate_axis(a, ts(&args)), join(&args, at));
}
/// any three shapes: accepted exactly when they fit
fn h_c12_concat_any() {
    let d = small_dims(1, 3, 2);
    let at = pick(0, d.len() - 1);
    let e = small_dims(1, 3, 2);
    let args = vec![arg(&d), arg(&e)];
    expect!(concatenate_axis(at as isize, ts(&args)), join(&args, at));
}
fn h_c12_concat_misfit() {
    let d = any_dims_rank(1, 6);
    assume(!zero_dim(&d));
    let (at, a) = any_axis(d.len());
    let mut e = d.clone();
    let k = pick(0, d.len());
    if k == d.len() { assume(d.len() < 6); e.push(1); } else { e[k] += 1; }
    let args = if pick(0, 1) == 0 { vec![arg(&d), arg(&d), arg(&e)] } else { vec![arg(&d), arg(&e), arg(&d)] };
    expect!(concatenate_axis(a, ts(&args)), join(&args, at));
    if at == 0 { expect!(concatenate(ts(&args)), join(&args, at)); }
}
/// stack: a new axis, one entry per argument, arguments must agree
fn h_c12_stack() {
    let d = any_dims_rank(0, 5);
    assume(!zero_dim(&d));
    let (at, a) = any_axis(d.len() + 1);
    let n = pick(1, 3);
    let mut args = Vec::new();
    for _ in 0..n { args.push(arg(&d)); }
    let m = join(&with_axis(&args, at), at);
    expect!(stack_axis(a, ts(&args)), m.clone());
    if n > 1 { expect!(args[0].0.stack(ts(&args[1..]), a), m.clone()); }
    if at == 0 { expect!(stack(ts(&args)), m.clone()); expect!(stack_axis(None, ts(&args)), m); }
}
fn h_c12_stack_big() {
    let d = big_dims();
    let (at, a) = any_axis(d.len() + 1);
    let args = vec![arg(&d), { let (t, v) = view(&d, 1, 1); (t, d.clone(), v) }];
    expect!(stack_axis(a, ts(&args)), join(&with_axis(&args, at), at));
}
fn h_c12_stack_misfit() {
    let d = small_dims(0, 3, 2);
    let e = small_dims(0, 3, 2);
    assume(d != e);
    let (a, b) = (arg(&d), arg(&e));
    let (_at, ax) = any_axis(d.len() + 1);
    ck!(rejects(|| stack_axis(ax, vec![a.0.clone(), b.0.clone()])));
    ck!(rejects(|| stack_axis(ax, vec![a.0.clone(), a.0.clone(), b.0.clone()])));
    ck!(rejects(|| stack(vec![a.0.clone(), b.0.clone()])));
    reach(1);
}
/// hstack joins columns of rank 1 along axis 0 and everything else along axis 1
fn h_c12_hstack() {
    let d = any_dims_rank(1, 6);
    assume(!zero_dim(&d));
    let at = if d.len() == 1 { 0 } else { 1 };
    let args = fitting(&d, at);
    expect!(hstack(ts(&args)), join(&args, at));
}
/// vstack of equal shapes: rows on top of each other
fn h_c12_vstack() {
    let d = any_dims_rank(1, 5);
    assume(!zero_dim(&d));
    let n = pick(1, 3);
    let mut args = Vec::new();
    for _ in 0..n { args.push(arg(&d)); }
    let m = join(&with_axis(&args, 0), 0);
    expect!(vstack(ts(&args)), m.clone());
    if n > 1 { expect!(args[0].0.vstack(ts(&args[1..])), m); }
}
/// dstack joins along the third axis, which rank 1 and 2 get first
fn h_c12_dstack() {
    let d = any_dims_rank(1, 6);
    assume(!zero_dim(&d));
    let n = pick(1, 3);
    let mut args = Vec::new();
    for _ in 0..n { args.push(arg(&d)); }
    let ex: Vec<A> = args.iter().map(|x| {
        let e = match d.len() { 1 => vec![1, d[0], 1], 2 => vec![d[0], d[1], 1], _ => d.clone() };
        (x.0.clone(), e, x.2.clone())
    }).collect();
    expect!(dstack(ts(&args)), join(&ex, 2));
    if n > 1 { expect!(args[0].0.dstack(ts(&args[1..])), join(&ex, 2)); }
}
/// append joins along the outer axis: accepted when the parts below it agree
fn h_c12_append() {
    let d = any_dims_rank(1, 6);
    assume(!zero_dim(&d));
    let mut e = d.clone();
    let k = pick(0, d.len() - 1);
    e[k] = pick(1, 4);
    let (a, b) = (arg(&d), arg(&e));
    match attempt(|| a.0.append(&b.0)) {
        Some(t) => {
            let m = join(&[a, b], 0);
            ck!(m.is_some());
            if let Some((d, v)) = m { same!(&t, &d, &v); }
            reach(1);
        }
        None => { ck!(k != 0 && e[k] != d[k]); reach(2); }
    }
}
/// every way to pass the list of tensors
fn h_c12_lists() {
    let (a, b) = (arg(&[2]), arg(&[3]));
    let m = join(&[a.clone(), b.clone()], 0);
    let (x, y) = (a.0.clone(), b.0.clone());
    let (p, q) = (a.2.clone(), b.2.clone());
    fn go(l: impl IntoTensorList<u64>) -> Tensor<u64> { concatenate(l) }
    match pick(0, 13) {
        0 => expect!(go(vec![x.clone(), y.clone()]), m),
        1 => expect!(go(vec![&x, &y]), m),
        2 => expect!(go([x.clone(), y.clone()]), m),
        3 => expect!(go([&x, &y]), m),
        4 => expect!(go(&[x.clone(), y.clone()][..]), m),
        5 => expect!(go(&[&x, &y][..]), m),
        6 => expect!(go((x.clone(), y.clone())), m),
        7 => expect!(go((&x, &y)), m),
        8 => expect!(go(vec![p.clone(), q.clone()]), m),
        9 => expect!(go(vec![&p, &q]), m),
        10 => expect!(go([p.clone(), q.clone()]), m),
        11 => expect!(go([&p, &q]), m),
        12 => expect!(go(&[p.clone(), q.clone()][..]), m),
        _ => expect!(go(&[&p, &q][..]), m),
    }
}
/// the same for longer lists of vectors of various lengths
fn h_c12_long_lists() {
    let n = [1, 4, 7][pick(0, 2)];
    let pat = pick(0, 2);
    let len = |i: usize| match pat { 0 => 1, 1 => 1 + (i * 2) % 3, _ => [2, 1, 2, 2, 1, 3, 1][i] };
    let p: Vec<Vec<u64>> = (0..n).map(|i| syms(len(i))).collect();
    let mut e = Vec::new();
    for q in p.iter() { e.extend_from_slice(q); }
    let d = [e.len()];
    let t: Vec<Tensor<u64>> = p.iter().map(|q| Tensor::from_vec(q.clone(), [q.len()])).collect();
    let rt: Vec<&Tensor<u64>> = t.iter().collect();
    let rp: Vec<&Vec<u64>> = p.iter().collect();
    let id = line!() as u64;
    fn go(l: impl IntoTensorList<u64>) -> Tensor<u64> { concatenate(l) }
    fn arr<X: Clone, const N: usize>(v: &[X]) -> [X; N] { std::array::from_fn(|i| v[i].clone()) }
    macro_rules! each_n { ($v:ident) => { match n { 1 => go(arr::<_, 1>(&$v)), 4 => go(arr::<_, 4>(&$v)), _ => go(arr::<_, 7>(&$v)) } } }
    let r = match pick(0, 11) {
        0 => go(t.clone()), 1 => go(rt.clone()), 2 => go(t.as_slice()), 3 => go(rt.as_slice()),
        4 => go(p.clone()), 5 => go(rp.clone()), 6 => go(p.as_slice()), 7 => go(rp.as_slice()),
        8 => each_n!(t), 9 => each_n!(rt), 10 => each_n!(p), _ => each_n!(rp),
    };
    same(&r, &d, &e, id);
    reach(1);
}
/// tuples up to ten, kept in order
fn h_c12_tuples() {
    let v = syms(10);
    let t: Vec<Tensor<u64>> = v.iter().map(|x| Tensor::from([*x])).collect();
    let id = line!() as u64;
    let go = |n: usize, r: Tensor<u64>| same(&r, &[n], &v[..n], id);
    go(1, concatenate((&t[0],)));
    go(3, concatenate((&t[0], &t[1], &t[2])));
    go(4, concatenate((&t[0], &t[1], &t[2], &t[3])));
    go(5, concatenate((&t[0], &t[1], &t[2], &t[3], &t[4])));
    go(6, concatenate((&t[0], &t[1], &t[2], &t[3], &t[4], &t[5])));
    go(7, concatenate((&t[0], &t[1], &t[2], &t[3], &t[4], &t[5], &t[6])));
    go(8, concatenate((&t[0], &t[1], &t[2], &t[3], &t[4], &t[5], &t[6], &t[7])));
    go(9, concatenate((&t[0], &t[1], &t[2], &t[3], &t[4], &t[5], &t[6], &t[7], &t[8])));
    go(10, concatenate((&t[0], &t[1], &t[2], &t[3], &t[4], &t[5], &t[6], &t[7], &t[8], &t[9])));
    reach(1);
}
}
