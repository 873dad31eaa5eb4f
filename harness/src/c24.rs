//! C24: comparing tensors
use crate::rt::*;
use crate::*;
use essay_tensor::tensor::{Tensor, Type};
use std::cmp::Ordering;

const DIMS: &[&[usize]] = &[&[], &[1], &[1, 1], &[0], &[2], &[3], &[1, 3], &[3, 1], &[4], &[2, 2], &[1, 2, 2], &[0, 3], &[3, 0], &[2, 3], &[3, 2], &[6]];
fn pick_dims() -> &'static [usize] { DIMS[pick(0, DIMS.len() - 1)] }
fn ten<T: Type + Clone>(v: &[T], d: &[usize], pad: T) -> Tensor<T> {
    if pick(0, 1) == 0 { return Tensor::from_vec(v.to_vec(), d); }
    let mut w = vec![pad.clone(); 2];
    w.extend_from_slice(v);
    w.push(pad);
    let n = w.len();
    Tensor::from_vec(w, [n]).subslice_flat(2, v.len(), d)
}
/// the order of two lists: by their first difference, a proper prefix being less
fn order<T: PartialOrd>(a: &[T], b: &[T]) -> Option<Ordering> {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        match a[i].partial_cmp(&b[i]) { Some(Ordering::Equal) => (), o => return o }
        i += 1;
    }
    Some(if a.len() < b.len() { Ordering::Less } else if a.len() > b.len() { Ordering::Greater } else { Ordering::Equal })
}
fn code(o: Option<Ordering>) -> u64 { match o { None => 9, Some(Ordering::Less) => 1, Some(Ordering::Equal) => 2, Some(Ordering::Greater) => 3 } }
fn relation<T: Type + PartialOrd + Clone>(v: &[T], d: &[usize], w: &[T], g: &[usize], pad: T) {
    let (a, b) = (ten(v, d, pad.clone()), ten(w, g, pad));
    // a fork-free account of equality: one bit per element
    let mut e = d == g;
    let mut i = 0;
    while i < v.len() && i < w.len() { e &= v[i] == w[i]; i += 1; }
    ck!((a == b) == e);
    ck!((a != b) == !e);
    ck!((b == a) == e);
    let o = match order(v, w) { Some(Ordering::Equal) => order(d, g), o => o };
    ckeq!(code(a.partial_cmp(&b)), code(o));
    ckeq!(code(b.partial_cmp(&a)), code(o.map(|o| o.reverse())));
    ck!((a < b) == (o == Some(Ordering::Less)));
    ck!((a >= b) == (o == Some(Ordering::Greater) || o == Some(Ordering::Equal)));
    ck!((o == Some(Ordering::Equal)) == e);
    // a tensor and its copy
    let c = a.clone();
    let mut se = true;
    for x in v.iter() { se &= x == x; }
    ck!((c == a) == se);
}

harnesses! {
fn h_c24_numbers() {
    let (d, g) = (pick_dims(), pick_dims());
    assume(prod(d) + prod(g) <= 8 || prod(d) == prod(g));
    let (v, w) = (syms(prod(d)), syms(prod(g)));
    relation(&v, d, &w, g, 5);
    reach(1);
}
/// floats: NaN differs from everything, itself included, and is unordered; both zeros are equal
fn h_c24_floats() {
    let (d, g) = (pick_dims(), pick_dims());
    assume(prod(d) + prod(g) <= 6);
    let (v, w) = (fsyms(prod(d)), fsyms(prod(g)));
    relation(&v, d, &w, g, 1f32);
    reach(1);
}
fn h_c24_signed() {
    let (d, g) = (pick_dims(), pick_dims());
    assume(prod(d) == prod(g) && prod(d) <= 4);
    let v: Vec<i8> = syms(prod(d)).iter().map(|x| *x as i8).collect();
    let w: Vec<i8> = syms(prod(g)).iter().map(|x| *x as i8).collect();
    relation(&v, d, &w, g, 1i8);
    reach(1);
}
/// equality is an element question, not one of storage: parts of one buffer
fn h_c24_shared() {
    let n = pick(2, 6);
    let v = syms(n);
    let t = Tensor::from(v.clone());
    let len = pick(1, n - 1);
    let (i, j) = (pick(0, n - len), pick(0, n - len));
    let (a, b) = (t.subslice(i, len), t.subslice(j, len));
    let mut e = true;
    let mut k = 0;
    while k < len { e &= v[i + k] == v[j + k]; k += 1; }
    ck!((a == b) == e);
    reach(1);
}
/// longer tensors: one element decides
fn h_c24_long() {
    let d = big_dims();
    let n = prod(&d);
    let v: Vec<u64> = (0..n as u64).map(|i| i * i % 251).collect();
    let at = [0, 1, n / 2, n - 2, n - 1][pick(0, 4)];
    let x = u64s();
    let mut w = v.clone();
    w[at] = x;
    let (a, b) = (Tensor::from_vec(v.clone(), d.as_slice()), Tensor::from_vec(w, d.as_slice()));
    ck!((a == b) == (x == v[at]));
    ck!((a < b) == (v[at] < x));
    ck!((a > b) == (v[at] > x));
    reach(1);
}
}
