//! C29: the debug form shows every element once, in order, under the right brackets
use crate::rt::*;
use crate::*;
use essay_tensor::tensor::{Shape, Tensor, Type};
use std::fmt::{self, Write};

#[derive(Clone)]
struct E(u64);
impl Type for E {}
static mut SEEN: Vec<u64> = Vec::new();
#[allow(static_mut_refs)]
fn seen() -> &'static mut Vec<u64> { unsafe { &mut SEEN } }
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        seen().push(self.0);
        // one letter per element, so that the text is known
        f.write_char((b'a' + ((seen().len() - 1) % 26) as u8) as char)
    }
}
struct Out(Vec<u8>);
impl Write for Out { fn write_str(&mut self, s: &str) -> fmt::Result { self.0.extend_from_slice(s.as_bytes()); Ok(()) } }

fn num(mut x: usize, o: &mut Vec<u8>) {
    let mut d = Vec::new();
    loop { d.push(b'0' + (x % 10) as u8); x /= 10; if x == 0 { break; } }
    while let Some(c) = d.pop() { o.push(c); }
}
fn dims(d: &[usize], o: &mut Vec<u8>) {
    o.push(b'[');
    let mut i = 0;
    while i < d.len() { if i > 0 { o.extend_from_slice(b", "); } num(d[i], o); i += 1; }
    o.push(b']');
}
fn body(d: &[usize], k: &mut usize, o: &mut Vec<u8>) {
    if d.len() == 0 { o.push(b'a' + (*k % 26) as u8); *k += 1; return; }
    let sep: &[u8] = match d.len() { 1 => b" ", 2 => b",\n ", _ => b",\n\n " };
    o.push(b'[');
    let mut i = 0;
    while i < d[0] { if i > 0 { o.extend_from_slice(sep); } body(&d[1..], k, o); i += 1; }
    o.push(b']');
}
fn text(a: &[u8], b: &[u8], id: u64) {
    check(a.len() == b.len(), id);
    let mut i = 0;
    while i < a.len() && i < b.len() { if a[i] != b[i] { check(false, id); } i += 1; }
}

fn shown(t: &Tensor<E>, d: &[usize], v: &[u64], id: u64) {
    *seen() = Vec::new();
    let mut o = Out(Vec::new());
    let r = write!(o, "{:?}", t);
    check(r.is_ok(), id);
    let s = std::mem::take(seen());
    check(s.len() == v.len(), id);
    let mut i = 0;
    while i < v.len() && i < s.len() { check_eq(s[i], v[i], id); i += 1; }
    let mut e = Vec::new();
    e.extend_from_slice(b"Tensor<");
    e.extend_from_slice(std::any::type_name::<E>().as_bytes());
    e.extend_from_slice(b"> {");
    if d.len() > 1 { e.push(b'\n'); }
    body(d, &mut 0, &mut e);
    e.extend_from_slice(b", shape: ");
    dims(d, &mut e);
    e.push(b'}');
    text(&o.0, &e, id);
}

harnesses! {
fn h_c29_big() {
    let d = big_dims();
    let (t, v) = mk(&d);
    shown(&t.map(|x| E(*x)), &d, &v, line!() as u64);
    reach(1);
}
fn h_c29_tensor() {
    let d = any_dims();
    assume(prod(&d) <= 72);
    let (t, v) = mk(&d);
    let t = t.map(|x| E(*x));
    // a view of the mapped tensor, too
    let (t, d, v) = if d.len() > 1 && d[0] > 1 && !zero_dim(&d) && pick(0, 1) == 1 {
        let n = prod(&d[1..]);
        let mut e = d.clone();
        e[0] -= 1;
        let t = t.subslice(1, e[0]);
        let v = v[n..].to_vec();
        let d = t.shape().as_vec();
        (t, d, v)
    } else { (t, d, v) };
    shown(&t, &d, &v, line!() as u64);
    reach(1);
}
fn h_c29_shape() {
    let d = any_dims();
    let mut o = Out(Vec::new());
    let r = write!(o, "{:?}", Shape::from(d.as_slice()));
    ck!(r.is_ok());
    let mut e = b"Shape".to_vec();
    dims(&d, &mut e);
    text(&o.0, &e, line!() as u64);
    reach(1);
}
}
