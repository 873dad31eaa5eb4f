//! C28: option builders made by derive_opt
use crate::rt::*;
use crate::*;
use essay_opt::derive_opt;

/// converts into the option's type, to tell a converting setter from one that drops its argument
pub struct Half(pub u32);
impl From<Half> for u64 { fn from(h: Half) -> u64 { f1(7, h.0 as u64) } }

#[derive_opt(ArgOpt)]
#[derive(Default, Clone)]
pub struct Arg {
    len: Option<usize>,
    scale: Option<f32>,
    seed: Option<u64>,
    name: Option<String>,
    plain: u32,
    flag: bool,
    text: String,
}

#[derive_opt(OneOpt)]
pub struct One {
    first: Option<u64>,
    second: u16,
}
impl Default for One { fn default() -> Self { One { first: Some(77), second: 9 } } }

#[derive(Clone, Default)]
struct Want { len: Option<usize>, scale: Option<u32>, seed: Option<u64>, name: Option<u8>, plain: u32, flag: bool, text: Option<u8> }

fn letter(b: u8) -> String { let mut s = String::new(); s.push((b & 0x7f) as char); s }
fn set(a: Arg, w: &mut Want, k: usize) -> Arg {
    match k {
        0 => { let v = usz(); w.len = Some(v); a.len(v) }
        1 => { let v = f32s(); w.scale = Some(v.to_bits()); a.scale(v) }
        2 => { let v = u64s(); w.seed = Some(v); a.seed(v) }
        3 => { let v = bits(32) as u32; w.seed = Some(f1(7, v as u64)); a.seed(Half(v)) }
        4 => { let v = bits(7) as u8; w.name = Some(v); a.name(letter(v)) }
        5 => { let v = bits(32) as u32; w.plain = v; a.plain(v) }
        6 => { let v = bits(1) == 1; w.flag = v; a.flag(v) }
        _ => { let v = bits(7) as u8; w.text = Some(v); a.text(letter(v)) }
    }
}
fn set_nil(w: &mut Want, k: usize) -> Arg {
    match k {
        0 => { let v = usz(); w.len = Some(v); ().len(v) }
        1 => { let v = f32s(); w.scale = Some(v.to_bits()); ().scale(v) }
        2 => { let v = u64s(); w.seed = Some(v); ().seed(v) }
        3 => { let v = bits(32) as u32; w.seed = Some(f1(7, v as u64)); ().seed(Half(v)) }
        4 => { let v = bits(7) as u8; w.name = Some(v); ().name(letter(v)) }
        5 => { let v = bits(32) as u32; w.plain = v; ().plain(v) }
        6 => { let v = bits(1) == 1; w.flag = v; ().flag(v) }
        _ => { let v = bits(7) as u8; w.text = Some(v); ().text(letter(v)) }
    }
}
fn one(s: &str, b: u8) -> bool { s.len() == 1 && s.as_bytes()[0] == b }
fn holds(a: &Arg, w: &Want) {
    match (a.len, w.len) { (Some(x), Some(y)) => ckeq!(x, y), (x, y) => ck!(x.is_none() && y.is_none()) }
    match (a.scale, w.scale) { (Some(x), Some(y)) => ckeq!(x.to_bits(), y), (x, y) => ck!(x.is_none() && y.is_none()) }
    match (a.seed, w.seed) { (Some(x), Some(y)) => ckeq!(x, y), (x, y) => ck!(x.is_none() && y.is_none()) }
    match (&a.name, w.name) { (Some(x), Some(y)) => ck!(one(x, y)), (x, y) => ck!(x.is_none() && y.is_none()) }
    ckeq!(a.plain, w.plain);
    ck!(a.flag == w.flag);
    match w.text { Some(y) => ck!(one(&a.text, y)), None => ck!(a.text.len() == 0) }
}
fn arg(o: impl ArgOpt) -> Arg { o.into_arg() }

harnesses! {
/// any sequence of settings, from nothing or from a value
fn h_c28_sequence() {
    let mut w = Want::default();
    let n = pick(0, if tier() > 0 { 4 } else { 3 });
    let mut a = if n == 0 { arg(()) } else { set_nil(&mut w, pick(0, 7)) };
    let mut i = 1;
    while i < n { a = set(a, &mut w, pick(0, 7)); i += 1; }
    holds(&a, &w);
    let a = arg(a);
    holds(&a, &w);
    // a copy taken earlier is not affected by later settings
    let before = w.clone();
    let b = set(a.clone(), &mut w, pick(0, 7));
    holds(&a, &before);
    holds(&b, &w);
    reach(1);
}
/// the struct's own default, not the fields'
fn h_c28_default() {
    let d = ().into_arg_one();
    ck!(matches!(d.first, Some(77)) && d.second == 9);
    let v = u64s();
    let s = bits(16) as u16;
    let a = OneOpt::first((), v);
    ckeq!(a.first.unwrap(), v);
    ckeq!(a.second, 9);
    let a = OneOpt::second((), s);
    ckeq!(a.second, s);
    ck!(matches!(a.first, Some(77)));
    let a = a.first(v).second(s ^ 1).into_arg();
    ckeq!(a.first.unwrap(), v);
    ckeq!(a.second, s ^ 1);
    reach(1);
}
}
trait IntoOne { fn into_arg_one(self) -> One; }
impl IntoOne for () { fn into_arg_one(self) -> One { OneOpt::into_arg(self) } }
