//! Byte-level memory with provenance-free addresses spaced far apart.
use crate::term::*;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct IdH(u64);
impl Hasher for IdH {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3); } }
    fn write_u64(&mut self, v: u64) { self.0 = v.wrapping_mul(0x9E3779B97F4A7C15); }
    fn write_u32(&mut self, v: u32) { self.0 = (v as u64).wrapping_mul(0x9E3779B97F4A7C15); }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<IdH>>;

pub const SLOT: u32 = 24;
pub const BASE: u64 = 0x1000_0000_0000;
pub const GBASE: u64 = 0x0100_0000_0000;
pub const FBASE: u64 = 0x7000_0000_0000_0000;

pub type B = u64;
pub const UNINIT: B = 0;
pub fn conc(b: u8) -> B { 0x100 | b as u64 }
pub fn symb(t: T, i: u32) -> B { (1 << 63) | ((t as u64) << 8) | i as u64 }
pub fn is_conc(b: B) -> bool { b >> 63 == 0 && b & 0x100 != 0 }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Stack, Heap, Global, Const }

#[derive(Clone)]
pub struct Obj {
    pub base: u64,
    pub bytes: Vec<B>,
    pub kind: Kind,
    pub align: u64,
}

#[derive(Clone, Debug)]
pub enum Val {
    I(u128),
    S(T),
    Undef,
    /// a scalar some of whose bytes are uninitialised (only moved around, never computed with)
    Part(Rc<Vec<B>>),
    Agg(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Mem {
    pub objs: FxMap<u64, Rc<Obj>>,
    pub next: u64,
}

pub fn slot_of(addr: u64) -> u64 { addr >> SLOT }

impl Mem {
    pub fn alloc(&mut self, size: u64, align: u64, kind: Kind) -> u64 {
        let slot = self.next;
        self.next += 1;
        // base is aligned to exactly `align`, not more
        let base = (slot << SLOT) + if align >= (1 << (SLOT - 1)) { 0 } else { align.max(1) };
        self.objs.insert(slot, Rc::new(Obj { base, bytes: vec![UNINIT; size as usize], kind, align }));
        base
    }
    pub fn get(&self, addr: u64) -> Option<&Rc<Obj>> { self.objs.get(&slot_of(addr)) }
}

pub fn load_bytes(o: &Obj, off: usize, n: usize) -> Val { from_bytes(&o.bytes[off..off + n]) }
pub fn to_bytes(v: &Val, n: usize) -> Vec<B> {
    let mut o = Obj { base: 0, bytes: vec![UNINIT; n], kind: Kind::Stack, align: 1 };
    store_bytes(&mut o, 0, n, v);
    o.bytes
}
pub fn from_bytes(bs: &[B]) -> Val {
    let mut v: u128 = 0;
    let mut all = true;
    for (i, b) in bs.iter().enumerate() {
        if is_conc(*b) { v |= ((*b & 0xff) as u128) << (8 * i); } else { all = false; break; }
    }
    if all { return Val::I(v); }
    if bs.iter().all(|b| *b == UNINIT) { return Val::Undef; }
    if bs.iter().any(|b| *b == UNINIT) { return Val::Part(Rc::new(bs.to_vec())); }
    // symbolic
    let b0 = bs[0];
    if b0 >> 63 == 1 && b0 & 0xff == 0 {
        let t = ((b0 & !(1 << 63)) >> 8) as T;
        if width(t) as usize == bs.len() * 8 && bs.iter().enumerate().all(|(i, b)| *b == symb(t, i as u32)) { return Val::S(t); }
    }
    let mut acc: Option<T> = None;
    for b in bs.iter() {
        let t = if is_conc(*b) { c((*b & 0xff) as u128, 8) } else {
            let t = ((*b & !(1 << 63)) >> 8) as T;
            let i = (*b & 0xff) as u32;
            extract(i * 8 + 7, i * 8, t)
        };
        acc = Some(match acc { None => t, Some(lo) => concat(t, lo) });
    }
    match acc {
        Some(t) => match cval(t) { Some(v) => Val::I(v), None => Val::S(t) },
        None => Val::I(0),
    }
}
pub fn store_bytes(o: &mut Obj, off: usize, n: usize, v: &Val) {
    match v {
        Val::I(x) => for i in 0..n { o.bytes[off + i] = conc((x >> (8 * i)) as u8); },
        Val::Undef => for i in 0..n { o.bytes[off + i] = UNINIT; },
        Val::S(t) => {
            let w = width(*t);
            let t = if (w as usize) < n * 8 { zext(*t, n as u32 * 8) } else { *t };
            for i in 0..n { o.bytes[off + i] = symb(t, i as u32); }
        }
        Val::Part(b) => for i in 0..n { o.bytes[off + i] = *b.get(i).unwrap_or(&UNINIT); },
        Val::Agg(_) => panic!("agg store"),
    }
}
