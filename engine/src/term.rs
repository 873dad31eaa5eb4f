//! Hash-consed bit-vector terms. Booleans are width-1 bit-vectors.
//! IEEE floats are carried as their bit patterns; float arithmetic is an `Fp` node.
use std::cell::UnsafeCell;
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FpOp {
    Add, Sub, Mul, Div, Rem, Sqrt, Fma,
    Floor, Ceil, Trunc, RoundAway, RoundEven,
    FromS(u32), FromU(u32), // from integer of width
    ToSSat(u32), ToUSat(u32), // saturating conversions, argument float width in .1
    Ext, Narrow,
    Lib(u32), // uninterpreted libm function, id
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    C(u128),
    Var(u32),
    Uf(u32, Box<[T]>),
    Fp(FpOp, u32, Box<[T]>), // op, argument width, args
    Not(T),
    Neg(T),
    Add(T, T), Mul(T, T), UDiv(T, T), SDiv(T, T), URem(T, T), SRem(T, T),
    And(T, T), Or(T, T), Xor(T, T), Shl(T, T), LShr(T, T), AShr(T, T),
    Concat(T, T),
    Extract(u32, u32, T),
    ZExt(T), SExt(T),
    Ite(T, T, T),
    Eq(T, T), Ult(T, T), Ule(T, T), Slt(T, T), Sle(T, T),
    /// equality that is never simplified (used for recorded obligations)
    RawEq(T, T),
}

pub struct Arena {
    pub nodes: Vec<(N, u32)>,
    pub map: HashMap<(N, u32), T>,
    pub nvars: u32,
    pub var_info: Vec<(u32, u32)>, // width, ordinal
    pub uf_info: Vec<(String, Vec<u32>, u32)>,
    pub lib_names: Vec<String>,
    pub nofold_fp: bool,
    pub umax: HashMap<T, u128>,
}

struct G(UnsafeCell<Option<Arena>>);
unsafe impl Sync for G {}
static ARENA: G = G(UnsafeCell::new(None));

#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
    unsafe {
        let o = &mut *ARENA.0.get();
        if o.is_none() {
            *o = Some(Arena { nodes: Vec::new(), map: HashMap::new(), nvars: 0, var_info: vec![], uf_info: vec![], lib_names: vec![], nofold_fp: false, umax: HashMap::new() });
        }
        o.as_mut().unwrap()
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 { return v as i128; }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

fn mk(n: N, w: u32) -> T {
    let a = ar();
    let key = (n, w);
    if let Some(t) = a.map.get(&key) {
        return *t;
    }
    let t = a.nodes.len() as T;
    a.nodes.push(key.clone());
    a.map.insert(key, t);
    t
}
pub fn node(t: T) -> &'static N { &ar().nodes[t as usize].0 }
pub fn width(t: T) -> u32 { ar().nodes[t as usize].1 }
pub fn cval(t: T) -> Option<u128> {
    match node(t) { N::C(v) => Some(*v), _ => None }
}
pub fn c(v: u128, w: u32) -> T { mk(N::C(v & mask(w)), w) }
pub fn tru() -> T { c(1, 1) }
pub fn fls() -> T { c(0, 1) }
pub fn var(w: u32) -> T {
    let a = ar();
    let id = a.nvars;
    a.nvars += 1;
    a.var_info.push((w, id));
    mk(N::Var(id), w)
}
pub fn var_id(id: u32, w: u32) -> T {
    let a = ar();
    while a.nvars <= id {
        a.nvars += 1;
        a.var_info.push((0, 0));
    }
    a.var_info[id as usize] = (w, id);
    mk(N::Var(id), w)
}
pub fn uf(name: &str, args: &[T], w: u32) -> T {
    let a = ar();
    let ws: Vec<u32> = args.iter().map(|t| width(*t)).collect();
    let id = match a.uf_info.iter().position(|u| u.0 == name) {
        Some(i) => i,
        None => {
            a.uf_info.push((name.to_string(), ws, w));
            a.uf_info.len() - 1
        }
    };
    mk(N::Uf(id as u32, args.into()), w)
}
pub fn lib_id(name: &str) -> u32 {
    let a = ar();
    match a.lib_names.iter().position(|u| u == name) {
        Some(i) => i as u32,
        None => {
            a.lib_names.push(name.to_string());
            a.lib_names.len() as u32 - 1
        }
    }
}

pub fn f32v(v: u128) -> f32 { f32::from_bits(v as u32) }
pub fn f64v(v: u128) -> f64 { f64::from_bits(v as u64) }

extern "C" {
    fn fmodf(a: f32, b: f32) -> f32;
    fn fmod(a: f64, b: f64) -> f64;
}

pub fn fp_const(op: FpOp, aw: u32, w: u32, a: &[u128]) -> Option<u128> {
    macro_rules! un { ($f:ident) => { if aw == 32 { f32v(a[0]).$f().to_bits() as u128 } else { f64v(a[0]).$f().to_bits() as u128 } } }
    macro_rules! bi { ($o:tt) => { if aw == 32 { (f32v(a[0]) $o f32v(a[1])).to_bits() as u128 } else { (f64v(a[0]) $o f64v(a[1])).to_bits() as u128 } } }
    Some(match op {
        FpOp::Add => bi!(+), FpOp::Sub => bi!(-), FpOp::Mul => bi!(*), FpOp::Div => bi!(/),
        FpOp::Rem => unsafe { if aw == 32 { fmodf(f32v(a[0]), f32v(a[1])).to_bits() as u128 } else { fmod(f64v(a[0]), f64v(a[1])).to_bits() as u128 } },
        FpOp::Sqrt => un!(sqrt), FpOp::Floor => un!(floor), FpOp::Ceil => un!(ceil), FpOp::Trunc => un!(trunc),
        FpOp::RoundAway => un!(round), FpOp::RoundEven => un!(round_ties_even),
        FpOp::Fma => if aw == 32 { f32v(a[0]).mul_add(f32v(a[1]), f32v(a[2])).to_bits() as u128 } else { f64v(a[0]).mul_add(f64v(a[1]), f64v(a[2])).to_bits() as u128 },
        FpOp::FromS(iw) => { let s = sx(a[0], iw); if w == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 } }
        FpOp::FromU(_) => { let s = a[0]; if w == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 } }
        FpOp::ToSSat(iw) => {
            let v = if aw == 32 { f32v(a[0]) as i128 } else { f64v(a[0]) as i128 };
            let mx = (mask(iw) >> 1) as i128; let mn = -mx - 1;
            (v.clamp(mn, mx) as u128) & mask(iw)
        }
        FpOp::ToUSat(iw) => {
            let v = if aw == 32 { f32v(a[0]) as u128 } else { f64v(a[0]) as u128 };
            v.min(mask(iw))
        }
        FpOp::Ext => (f32v(a[0]) as f64).to_bits() as u128,
        FpOp::Narrow => (f64v(a[0]) as f32).to_bits() as u128,
        FpOp::Lib(id) => return lib_const(&ar().lib_names[id as usize].clone(), aw, a),
    })
}

fn lib_const(name: &str, aw: u32, a: &[u128]) -> Option<u128> {
    macro_rules! un { ($f:ident) => { if aw == 32 { f32v(a[0]).$f().to_bits() as u128 } else { f64v(a[0]).$f().to_bits() as u128 } } }
    macro_rules! bi { ($f:ident) => { if aw == 32 { f32v(a[0]).$f(f32v(a[1])).to_bits() as u128 } else { f64v(a[0]).$f(f64v(a[1])).to_bits() as u128 } } }
    let base = name.trim_end_matches("_32").trim_end_matches("_64");
    Some(match base {
        "exp" => un!(exp), "exp2" => un!(exp2), "log" => un!(ln), "log2" => un!(log2), "log10" => un!(log10),
        "sin" => un!(sin), "cos" => un!(cos), "tan" => un!(tan), "sinh" => un!(sinh), "cosh" => un!(cosh), "tanh" => un!(tanh),
        "asin" => un!(asin), "acos" => un!(acos), "atan" => un!(atan), "asinh" => un!(asinh), "acosh" => un!(acosh), "atanh" => un!(atanh),
        "expm1" => un!(exp_m1), "log1p" => un!(ln_1p), "cbrt" => un!(cbrt),
        "pow" => bi!(powf), "atan2" => bi!(atan2), "hypot" => bi!(hypot),
        _ => return None,
    })
}

pub fn fp(op: FpOp, aw: u32, args: &[T], w: u32) -> T {
    let cs: Option<Vec<u128>> = args.iter().map(|t| cval(*t)).collect();
    if let Some(cs) = cs {
        if let Some(v) = fp_const(op, aw, w, &cs) {
            return c(v, w);
        }
    }
    // whole numbers within the exact range
    if args.len() == 1 && matches!(op, FpOp::Ext | FpOp::Narrow | FpOp::Floor | FpOp::Ceil | FpOp::Trunc | FpOp::RoundAway | FpOp::RoundEven | FpOp::ToUSat(_) | FpOp::ToSSat(_)) {
        if let Some(x) = as_uint(args[0]) {
            match op {
                FpOp::Ext => return from_int(x, false, w),
                FpOp::Narrow if umax(x) >> lim(w) == 0 => return from_int(x, false, w),
                FpOp::Narrow => {}
                FpOp::ToUSat(_) if umax(x) <= mask(w) => return if width(x) > w { extract(w - 1, 0, x) } else { zext(x, w) },
                FpOp::ToSSat(_) if umax(x) <= mask(w) >> 1 => return if width(x) > w { extract(w - 1, 0, x) } else { zext(x, w) },
                FpOp::ToUSat(_) | FpOp::ToSSat(_) => {}
                _ => return args[0],
            }
        }
    }
    // the quotient of whole numbers of half the exact width does not round up to the next whole number
    if args.len() == 1 && matches!(op, FpOp::Floor | FpOp::Trunc | FpOp::ToUSat(_)) {
        if let N::Fp(FpOp::Div, _, q) = node(args[0]) {
            if let (Some(x), Some(y)) = (as_uint(q[0]), as_uint(q[1])) {
                let half = lim(aw) / 2;
                if umax(x) >> half == 0 && cval(y).map_or(false, |v| v > 0 && v >> half == 0) {
                    let d = from_int(udiv(x, y), false, aw);
                    return if let FpOp::ToUSat(_) = op { fp(op, aw, &[d], w) } else { d };
                }
            }
        }
    }
    mk(N::Fp(op, aw, args.into()), w)
}

pub fn not(a: T) -> T {
    let w = width(a);
    if let Some(v) = cval(a) { return c(!v, w); }
    if let N::Not(x) = node(a) { return *x; }
    if w == 1 {
        match *node(a) {
            N::Ult(x, y) => return ule(y, x),
            N::Ule(x, y) => return ult(y, x),
            N::Slt(x, y) => return sle(y, x),
            N::Sle(x, y) => return slt(y, x),
            _ => {}
        }
    }
    mk(N::Not(a), w)
}
pub fn neg(a: T) -> T {
    let w = width(a);
    if let Some(v) = cval(a) { return c(v.wrapping_neg(), w); }
    mk(N::Neg(a), w)
}
pub fn add(a: T, b: T) -> T {
    let w = width(a);
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) => return c(x.wrapping_add(y), w),
        (Some(_), None) => return add(b, a),
        (None, Some(0)) => return a,
        (None, Some(y)) => {
            if let N::Add(p, q) = *node(a) {
                if let Some(z) = cval(q) { return add(p, c(z.wrapping_add(y), w)); }
            }
        }
        _ => {
            // pull constants out
            if let N::Add(p, q) = *node(a) {
                if cval(q).is_some() { return add(add(p, b), q); }
            }
            if let N::Add(p, q) = *node(b) {
                if cval(q).is_some() { return add(add(a, p), q); }
            }
            if let N::Neg(x) = *node(b) { if x == a { return c(0, w); } }
            if let N::Neg(x) = *node(a) { if x == b { return c(0, w); } }
            if a > b { return mk(N::Add(b, a), w); }
        }
    }
    mk(N::Add(a, b), w)
}
pub fn sub(a: T, b: T) -> T {
    let w = width(a);
    if a == b { return c(0, w); }
    if let Some(y) = cval(b) { return add(a, c(y.wrapping_neg(), w)); }
    if let N::Add(p, q) = *node(a) {
        if p == b { return q; }
        if q == b { return p; }
    }
    add(a, neg(b))
}
pub fn mul(a: T, b: T) -> T {
    let w = width(a);
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) => return c(x.wrapping_mul(y), w),
        (Some(_), None) => return mul(b, a),
        (None, Some(0)) => return c(0, w),
        (None, Some(1)) => return a,
        (None, Some(_)) => {}
        _ => if a > b { return mk(N::Mul(b, a), w); }
    }
    mk(N::Mul(a, b), w)
}
pub fn udiv(a: T, b: T) -> T {
    let w = width(a);
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) if y != 0 => c(x / y, w),
        (_, Some(1)) => a,
        _ => mk(N::UDiv(a, b), w),
    }
}
pub fn urem(a: T, b: T) -> T {
    let w = width(a);
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) if y != 0 => c(x % y, w),
        (_, Some(1)) => c(0, w),
        _ => mk(N::URem(a, b), w),
    }
}
pub fn sdiv(a: T, b: T) -> T {
    let w = width(a);
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) if y != 0 => c(sx(x, w).wrapping_div(sx(y, w)) as u128, w),
        (_, Some(1)) if w > 1 => a,
        _ => mk(N::SDiv(a, b), w),
    }
}
pub fn srem(a: T, b: T) -> T {
    let w = width(a);
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) if y != 0 => c(sx(x, w).wrapping_rem(sx(y, w)) as u128, w),
        _ => mk(N::SRem(a, b), w),
    }
}
pub fn and(a: T, b: T) -> T {
    let w = width(a);
    if a == b { return a; }
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) => return c(x & y, w),
        (Some(_), None) => return and(b, a),
        (None, Some(0)) => return c(0, w),
        (None, Some(y)) if y == mask(w) => return a,
        (None, None) => if a > b { return and(b, a); },
        _ => {}
    }
    if w == 1 {
        if let N::Not(x) = *node(b) { if x == a { return fls(); } }
        if let N::Not(x) = *node(a) { if x == b { return fls(); } }
    }
    mk(N::And(a, b), w)
}
pub fn or(a: T, b: T) -> T {
    let w = width(a);
    if a == b { return a; }
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) => return c(x | y, w),
        (Some(_), None) => return or(b, a),
        (None, Some(0)) => return a,
        (None, Some(y)) if y == mask(w) => return b,
        (None, None) => if a > b { return or(b, a); },
        _ => {}
    }
    if w == 1 {
        if let N::Not(x) = *node(b) { if x == a { return tru(); } }
        if let N::Not(x) = *node(a) { if x == b { return tru(); } }
    }
    mk(N::Or(a, b), w)
}
pub fn xor(a: T, b: T) -> T {
    let w = width(a);
    if a == b { return c(0, w); }
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) => return c(x ^ y, w),
        (Some(_), None) => return xor(b, a),
        (None, Some(0)) => return a,
        (None, Some(y)) if y == mask(w) => return not(a),
        (None, None) => if a > b { return xor(b, a); },
        _ => {}
    }
    mk(N::Xor(a, b), w)
}
pub fn shl(a: T, b: T) -> T {
    let w = width(a);
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) => c(if y >= w as u128 { 0 } else { x << y }, w),
        (_, Some(0)) => a,
        _ => mk(N::Shl(a, b), w),
    }
}
pub fn lshr(a: T, b: T) -> T {
    let w = width(a);
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) => c(if y >= w as u128 { 0 } else { x >> y }, w),
        (_, Some(0)) => a,
        _ => mk(N::LShr(a, b), w),
    }
}
pub fn ashr(a: T, b: T) -> T {
    let w = width(a);
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) => { let s = y.min(w as u128 - 1) as u32; c((sx(x, w) >> s) as u128, w) }
        (_, Some(0)) => a,
        _ => mk(N::AShr(a, b), w),
    }
}
pub fn concat(hi: T, lo: T) -> T {
    let (wh, wl) = (width(hi), width(lo));
    let w = wh + wl;
    if let (Some(x), Some(y)) = (cval(hi), cval(lo)) { return c((x << wl) | y, w); }
    if let (N::Extract(h1, l1, x), N::Extract(h2, l2, y)) = (node(hi), node(lo)) {
        if x == y && *l1 == *h2 + 1 { return extract(*h1, *l2, *x); }
    }
    if cval(hi) == Some(0) { return zext(lo, w); }
    // extract over the low part of same base when lo is the whole
    mk(N::Concat(hi, lo), w)
}
pub fn extract(hi: u32, lo: u32, a: T) -> T {
    let w = width(a);
    if lo == 0 && hi + 1 == w { return a; }
    let nw = hi - lo + 1;
    match *node(a) {
        N::C(v) => return c(v >> lo, nw),
        N::Extract(_, l, x) => return extract(hi + l, lo + l, x),
        N::ZExt(x) => {
            let wx = width(x);
            if hi < wx { return extract(hi, lo, x); }
            if lo >= wx { return c(0, nw); }
            if lo == 0 { return zext(x, nw); }
        }
        N::SExt(x) => { let wx = width(x); if hi < wx { return extract(hi, lo, x); } }
        N::Concat(h, l) => {
            let wl = width(l);
            if hi < wl { return extract(hi, lo, l); }
            if lo >= wl { return extract(hi - wl, lo - wl, h); }
        }
        N::And(x, y) if cval(y).is_some() => return and(extract(hi, lo, x), extract(hi, lo, y)),
        _ => {}
    }
    mk(N::Extract(hi, lo, a), nw)
}
pub fn zext(a: T, w: u32) -> T {
    let wa = width(a);
    if wa == w { return a; }
    match *node(a) {
        N::C(v) => c(v, w),
        N::ZExt(x) => zext(x, w),
        _ => mk(N::ZExt(a), w),
    }
}
pub fn sext(a: T, w: u32) -> T {
    let wa = width(a);
    if wa == w { return a; }
    match *node(a) {
        N::C(v) => c(sx(v, wa) as u128, w),
        N::ZExt(x) => zext(x, w),
        N::SExt(x) => sext(x, w),
        _ => mk(N::SExt(a), w),
    }
}
pub fn ite(k: T, a: T, b: T) -> T {
    if let Some(v) = cval(k) { return if v == 1 { a } else { b }; }
    if a == b { return a; }
    let w = width(a);
    if w == 1 {
        match (cval(a), cval(b)) {
            (Some(1), Some(0)) => return k,
            (Some(0), Some(1)) => return not(k),
            (Some(1), _) => return or(k, b),
            (Some(0), _) => return and(not(k), b),
            (_, Some(0)) => return and(k, a),
            (_, Some(1)) => return or(not(k), a),
            _ => {}
        }
    }
    if let Some((x, y)) = both_uint(a, b) { return from_int(ite(k, x, y), false, w); }
    mk(N::Ite(k, a, b), w)
}
pub fn eq(a: T, b: T) -> T {
    if a == b { return tru(); }
    if let Some((x, y)) = both_uint(a, b) { return eq(x, y); }
    let w = width(a);
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) => return c((x == y) as u128, 1),
        (Some(_), None) => return eq(b, a),
        (None, Some(y)) => {
            if w == 1 { return if y == 1 { a } else { not(a) }; }
            match *node(a) {
                N::ZExt(x) => {
                    let wx = width(x);
                    if y > mask(wx) { return fls(); }
                    return eq(x, c(y, wx));
                }
                N::Add(p, q) => if let Some(z) = cval(q) { return eq(p, c(y.wrapping_sub(z), w)); },
                N::Ite(k, p, q) => {
                    match (cval(p), cval(q)) {
                        (Some(u), Some(v)) => {
                            return match (u == y, v == y) { (true, true) => tru(), (true, false) => k, (false, true) => not(k), _ => fls() };
                        }
                        (Some(u), None) if u != y => return and(not(k), eq(q, b)),
                        (None, Some(v)) if v != y => return and(k, eq(p, b)),
                        _ => {}
                    }
                }
                N::Xor(p, q) => if let Some(z) = cval(q) { return eq(p, c(y ^ z, w)); },
                _ => {}
            }
        }
        _ => if a > b { return mk(N::Eq(b, a), 1); }
    }
    mk(N::Eq(a, b), 1)
}
pub fn raw_eq(a: T, b: T) -> T {
    if let Some((x, y)) = both_uint(a, b) { return mk(N::RawEq(x, y), 1); }
    mk(N::RawEq(a, b), 1)
}
/// two exact small-integer floats, as integers of one width
fn both_uint(a: T, b: T) -> Option<(T, T)> {
    let w = width(a);
    if w != 32 && w != 64 { return None; }
    if !matches!(node(a), N::Fp(FpOp::FromU(_), ..)) && !matches!(node(b), N::Fp(FpOp::FromU(_), ..)) { return None; }
    let (x, y) = (as_uint(a)?, as_uint(b)?);
    let nw = width(x).max(width(y));
    Some((zext(x, nw), zext(y, nw)))
}
pub fn ne(a: T, b: T) -> T { not(eq(a, b)) }
pub fn ult(a: T, b: T) -> T {
    if a == b { return fls(); }
    let w = width(a);
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) => return c((x < y) as u128, 1),
        (None, Some(0)) => return fls(),
        (None, Some(1)) => return eq(a, c(0, w)),
        (Some(x), None) if x == mask(w) => return fls(),
        (Some(0), None) => return ne(b, c(0, w)),
        (None, Some(y)) => if let N::ZExt(x) = *node(a) {
            let wx = width(x);
            if y > mask(wx) { return tru(); }
            return ult(x, c(y, wx));
        },
        _ => {}
    }
    mk(N::Ult(a, b), 1)
}
pub fn ule(a: T, b: T) -> T {
    if a == b { return tru(); }
    let w = width(a);
    match (cval(a), cval(b)) {
        (Some(x), Some(y)) => return c((x <= y) as u128, 1),
        (Some(0), _) => return tru(),
        (_, Some(y)) if y == mask(w) => return tru(),
        (None, Some(0)) => return eq(a, b),
        (None, Some(y)) => if let N::ZExt(x) = *node(a) {
            let wx = width(x);
            if y >= mask(wx) { return tru(); }
            return ule(x, c(y, wx));
        },
        _ => {}
    }
    mk(N::Ule(a, b), 1)
}
pub fn slt(a: T, b: T) -> T {
    if a == b { return fls(); }
    let w = width(a);
    if let (Some(x), Some(y)) = (cval(a), cval(b)) { return c((sx(x, w) < sx(y, w)) as u128, 1); }
    mk(N::Slt(a, b), 1)
}
pub fn sle(a: T, b: T) -> T {
    if a == b { return tru(); }
    let w = width(a);
    if let (Some(x), Some(y)) = (cval(a), cval(b)) { return c((sx(x, w) <= sx(y, w)) as u128, 1); }
    mk(N::Sle(a, b), 1)
}

// ---- float predicates, exact, on bit patterns
fn f_man(w: u32) -> u32 { if w == 32 { 23 } else { 52 } }
pub fn f_inf_bits(w: u32) -> u128 { if w == 32 { 0x7f800000 } else { 0x7ff0000000000000 } }
pub fn f_isnan(a: T) -> T {
    let w = width(a);
    if let N::Fp(FpOp::FromU(_) | FpOp::FromS(_), ..) = node(a) { return fls(); }
    let mag = and(a, c(mask(w) >> 1, w));
    ult(c(f_inf_bits(w), w), mag)
}
pub fn f_abs(a: T) -> T { let w = width(a); and(a, c(mask(w) >> 1, w)) }
pub fn f_neg(a: T) -> T { let w = width(a); xor(a, c(1u128 << (w - 1), w)) }
pub fn f_iszero(a: T) -> T { let w = width(a); eq(f_abs(a), c(0, w)) }
/// a < b for non-NaN
fn f_lt_raw(a: T, b: T) -> T {
    let w = width(a);
    // order key: if sign { !x } else { x | signbit } compares unsigned, but +0/-0 must be equal
    let key = |x: T| {
        let sgn = extract(w - 1, w - 1, x);
        let k = ite(sgn, not(x), or(x, c(1u128 << (w - 1), w)));
        // normalise -0 to +0
        ite(eq(f_abs(x), c(0, w)), c(1u128 << (w - 1), w), k)
    };
    ult(key(a), key(b))
}
pub fn f_olt(a: T, b: T) -> T {
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        let r = if width(a) == 32 { f32v(x) < f32v(y) } else { f64v(x) < f64v(y) };
        return c(r as u128, 1);
    }
    if let Some((x, y)) = both_uint(a, b) {
        if umin(x) >= umax(y) || lin_sub(x, y).is_some() { return fls(); }
        if cval(y).map_or(false, |v| umax(x) < v) { return tru(); }
        if let Some(d) = lin_sub(y, x) { if let N::Add(_, k) = *node(d) { if cval(k).map_or(false, |v| v > 0) { return tru(); } } }
        return ult(x, y);
    }
    and(and(not(f_isnan(a)), not(f_isnan(b))), f_lt_raw(a, b))
}
pub fn f_oeq(a: T, b: T) -> T {
    if let (Some(x), Some(y)) = (cval(a), cval(b)) {
        let r = if width(a) == 32 { f32v(x) == f32v(y) } else { f64v(x) == f64v(y) };
        return c(r as u128, 1);
    }
    if let Some((x, y)) = both_uint(a, b) { return eq(x, y); }
    and(and(not(f_isnan(a)), not(f_isnan(b))), or(eq(a, b), and(f_iszero(a), f_iszero(b))))
}
#[allow(dead_code)]
pub fn f_mant(w: u32) -> u32 { f_man(w) }

// ---- evaluation under an assignment
pub struct Model {
    pub vars: HashMap<u32, u128>,
    pub ufs: HashMap<(u32, Vec<u128>), u128>,
}
pub fn eval(t: T, m: &Model, memo: &mut HashMap<T, Option<u128>>) -> Option<u128> {
    if let N::C(v) = node(t) { return Some(*v); }
    if let Some(v) = memo.get(&t) { return *v; }
    let w = width(t);
    let r = (|| -> Option<u128> {
        let mut e = |x: T| eval(x, m, memo);
        Some(match node(t) {
            N::C(v) => *v,
            N::Var(id) => *m.vars.get(id).unwrap_or(&0),
            N::Uf(id, args) => {
                let mut v = Vec::new();
                for a in args.iter() { v.push(e(*a)?); }
                *m.ufs.get(&(*id, v))?
            }
            N::Fp(op, aw, args) => {
                let mut v = Vec::new();
                for a in args.iter() { v.push(e(*a)?); }
                fp_const(*op, *aw, w, &v)?
            }
            N::Not(a) => !e(*a)? & mask(w),
            N::Neg(a) => e(*a)?.wrapping_neg() & mask(w),
            N::Add(a, b) => e(*a)?.wrapping_add(e(*b)?) & mask(w),
            N::Mul(a, b) => e(*a)?.wrapping_mul(e(*b)?) & mask(w),
            N::UDiv(a, b) => { let y = e(*b)?; if y == 0 { mask(w) } else { e(*a)? / y } }
            N::URem(a, b) => { let y = e(*b)?; let x = e(*a)?; if y == 0 { x } else { x % y } }
            N::SDiv(a, b) => { let y = sx(e(*b)?, w); let x = sx(e(*a)?, w); if y == 0 { (if x < 0 { 1 } else { mask(w) }) } else { x.wrapping_div(y) as u128 & mask(w) } }
            N::SRem(a, b) => { let y = sx(e(*b)?, w); let x = sx(e(*a)?, w); if y == 0 { x as u128 & mask(w) } else { x.wrapping_rem(y) as u128 & mask(w) } }
            N::And(a, b) => e(*a)? & e(*b)?,
            N::Or(a, b) => e(*a)? | e(*b)?,
            N::Xor(a, b) => e(*a)? ^ e(*b)?,
            N::Shl(a, b) => { let y = e(*b)?; if y >= w as u128 { 0 } else { (e(*a)? << y) & mask(w) } }
            N::LShr(a, b) => { let y = e(*b)?; if y >= w as u128 { 0 } else { e(*a)? >> y } }
            N::AShr(a, b) => { let y = e(*b)?.min(w as u128 - 1); ((sx(e(*a)?, w) >> y) as u128) & mask(w) }
            N::Concat(a, b) => (e(*a)? << width(*b)) | e(*b)?,
            N::Extract(_, lo, a) => (e(*a)? >> lo) & mask(w),
            N::ZExt(a) => e(*a)?,
            N::SExt(a) => (sx(e(*a)?, width(*a)) as u128) & mask(w),
            N::Ite(k, a, b) => if e(*k)? == 1 { e(*a)? } else { e(*b)? },
            N::Eq(a, b) | N::RawEq(a, b) => (e(*a)? == e(*b)?) as u128,
            N::Ult(a, b) => (e(*a)? < e(*b)?) as u128,
            N::Ule(a, b) => (e(*a)? <= e(*b)?) as u128,
            N::Slt(a, b) => (sx(e(*a)?, width(*a)) < sx(e(*b)?, width(*b))) as u128,
            N::Sle(a, b) => (sx(e(*a)?, width(*a)) <= sx(e(*b)?, width(*b))) as u128,
        })
    })();
    memo.insert(t, r);
    r
}

pub fn children(t: T) -> Vec<T> {
    match node(t) {
        N::C(_) | N::Var(_) => vec![],
        N::Uf(_, a) => a.to_vec(),
        N::Fp(_, _, a) => a.to_vec(),
        N::Not(a) | N::Neg(a) | N::Extract(_, _, a) | N::ZExt(a) | N::SExt(a) => vec![*a],
        N::Add(a, b) | N::Mul(a, b) | N::UDiv(a, b) | N::SDiv(a, b) | N::URem(a, b) | N::SRem(a, b) | N::And(a, b) | N::Or(a, b)
        | N::Xor(a, b) | N::Shl(a, b) | N::LShr(a, b) | N::AShr(a, b) | N::Concat(a, b) | N::Eq(a, b) | N::RawEq(a, b) | N::Ult(a, b)
        | N::Ule(a, b) | N::Slt(a, b) | N::Sle(a, b) => vec![*a, *b],
        N::Ite(a, b, k) => vec![*a, *b, *k],
    }
}

/// an upper bound on the number of significant bits of an unsigned value
pub fn ubits(t: T) -> u32 { ubits_to(t, 8) }
fn ubits_to(t: T, d: u32) -> u32 {
    let w = width(t);
    if d == 0 { return w; }
    let ubits = |t: T| ubits_to(t, d - 1);
    match *node(t) {
        N::C(v) => 128 - v.leading_zeros(),
        N::ZExt(a) => ubits(a),
        N::And(a, b) => ubits(a).min(ubits(b)),
        N::Or(a, b) | N::Xor(a, b) => ubits(a).max(ubits(b)),
        N::Ite(_, a, b) => ubits(a).max(ubits(b)),
        N::Add(a, b) => w.min(ubits(a).max(ubits(b)).saturating_add(1)),
        N::Mul(a, b) => w.min(ubits(a).saturating_add(ubits(b))),
        N::UDiv(a, b) if cval(b).map_or(false, |v| v != 0) => ubits(a),
        N::URem(a, b) if cval(b).map_or(false, |v| v != 0) => ubits(a).min(ubits(b)),
        N::Concat(a, b) => { let h = ubits(a); if h == 0 { ubits(b) } else { h + width(b) } }
        _ => w,
    }
}

/// conjunction that keeps raw equalities visible to the solver
pub fn and_raw(a: T, b: T) -> T {
    if cval(a) == Some(1) { return b; }
    if cval(b) == Some(1) { return a; }
    mk(N::And(a, b), 1)
}

// ---- exact small-integer float arithmetic
// An f32 (f64) holding a non-negative integer below 2^24 (2^53) is exact; sums and products that stay below
// that bound are exact as well, whatever the association order.  FromU nodes carry such values.
fn lim(w: u32) -> u32 { if w == 32 { 24 } else { 53 } }
/// upper bound of the unsigned value
pub fn umax(t: T) -> u128 {
    let w = width(t);
    let m = mask(w);
    if let Some(v) = ar().umax.get(&t) { return *v; }
    let r = match *node(t) {
        N::C(v) => v,
        N::ZExt(a) => umax(a),
        N::Extract(_, 0, a) => umax(a).min(m),
        N::UDiv(a, b) if cval(b).map_or(false, |v| v != 0) => umax(a) / cval(b).unwrap(),
        N::And(a, b) => umax(a).min(umax(b)),
        N::Ite(_, a, b) => umax(a).max(umax(b)),
        N::Add(a, b) => umax(a).checked_add(umax(b)).map_or(m, |v| v.min(m)),
        N::Mul(a, b) => umax(a).checked_mul(umax(b)).map_or(m, |v| v.min(m)),
        _ => m,
    };
    ar().umax.insert(t, r);
    r
}
/// lower bound of the unsigned value
pub fn umin(t: T) -> u128 { umin_to(t, 12) }
fn umin_to(t: T, d: u32) -> u128 {
    if d == 0 { return 0; }
    match *node(t) {
        N::C(v) => v,
        N::ZExt(a) => umin_to(a, d - 1),
        N::Extract(_, 0, a) if umax(a) <= mask(width(t)) => umin_to(a, d - 1),
        N::Ite(_, a, b) => umin_to(a, d - 1).min(umin_to(b, d - 1)),
        N::Add(a, b) if umax(a).checked_add(umax(b)).map_or(false, |v| v <= mask(width(t))) => umin_to(a, d - 1) + umin_to(b, d - 1),
        _ => 0,
    }
}
/// the integer (lim(w) bits wide) a float term is known to equal
fn as_uint(t: T) -> Option<T> {
    let w = width(t);
    match node(t) {
        N::Fp(FpOp::FromU(iw), _, a) if *iw <= lim(w) => Some(zext(a[0], lim(w))),
        N::C(v) => {
            let f = if w == 32 { f32v(*v) as f64 } else { f64v(*v) };
            if (*v >> (w - 1)) == 0 && f >= 0.0 && f.fract() == 0.0 && f < (1u64 << lim(w)) as f64 { Some(c(f as u128, lim(w))) } else { None }
        }
        _ => None,
    }
}
pub fn from_int(t: T, signed: bool, w: u32) -> T {
    let iw = width(t);
    if let Some(v) = cval(t) {
        return c(fp_const(if signed { FpOp::FromS(iw) } else { FpOp::FromU(iw) }, iw, w, &[v]).unwrap(), w);
    }
    if let N::ZExt(x) = *node(t) {
        if width(x) >= lim(w) { return from_int(x, false, w); }
    }
    if signed && umax(t) >> (iw - 1) != 0 { return fp(FpOp::FromS(iw), iw, &[t], w); }
    // canonical argument width, so that congruence sees equal integers
    let l = lim(w);
    if umax(t) >> l == 0 {
        let z = if iw < l { zext(t, l) } else { extract(l - 1, 0, t) };
        return fp(FpOp::FromU(l), l, &[z], w);
    }
    fp(FpOp::FromU(iw), iw, &[t], w)
}
pub fn fp2(op: FpOp, w: u32, a: T, b: T) -> T {
    // a + (-c) is a - c
    if op == FpOp::Add && cval(a).is_none() {
        if let Some(v) = cval(b) {
            let n = v ^ (1 << (w - 1));
            if v >> (w - 1) == 1 && as_uint(c(n, w)).is_some() && n != 0 { return fp2(FpOp::Sub, w, a, c(n, w)); }
        }
    }
    if cval(a).is_none() || cval(b).is_none() {
        if let (Some(x), Some(y)) = (as_uint(a), as_uint(b)) {
            match op {
                FpOp::Add if (umax(x) + umax(y)) >> lim(w) == 0 => return from_int(add(x, y), false, w),
                FpOp::Mul if (umax(x) * umax(y)) >> lim(w) == 0 => return from_int(mul(x, y), false, w),
                FpOp::Sub => if let Some(d) = lin_sub(x, y) { return from_int(d, false, w); },
                FpOp::Div => if let Some(d) = lin_div(x, y) { return from_int(d, false, w); },
                _ => {}
            }
        }
    }
    // IEEE addition and multiplication commute (up to the payload of a NaN, which rustc does not define)
    if matches!(op, FpOp::Add | FpOp::Mul) && b < a {
        return fp(op, w, &[b, a], w);
    }
    fp(op, w, &[a, b], w)
}

// ---- linear forms over the integers (no term below wraps around), to subtract and divide exactly
type Lin = std::collections::BTreeMap<T, u128>;
fn lin_into(t: T, k: u128, l: &mut Lin, k0: &mut u128, fuel: &mut u32) -> Option<()> {
    if *fuel == 0 { return None; }
    *fuel -= 1;
    let m = mask(width(t));
    match *node(t) {
        N::C(v) => { *k0 = k0.checked_add(v.checked_mul(k)?)?; }
        N::ZExt(a) => return lin_into(a, k, l, k0, fuel),
        N::Extract(_, 0, a) if umax(a) <= m => return lin_into(a, k, l, k0, fuel),
        N::Add(a, b) if umax(a).checked_add(umax(b)).map_or(false, |v| v <= m) => { lin_into(a, k, l, k0, fuel)?; return lin_into(b, k, l, k0, fuel); }
        N::Mul(a, b) if cval(b).is_some() && umax(a).checked_mul(umax(b)).map_or(false, |v| v <= m) => return lin_into(a, k.checked_mul(cval(b)?)?, l, k0, fuel),
        _ => { let e = l.entry(t).or_insert(0); *e = e.checked_add(k)?; }
    }
    Some(())
}
fn lin_build(l: &Lin, k0: u128, w: u32) -> Option<T> {
    let mut r = c(k0, w);
    let mut top = k0;
    for (t, k) in l {
        if *k == 0 { continue; }
        top = top.checked_add(umax(*t).checked_mul(*k)?)?;
        let x = if width(*t) > w { extract(w - 1, 0, *t) } else { zext(*t, w) };
        r = add(r, mul(x, c(*k, w)));
    }
    if top > mask(w) { None } else { Some(r) }
}
/// x - y when that is plainly not negative
fn lin_sub(x: T, y: T) -> Option<T> {
    let (mut a, mut b, mut ka, mut kb, mut fuel) = (Lin::new(), Lin::new(), 0, 0, 200);
    lin_into(x, 1, &mut a, &mut ka, &mut fuel)?;
    lin_into(y, 1, &mut b, &mut kb, &mut fuel)?;
    for (t, k) in b { let e = a.get_mut(&t)?; *e = e.checked_sub(k)?; }
    lin_build(&a, ka.checked_sub(kb)?, width(x))
}
/// x / y when y is a constant that plainly divides x
fn lin_div(x: T, y: T) -> Option<T> {
    let y = cval(y)?;
    if y == 0 { return None; }
    let (mut a, mut ka, mut fuel) = (Lin::new(), 0, 200);
    lin_into(x, 1, &mut a, &mut ka, &mut fuel)?;
    if ka % y != 0 { return None; }
    for k in a.values_mut() { if *k % y != 0 { return None; } *k /= y; }
    lin_build(&a, ka / y, width(x))
}
