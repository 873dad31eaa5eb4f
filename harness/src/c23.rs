//! C23: pseudo-random numbers
use crate::rt::*;
use crate::*;
use essay_tensor::init::{random_normal, random_uniform, Normal, Uniform};
use essay_tensor::random::{random_seed, Rand32, Rand64};
use essay_tensor::tensor::Tensor;

// the published generator: https://nullprogram.com/blog/2019/11/19/
const A32: u64 = 0x4822581B885237D5;
const C32: u64 = 0x6ED29E641A5F9CE5;
const M32: u32 = 0x8A53002D;
const A64: u128 = 0xACAEAEFB4BF4A6A78B6E278B66409E7D;
const C64: u128 = 0x351402A3544A25016AEE39FBBADBB38D;
const M64: u64 = 0xA18E4C689403AE2D;
fn next32(s: &mut u64) -> u32 { *s = s.wrapping_mul(A32).wrapping_add(C32); let r = (*s >> 32) as u32; (r ^ (r >> 16)).wrapping_mul(M32) }
fn next64(s: &mut u128) -> u64 { *s = s.wrapping_mul(A64).wrapping_add(C64); let r = (*s >> 32) as u64; (r ^ (r >> 32)).wrapping_mul(M64) }
fn eqf(a: f32, b: f32, id: u64) { check((a == b) | (a.is_nan() & b.is_nan()) | (a.to_bits() == b.to_bits()), id) }
const SHAPES: &[&[usize]] = &[&[], &[1], &[4], &[0], &[2, 2], &[1, 3], &[3, 2, 2], &[2, 1, 1, 2]];
fn s128() -> u128 { (u64s() as u128) << 64 | u64s() as u128 }

/// the inverse of an odd number modulo 2^128
fn inv(a: u128) -> u128 { let mut x = a; for _ in 0..7 { x = x.wrapping_mul(2u128.wrapping_sub(a.wrapping_mul(x))); } x }

harnesses! {
/// every state: the published recurrence, step by step; a copy of the state gives the same sequence
fn h_c23_next() {
    if pick(0, 1) == 0 {
        let s = u64s();
        let (mut r, mut m) = (Rand32(s), s);
        for _ in 0..3 { ckeq!(r.next(), next32(&mut m)); ckeq!(r.0, m); }
    } else {
        let s = s128();
        let (mut r, mut m) = (Rand64(s), s);
        for _ in 0..3 { ckeq!(r.next(), next64(&mut m)); ckeq!(r.0 as u64, m as u64); ckeq!((r.0 >> 64) as u64, (m >> 64) as u64); }
    }
    reach(1);
}
/// every state: a uniform number lies in 0..=1, takes one step and is monotone in the raw output
fn h_c23_uniform() {
    if pick(0, 1) == 0 {
        let s = u64s();
        let mut r = Rand32(s);
        let u = r.next_uniform();
        let mut m = s;
        let x = next32(&mut m);
        ckeq!(r.0, m);
        ck!((u >= 0.) & (u <= 1.));
        eqf(u, x as f32 / u32::MAX as f32, line!() as u64);
    } else {
        let s = s128();
        let mut r = Rand64(s);
        let u = r.next_uniform();
        let mut m = s;
        let x = next64(&mut m);
        ckeq!(r.0 as u64, m as u64);
        ck!((u >= 0.) & (u <= 1.));
        ck!(u == x as f64 / u64::MAX as f64);
    }
    reach(1);
}
/// every state: a normal number is the Box-Muller transform of two uniform ones, the first kept above zero
fn h_c23_normal() {
    if pick(0, 1) == 0 {
        let s = u64s();
        let mut m = Rand32(s);
        let (a, b) = (m.next_uniform(), m.next_uniform());
        // shown for every state by h_c23_uniform
        assume((a >= 0.) & (a <= 1.) & (b >= 0.) & (b <= 1.));
        let mut r = Rand32(s);
        let x = r.next_normal();
        ckeq!(r.0, m.0);
        let e = (-2. * a.max(f32::MIN_POSITIVE).ln()).sqrt() * (std::f32::consts::TAU * b).cos();
        ckeq!(x.to_bits(), e.to_bits());
    } else {
        let s = s128();
        let mut m = Rand64(s);
        let (a, b) = (m.next_uniform(), m.next_uniform());
        assume((a >= 0.) & (a <= 1.) & (b >= 0.) & (b <= 1.));
        let mut r = Rand64(s);
        let x = r.next_normal();
        ckeq!(r.0 as u64, m.0 as u64);
        let e = (-2. * a.max(f64::MIN_POSITIVE).ln()).sqrt() * (std::f64::consts::TAU * b).cos();
        ckeq!(x.to_bits(), e.to_bits());
    }
    reach(1);
}
/// the transform is finite for every pair of numbers it can be given, by what libm guarantees of ln and cos there
fn h_c23_normal_finite() {
    let (l, c) = (f32s(), f32s());
    assume((l <= 0.) & (l >= -88.) & (c >= -1.) & (c <= 1.));
    ck!(((-2. * l).sqrt() * c).is_finite());
    if tier() > 0 {
        let (l, c) = (f64s(), f64s());
        assume((l <= 0.) & (l >= -709.) & (c >= -1.) & (c <= 1.));
        ck!(((-2. * l).sqrt() * c).is_finite());
    }
    reach(1);
}
/// the states whose next raw outputs are the extreme ones
fn h_c23_normal_edge() {
    let raw = [0, 1, 2, u64::MAX, u64::MAX - 1, 1 << 31, 1 << 63][pick(0, 6)];
    let low = [0, u32::MAX as u64, 12345][pick(0, 2)];
    let back = pick(0, 1);
    if pick(0, 1) == 0 {
        let y = (raw as u32).wrapping_mul(inv(M32 as u128) as u32);
        let y = y ^ (y >> 16);
        let mut s = (y as u64) << 32 | low;
        for _ in 0..=back { s = s.wrapping_sub(C32).wrapping_mul(inv(A32 as u128) as u64); }
        let mut r = Rand32(s);
        if back == 1 { let mut q = Rand32(s); q.next(); ckeq!(q.next(), raw as u32); } else { let mut q = Rand32(s); ckeq!(q.next(), raw as u32); }
        let x = r.next_normal();
        ck!(x.is_finite() && x.abs() < 14.);
    } else {
        let y = raw.wrapping_mul(inv(M64 as u128) as u64);
        let y = y ^ (y >> 32);
        let mut s = (y as u128) << 32 | low as u128;
        for _ in 0..=back { s = s.wrapping_sub(C64).wrapping_mul(inv(A64)); }
        let mut r = Rand64(s);
        if back == 1 { let mut q = Rand64(s); q.next(); ckeq!(q.next(), raw); } else { let mut q = Rand64(s); ckeq!(q.next(), raw); }
        let x = r.next_normal();
        ck!(x.is_finite() && x.abs() < 38.);
    }
    reach(1);
}
/// a text seed: every byte counts, in order
fn h_c23_text() {
    // up to five characters, each of one to four bytes (every character of that length but for the surrogate and topmost blocks)
    let mut b: Vec<u8> = Vec::new();
    let n = pick(0, 5);
    let long = if n == 0 { 0 } else { pick(0, n) };
    let len = pick(2, 4);
    for k in 0..n {
        if k + 1 != long { b.push(bits(7) as u8); continue; }
        match len {
            2 => b.push(0xc2 | bits(5) as u8),
            3 => { b.push(0xe1 | (bits(4) as u8 & 0xe)); assume(b[b.len() - 1] != 0xed); b.push(0x80 | bits(6) as u8) }
            _ => { b.push(0xf1 + bits(1) as u8); b.push(0x80 | bits(6) as u8); b.push(0x80 | bits(6) as u8) }
        }
        b.push(0x80 | bits(6) as u8);
    }
    let t = unsafe { std::str::from_utf8_unchecked(&b) };
    let (mut s, mut l) = (0u64, 0u128);
    for x in b.iter() {
        s = s.wrapping_mul(A32).wrapping_add(C32).wrapping_add(*x as u64);
        l = l.wrapping_mul(A64).wrapping_add(C64).wrapping_add(*x as u128);
    }
    ckeq!(Rand32::from(t).0, s);
    let r = Rand64::from(t).0;
    ckeq!(r as u64, l as u64);
    ckeq!((r >> 64) as u64, (l >> 64) as u64);
    reach(1);
}
/// mean + p * std, p the successive normal numbers of the seed in row-major order, whatever the shape
fn h_c23_tensor_normal() {
    let d = SHAPES[pick(0, SHAPES.len() - 1)];
    let (s, m, w) = (u64s(), f32s(), f32s());
    let (o, m, w) = match pick(0, 9) {
        0 => (Normal::seed(s), 0., 1.),
        1 => (Normal::seed(s).with_mean(m), m, 1.),
        2 => (Normal::seed(s).with_std(w), 0., w),
        3 => (Normal::seed(s).with_mean(m).with_std(w), m, w),
        4 => (Normal::seed(s).with_std(w).with_mean(m), m, w),
        5 => (Normal::mean(m).with_std(w).with_seed(s), m, w),
        6 => (Normal::std(w).with_seed(s).with_mean(m), m, w),
        7 => (Normal::from((m, w)).with_seed(s), m, w),
        8 => (Normal::from(Some(s)), 0., 1.),
        _ => (Normal::default().with_seed(s), 0., 1.),
    };
    let t = if pick(0, 1) == 0 { random_normal(d, o) } else { Tensor::random_normal(d, o) };
    same_shape(&t, d, line!() as u64);
    let mut r = Rand32(s);
    let mut i = 0;
    while i < prod(d) { let p = r.next_normal(); ckeq!(t.as_slice()[i].to_bits(), (m + p * w).to_bits()); i += 1; }
    reach(1);
}
/// min + p * (max - min), p depending on the seed and the position alone; never a negative width
fn h_c23_tensor_uniform() {
    let d = SHAPES[pick(0, SHAPES.len() - 1)];
    let (s, lo, hi) = (u64s(), f32s(), f32s());
    let (o, lo, hi) = match pick(0, 9) {
        0 => (Uniform::seed(s), 0., 1.),
        1 => (Uniform::seed(s).with_min(lo), lo, 1.),
        2 => (Uniform::seed(s).with_max(hi), 0., hi),
        3 => (Uniform::seed(s).with_min(lo).with_max(hi), lo, hi),
        4 => (Uniform::seed(s).with_max(hi).with_min(lo), lo, hi),
        5 => (Uniform::min(lo).with_max(hi).with_seed(s), lo, hi),
        6 => (Uniform::max(hi).with_seed(s).with_min(lo), lo, hi),
        7 => (Uniform::from((lo, hi)).with_seed(s), lo, hi),
        8 => (Uniform::from(Some(s)), 0., 1.),
        _ => (Uniform::default().with_seed(s), 0., 1.),
    };
    let t = if pick(0, 1) == 0 { random_uniform(d, o) } else { Tensor::random_uniform(d, o) };
    same_shape(&t, d, line!() as u64);
    let (mut r, mut q) = (Rand32(s), Rand32(s));
    let (mut norm, mut unif) = (true, true);
    let w = (hi - lo).max(0.);
    let mut i = 0;
    while i < prod(d) {
        let x = t.as_slice()[i].to_bits();
        norm &= x == (lo + r.next_normal() * w).to_bits();
        unif &= x == (lo + q.next_uniform() * w).to_bits();
        i += 1;
    }
    ck!(norm | unif);
    reach(1);
}
/// uniform numbers lie between min and max
fn h_c23_uniform_range() {
    let t = random_uniform([4], Uniform::seed(100));
    for x in t.iter() { check(*x >= 0. && *x <= 1., 9001); }
    reach(1);
}
/// random_seed before the first use makes everything unseeded that follows reproducible
fn h_c23_global() {
    let s = u64s();
    assume(s != 0);
    random_seed(s);
    let mut m = s as u128;
    let mut g = next64(&mut m) as u128;
    ckeq!(Rand32::new().0, next64(&mut g));
    ckeq!(Rand64::new().0 as u64, next64(&mut g));
    let t = random_normal([2], None);
    let mut r = Rand32(next64(&mut g));
    let p = r.next_normal();
    ckeq!(t.as_slice()[0].to_bits(), (0. + p * 1f32).to_bits());
    ckeq!(Rand32::new().0, next64(&mut g));
    // the thread's generator lives as long as the thread
    leak_ok();
    reach(1);
}
}
