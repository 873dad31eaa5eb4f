//! C30: threads take successive seeds, each its own, in every interleaving
use crate::rt::*;
use crate::*;
use essay_tensor::random::{random_seed, Rand64};

const A: u128 = 0xACAEAEFB4BF4A6A78B6E278B66409E7D;
const C: u128 = 0x351402A3544A25016AEE39FBBADBB38D;
const M: u64 = 0xA18E4C689403AE2D;
fn next64(s: &mut u128) -> u64 {
    *s = s.wrapping_mul(A).wrapping_add(C);
    let mut r = (*s >> 32) as u64;
    r ^= r >> 32;
    r.wrapping_mul(M)
}
fn after(s: u64) -> u64 { next64(&mut (s as u128)) }
/// the first two numbers of a thread that takes seed s
fn drawn(s: u64) -> (u64, u64) { let mut g = s as u128; (next64(&mut g), next64(&mut g)) }

/// what the schedule still allows, and what has happened
struct Sched { starts: usize, seeds: usize, deep: bool, next: usize, at: usize, seed: u64, got: Vec<(u64, u64)>, seeded: bool }
static mut SCHED: Sched = Sched { starts: 0, seeds: 0, deep: false, next: 0, at: 0, seed: 0, got: Vec::new(), seeded: false };
#[allow(static_mut_refs)]
fn sched() -> &'static mut Sched { unsafe { &mut SCHED } }

/// the other threads: called before every access to shared data
fn others() {
    env(None);
    let s = sched();
    if s.starts > 0 && pick(0, 1) == 1 {
        s.starts -= 1;
        let me = s.at;
        s.next += 1;
        s.at = s.next;
        thread(s.at);
        if s.deep { env(Some(others)); }
        let r = draw();
        env(None);
        let s = sched();
        s.got.push(r);
        s.at = me;
        thread(me);
    }
    if s.seeds > 0 && pick(0, 1) == 1 {
        s.seeds -= 1;
        s.seeded = true;
        random_seed(s.seed);
    }
    let s = sched();
    if s.starts + s.seeds > 0 { env(Some(others)); }
}
fn draw() -> (u64, u64) { let a = Rand64::new().0 as u64; (a, Rand64::new().0 as u64) }

/// is every one of `e` among `g`
fn all_in(e: &[(u64, u64)], g: &[(u64, u64)]) -> bool {
    let mut ok = true;
    for x in e {
        let mut one = false;
        for y in g { one |= (x.0 == y.0) & (x.1 == y.1); }
        ok &= one;
    }
    ok
}
/// threads that overlapped got `g`, one after all of them got `last`; n: chain lengths of s and t
fn explained(g: &[(u64, u64)], last: (u64, u64), s: &[u64], t: Option<&[u64]>) -> bool {
    let k = g.len();
    let d = |x: &u64| drawn(*x);
    match t {
        None => {
            let e: Vec<_> = s[1..k + 2].iter().map(d).collect();
            all_in(&e[..k], g) & (e[k].0 == last.0) & (e[k].1 == last.1)
        }
        Some(t) => {
            let mut any = false;
            let mut p = 0;
            while p <= k {
                let mut e: Vec<_> = s[1..p + 1].iter().map(d).collect();
                e.extend(t[1..k - p + 1].iter().map(d));
                let l = drawn(t[k - p + 1]);
                any |= all_in(&e, g) & (l.0 == last.0) & (l.1 == last.1);
                p += 1;
            }
            any
        }
    }
}
fn chain(s: u64, n: usize) -> Vec<u64> { let mut v = vec![s]; while v.len() < n { v.push(after(v[v.len() - 1])); } v }
fn distinct(v: &[u64]) {
    let mut i = 0;
    while i < v.len() {
        assume(v[i] != 0);
        let mut j = 0;
        while j < i { assume(v[i] != v[j]); j += 1; }
        i += 1;
    }
}
/// the replay: real threads that begin together, again and again
fn stress(s: u64, t: Option<u64>, k: usize, id: u64) {
    use std::sync::{atomic::{AtomicUsize, Ordering::SeqCst}, Arc};
    leak_ok();
    let (cs, ct) = (chain(s, k + 2), t.map(|t| chain(t, k + 2)));
    let begin = std::time::Instant::now();
    while begin.elapsed().as_millis() < 4000 {
        random_seed(s);
        let go = Arc::new(AtomicUsize::new(0));
        let n = k + t.is_some() as usize;
        let wait = move |go: &AtomicUsize| { go.fetch_add(1, SeqCst); while go.load(SeqCst) < n { std::hint::spin_loop(); } };
        let h: Vec<_> = (0..k).map(|_| { let go = go.clone(); std::thread::spawn(move || { wait(&go); draw() }) }).collect();
        let r = t.map(|t| { let go = go.clone(); std::thread::spawn(move || { wait(&go); random_seed(t) }) });
        let g: Vec<_> = h.into_iter().map(|h| h.join().unwrap()).collect();
        if let Some(r) = r { r.join().unwrap(); }
        let last = std::thread::spawn(draw).join().unwrap();
        check(explained(&g, last, &cs, ct.as_deref()), id);
    }
}
fn run(s: u64, t: Option<u64>, starts: usize, deep: bool, id: u64) {
    if native() { return stress(s, t, starts + 1, id); }
    let (cs, ct) = (chain(s, starts + 4), t.map(|t| chain(t, starts + 4)));
    let mut every = cs.clone();
    if let Some(t) = &ct { every.extend_from_slice(t); }
    distinct(&every);
    random_seed(s);
    *sched() = Sched { starts, seeds: t.is_some() as usize, deep, next: 1, at: 1, seed: t.unwrap_or(0), got: Vec::new(), seeded: false };
    thread(1);
    env(Some(others));
    let r = draw();
    env(None);
    let s = sched();
    s.got.push(r);
    let got = std::mem::take(&mut s.got);
    let seeded = s.seeded;
    thread(s.next + 1);
    let last = draw();
    check(explained(&got, last, &cs, if seeded { ct.as_deref() } else { None }), id);
    if got.len() > 1 { reach(2); }
    leak_ok();
}

harnesses! {
/// threads that begin at any moment of another one's beginning
fn h_c30_start() {
    let s = u64s();
    run(s, None, if tier() > 0 { 3 } else { 2 }, false, line!() as u64);
    reach(1);
}
/// and of each other's
fn h_c30_nested() {
    let s = u64s();
    run(s, None, if tier() > 0 { 3 } else { 2 }, true, line!() as u64);
    reach(1);
}
/// with a random_seed at any moment
fn h_c30_seed() {
    let s = u64s();
    let t = u64s();
    run(s, Some(t), 1, false, line!() as u64);
    reach(1);
}
}
