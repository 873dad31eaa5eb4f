//! Runs one harness natively on a model found by the solver.
//! usage: replay HARNESS MODEL [plain]
//! MODEL lines: `in KIND VALUE` in call order, `uf F ARGS.. = VALUE`, `tier N`.
//! exit 0: the harness ran to the end, no violation; 70..79: see below; a crash signal also counts.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};

static TRACK: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
const HDR: usize = 64;
const MAGIC: u64 = 0x5eed_a110_c8ed_0001;
const FREED: u64 = 0xdead_f4ee_dead_f4ee;

fn die(code: i32, msg: &str) -> ! {
    extern "C" { fn write(fd: i32, p: *const u8, n: usize) -> isize; fn _exit(c: i32) -> !; }
    unsafe {
        write(2, b"REPLAY: ".as_ptr(), 8);
        write(2, msg.as_ptr(), msg.len());
        write(2, b"\n".as_ptr(), 1);
        _exit(code)
    }
}
struct A;
// Tracking allocator: a header in front of each block holds its layout; blocks are poisoned and never
// reused, so that a second release or a release with another layout is seen.
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !TRACK.load(SeqCst) { return System.alloc(l); }
        if l.size() == 0 { die(73, "allocator called with a zero-size layout"); }
        if plain() { LIVE.fetch_add(1, SeqCst); return System.alloc(l); }
        let al = l.align().max(HDR);
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + al + 64, al));
        if p.is_null() { return p; }
        let q = p.add(al);
        let h = q.sub(32) as *mut u64;
        *h = MAGIC; *h.add(1) = l.size() as u64; *h.add(2) = l.align() as u64;
        for i in 0..l.size() { *q.add(i) = 0xa5; }
        for i in 0..64 { *q.add(l.size() + i) = 0x5a; }
        LIVE.fetch_add(1, SeqCst);
        q
    }
    unsafe fn dealloc(&self, q: *mut u8, l: Layout) {
        if !TRACK.load(SeqCst) { return; }
        LIVE.fetch_sub(1, SeqCst);
        if plain() { return System.dealloc(q, l); }
        let h = q.sub(32) as *mut u64;
        if *h == FREED { die(72, "memory released twice"); }
        if *h != MAGIC { LIVE.fetch_add(1, SeqCst); return; } // allocated before tracking began
        if *h.add(1) != l.size() as u64 || *h.add(2) != l.align() as u64 { die(72, "memory released with another layout than it was allocated with"); }
        for i in 0..64 { if *q.add(l.size() + i) != 0x5a { die(72, "write past the end of an allocation"); } }
        *h = FREED;
        for i in 0..l.size() { *q.add(i) = 0xdd; }
    }
}
#[global_allocator]
static GA: A = A;
static PLAIN: AtomicBool = AtomicBool::new(false);
fn plain() -> bool { PLAIN.load(SeqCst) }

struct St { ins: Vec<(String, u64)>, pos: usize, ufs: Vec<(u64, Vec<u64>, u64)>, tier: u64, leak_ok: bool }
static mut ST: Option<St> = None;
#[allow(static_mut_refs)]
fn st() -> &'static mut St { unsafe { ST.as_mut().unwrap() } }
fn next(kind: &str) -> u64 {
    let s = st();
    if s.pos >= s.ins.len() { die(79, "model has no more inputs: the run diverged from the path"); }
    let (k, v) = &s.ins[s.pos];
    if k != kind { die(79, "inputs are asked for in another order than on the path"); }
    s.pos += 1;
    *v
}
#[no_mangle] extern "C" fn sym_bits(w: u32) -> u64 { let v = next("bits"); if w < 64 { v & ((1u64 << w) - 1) } else { v } }
#[no_mangle] extern "C" fn sym_pick(_lo: u64, _hi: u64) -> u64 { next("pick") }
#[no_mangle] extern "C" fn sym_range(_lo: u64, _hi: u64) -> u64 { next("range") }
#[no_mangle] extern "C" fn sym_concrete(x: u64) -> u64 { x }
#[no_mangle] extern "C" fn sym_assume(c: bool) { if !c { die(78, "an assumption of the harness does not hold: the run diverged from the path"); } }
#[no_mangle] extern "C" fn sym_assert(c: bool, id: u64) {
    if !c { TRACK.store(false, SeqCst); die(77, &format!("assertion {} fails", id)); }
}
#[no_mangle] extern "C" fn sym_assert_eq(a: u64, b: u64, id: u64) {
    if a != b { TRACK.store(false, SeqCst); die(77, &format!("assertion {} fails: {:#x} != {:#x}", id, a, b)); }
}
#[no_mangle] extern "C" fn sym_reach(_id: u64) {}
#[no_mangle] extern "C" fn sym_note(id: u64, v: u64) {
    TRACK.store(false, SeqCst);
    eprintln!("REPLAY: note {} = {:#x}", id, v);
    TRACK.store(true, SeqCst);
}
#[no_mangle] extern "C" fn sym_leak_ok() { st().leak_ok = true; }
#[no_mangle] extern "C" fn sym_live() -> u64 { LIVE.load(SeqCst) as u64 }
#[no_mangle] extern "C" fn sym_tier() -> u64 { st().tier }
#[no_mangle] extern "C" fn sym_thread(_k: u64) { die(79, "threads are real ones in the replay") }
#[no_mangle] extern "C" fn sym_env(_f: usize) { die(79, "threads are real ones in the replay") }
#[no_mangle] extern "C" fn sym_native() -> bool { true }
#[no_mangle] extern "C" fn sym_uf1(f: u64, a: u64) -> u64 { uf(f, &[a]) }
#[no_mangle] extern "C" fn sym_uf2(f: u64, a: u64, b: u64) -> u64 { uf(f, &[a, b]) }
#[no_mangle] extern "C" fn sym_uf3(f: u64, a: u64, b: u64, c: u64) -> u64 { uf(f, &[a, b, c]) }
fn uf(f: u64, all: &[u64]) -> u64 {
    for (g, args, v) in &st().ufs {
        if *g == f && args[..] == all[..] { return *v; }
    }
    // the model leaves this application open: any function will do, and one without regularities shows most
    let mut h = f.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678_9abc_def1;
    for x in all { h = (h ^ x).wrapping_mul(0xff51_afd7_ed55_8ccd); h ^= h >> 32; }
    h
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).expect("model");
    PLAIN.store(a.get(3).map(|s| s == "plain").unwrap_or(false), SeqCst);
    let mut s = St { ins: vec![], pos: 0, ufs: vec![], tier: 0, leak_ok: false };
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.is_empty() { continue; }
        match w[0] {
            "in" => s.ins.push((w[1].to_string(), w[2].parse::<u128>().unwrap() as u64)),
            "uf" => {
                let e = w.iter().position(|x| *x == "=").unwrap();
                s.ufs.push((w[1].parse().unwrap(), w[2..e].iter().map(|x| x.parse::<u128>().unwrap() as u64).collect(), w[e + 1].parse::<u128>().unwrap() as u64));
            }
            "tier" => s.tier = w[1].parse().unwrap(),
            _ => {}
        }
    }
    unsafe { ST = Some(s); }
    let t = vh::table();
    let f = match t.iter().find(|(n, _)| *n == a[1]) { Some(x) => x.1, None => { eprintln!("no harness {}", a[1]); std::process::exit(3) } };
    std::panic::set_hook(Box::new(|_| {}));
    // lazily allocated runtime state exists before counting starts
    let _ = std::panic::catch_unwind(|| panic!("warm up"));
    let mut x = 0u64;
    x += std::hint::black_box(1);
    let _ = x;
    TRACK.store(true, SeqCst);
    let r = std::panic::catch_unwind(f);
    let live = LIVE.load(SeqCst);
    match r {
        Err(_) => die(74, "the harness panicked: a call that must succeed was rejected"),
        Ok(_) => {
            if live != 0 && !st().leak_ok { die(75, "allocations are still live at the end: leak"); }
            die(0, "no violation");
        }
    }
}
