//! C27: reading a file. The operating system is a model defined here: the calls std makes (open64, statx,
//! fstat64, read, lseek64, fcntl, close) resolve to these functions, in the IR and in the native replay alike.
//! Which call fails, is interrupted or delivers less than asked for is chosen by the solver's path.
use crate::rt::*;
use crate::*;
use essay_tensor::io::read_file;
use essay_tensor::tensor::Tensor;

const FD: i32 = 0x6fff_0001;
const NAME: &[u8] = b"vpm";
struct Os {
    on: bool,
    opened: u32, closed: u32,
    stat_len: usize, len: usize, pos: usize,
    data: [u8; 8],
    reads: u32, hard: bool, stat_failed: bool, bad_name: bool, budget: u32,
}
static mut OS: Os = Os { on: false, opened: 0, closed: 0, stat_len: 0, len: 0, pos: 0, data: [0; 8], reads: 0, hard: false, stat_failed: false, bad_name: false, budget: 0 };
#[allow(static_mut_refs)]
fn os() -> &'static mut Os { unsafe { &mut OS } }

extern "C" {
    fn __errno_location() -> *mut i32;
    fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64) -> i64;
}
const EINTR: i32 = 4;
const EIO: i32 = 5;
fn fail(e: i32) -> i32 { unsafe { *__errno_location() = e }; -1 }
/// one of `n` ways to go on, while there is budget for faults
fn fault(n: usize) -> usize {
    let o = os();
    if o.budget == 0 { return 0; }
    let k = pick(0, n);
    if k > 0 { o.budget -= 1; }
    k
}
unsafe fn named(p: *const u8) -> bool {
    let mut i = 0;
    while i < NAME.len() { if *p.add(i) != NAME[i] { return false; } i += 1; }
    true
}
#[no_mangle] pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    if !os().on { return syscall(2, path as i64, flags as i64, mode as i64, 0, 0) as i32; }
    if !named(path) || *path.add(NAME.len()) != 0 || flags & 3 != 0 { os().bad_name = true; return fail(2); }
    match fault(3) {
        1 => { os().hard = true; return fail([2, 13, 24][pick(0, 2)]) }
        2 => return fail(EINTR),
        3 => { os().stat_failed = true; }
        _ => {}
    }
    os().opened += 1;
    FD
}
#[no_mangle] pub unsafe extern "C" fn statx(fd: i32, path: *const u8, flags: i32, mask: u32, buf: *mut u8) -> i32 {
    if !os().on { return syscall(332, fd as i64, path as i64, flags as i64, mask as i64, buf as i64) as i32; }
    if buf.is_null() { return fail(14); }
    if fd != FD { return fail(9); }
    if os().stat_failed { return fail(EIO); }
    let mut i = 0;
    while i < 256 { *buf.add(i) = 0; i += 1; }
    *(buf as *mut u32) = 0x7ff;
    *(buf.add(28) as *mut u16) = 0o100644;
    *(buf.add(40) as *mut u64) = os().stat_len as u64;
    0
}
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: i32, buf: *mut u8) -> i32 {
    if !os().on || fd != FD { return syscall(5, fd as i64, buf as i64, 0, 0, 0) as i32; }
    if os().stat_failed { return fail(EIO); }
    let mut i = 0;
    while i < 144 { *buf.add(i) = 0; i += 1; }
    *(buf.add(24) as *mut u32) = 0o100644;
    *(buf.add(48) as *mut u64) = os().stat_len as u64;
    0
}
#[no_mangle] pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if !os().on || fd != FD { return syscall(0, fd as i64, buf as i64, n as i64, 0, 0) as isize; }
    let o = os();
    o.reads += 1;
    let left = if o.pos < o.len { o.len - o.pos } else { 0 };
    let mut k = if n < left { n } else { left };
    match fault(3) {
        1 => { o.hard = true; return fail(EIO) as isize }
        2 => return fail(EINTR) as isize,
        3 => { if k > 9 { k = [1, k / 2, k - 1][pick(0, 2)]; } else if k > 1 { k = pick(1, k - 1); } }
        _ => {}
    }
    let mut i = 0;
    while i < k { *buf.add(i) = byte(o.pos + i); i += 1; }
    o.pos += k;
    k as isize
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if !os().on || fd != FD { return syscall(8, fd as i64, off, whence as i64, 0, 0); }
    let o = os();
    match whence { 0 => o.pos = off as usize, 1 => o.pos = (o.pos as i64 + off) as usize, _ => o.pos = (o.len as i64 + off) as usize }
    o.pos as i64
}
#[no_mangle] pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    if !os().on || fd != FD { return syscall(72, fd as i64, cmd as i64, arg, 0, 0) as i32; }
    0
}
#[no_mangle] pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if !os().on || fd != FD { return syscall(3, fd as i64, 0, 0, 0, 0) as i32; }
    os().closed += 1;
    0
}
/// the first bytes are symbolic, those of larger files follow a pattern
fn byte(i: usize) -> u8 { if i < 8 { os().data[i] } else { (i.wrapping_mul(0x9E37) >> 7) as u8 } }
fn start(n: usize, m: usize, budget: u32) -> Vec<u8> {
    let v: Vec<u8> = (0..m).map(|_| bits(8) as u8).collect();
    let o = os();
    *o = Os { on: true, opened: 0, closed: 0, stat_len: n, len: m, pos: 0, data: [0; 8], reads: 0, hard: false, stat_failed: false, bad_name: false, budget };
    o.data[..m].copy_from_slice(&v);
    v
}
fn stop() { os().on = false; ck!(os().opened == os().closed); ck!(!os().bad_name); }

harnesses! {
/// the file's bytes, or an error when something failed: every schedule of faults, interruptions and short reads
fn h_c27_schedule() {
    let n = pick(0, 4);
    let m = if pick(0, 2) > 0 { n } else { pick(0, 5) };
    let v = start(n, m, if tier() > 0 { 4 } else { 3 });
    let r = read_file("vpm");
    let (hard, statf) = (os().hard, os().stat_failed);
    stop();
    match r {
        Ok(t) => {
            let k = t.size();
            ck!(!hard);
            ck!(k <= m && (k == n || k == m));
            same_shape(&t, &[k], line!() as u64);
            let mut i = 0;
            while i < k { ckeq!(t[i], v[i]); i += 1; }
            reach(1);
        }
        Err(e) => { ck!(hard || statf || m != n); drop(e); reach(2); }
    }
}
/// larger files, with an interrupted or short read anywhere in between
fn h_c27_large() {
    let n = [9, 33, 300, 4095, 4096, 4097, 8193, 66000][pick(0, 7)];
    start(0, 8, 0);
    let o = os();
    o.stat_len = n;
    o.len = n;
    for i in 0..8 { o.data[i] = bits(8) as u8; }
    o.budget = if n < 5000 { 2 } else { 1 };
    let r = read_file("vpm");
    let (hard, statf) = (os().hard, os().stat_failed);
    stop();
    match r {
        Ok(t) => {
            ck!(!hard);
            same_shape(&t, &[n], line!() as u64);
            let mut i = 0;
            let mut bad = 0;
            while i < n { if i < 8 { ckeq!(t[i], os().data[i]); } else if t[i] != byte(i) { bad += 1; } i += 1; }
            ckeq!(bad, 0);
            reach(1);
        }
        Err(e) => { ck!(hard || statf); drop(e); reach(2); }
    }
}
/// every way to give the name
fn h_c27_names() {
    let n = pick(0, 3);
    let v = start(n, n, 0);
    let r = match pick(0, 4) {
        0 => read_file("vpm"),
        1 => read_file(String::from("vpm")),
        2 => read_file(Tensor::<String>::from("vpm")),
        3 => read_file(Tensor::<String>::from(vec!["other", "vpm", "third"]).subslice(1, 1)),
        _ => read_file(vec!["vpm"]),
    };
    stop();
    match r {
        Ok(t) => { ck!(t.shape() == &sh(&[n])); let mut i = 0; while i < n { ckeq!(t[i], v[i]); i += 1; } reach(1); }
        Err(_) => ck!(false),
    }
}
/// a name no file can have is an error, not a panic
fn h_c27_nul() {
    start(1, 1, 0);
    let r = read_file("vpm\0x");
    let o = os().opened;
    stop();
    ck!(r.is_err() && o == 0);
    reach(1);
}
}
