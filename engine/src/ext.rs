//! Models of what lies outside the IR: allocator, panics, libm, a few std entry points, and the harness intrinsics.
use crate::exec::*;
use crate::ir::*;
use crate::mem::*;
use crate::term as tm;
use crate::term::{FpOp, T};
use std::rc::Rc;

/// functions whose IR is available but which are replaced by a model
const LIBM: &[&str] = &["exp", "exp2", "log", "log2", "log10", "sin", "cos", "tan", "sinh", "cosh", "tanh", "asin", "acos", "atan", "asinh", "acosh", "atanh", "expm1", "log1p", "cbrt", "pow", "atan2", "hypot", "fdim", "tgamma", "erf"];

pub fn overridden(n: &str) -> bool {
    if n.len() <= 7 && (LIBM.contains(&n) || n == "fmod" || n == "fmodf" || n.strip_suffix('f').map_or(false, |b| LIBM.contains(&b))) {
        return true;
    }
    if n.contains("14matrixmultiply") && (n.contains("4gemm5sgemm") || n.contains("4gemm5dgemm")) {
        return true;
    }
    // which CPU this is: the model has none of the optional instruction sets
    if n.contains("10std_detect6detect2os15detect_features") || n.contains("19hashmap_random_keys") {
        return true;
    }
    // panic entry points: everything in core::panicking, and std's runtime half of it
    if n.contains("_4core9panicking") {
        return true;
    }
    if n.contains("_3std9panicking") {
        return n.contains("catch_unwind7cleanup") || n.contains("panic_handler") || n.contains("begin_panic") || n.contains("rust_panic") || n.contains("resume_unwind");
    }
    n.contains("handle_alloc_error") || n.contains("7process5abort") || n.contains("12thread_local") && n.contains("8register") || n.contains("cxa_thread_atexit")
}

fn panic_fn(n: &str) -> bool {
    n.contains("9panicking") || n.contains("panic_access_error") || n.contains("22panic_already_") || n.contains("panic_already_mutably_borrowed")
        || n.contains("panic_already_borrowed") || n.contains("13unwrap_failed") || n.contains("13expect_failed") || n.contains("slice_index_fail")
        || n.contains("_fail") && n.contains("5slice") || n.contains("slice_error_fail") || n.contains("7raw_vec12handle_error") || n.contains("17capacity_overflow")
        || n.contains("copy_from_slice_impl17len_mismatch_fail") || n.contains("len_mismatch_fail") || n.contains("13assert_failed") || n.contains("3vec") && n.contains("assert_failed")
        || n.contains("begin_panic") || n.contains("resume_unwind") || n.contains("split_at") && n.contains("fail")
}
fn abort_fn(n: &str) -> Option<&'static str> {
    if n.contains("panic_nounwind") { return Some("unsafe precondition violated (undefined behaviour)"); }
    if n.contains("panic_cannot_unwind") { return Some("panic in a function that cannot unwind"); }
    if n.contains("panic_in_cleanup") { return Some("panic while unwinding (double panic aborts)"); }
    if n.contains("panic_misaligned_pointer") { return Some("misaligned pointer dereference"); }
    if n.contains("panic_null_pointer") || n.contains("panic_null_reference") { return Some("null pointer dereference"); }
    if n.contains("panic_invalid_enum") { return Some("invalid enum discriminant constructed"); }
    if n.contains("7process5abort") { return Some("process abort"); }
    if n.contains("handle_alloc_error") { return Some("allocation failure"); }
    None
}

fn agg2(a: Val, b: Val) -> Val { Val::Agg(Rc::new(vec![a, b])) }

impl Exec {
    fn num(&mut self, st: &mut State, v: &Val) -> Rs<u64> {
        match v {
            Val::I(x) => Ok(*x as u64),
            _ => Ok(self.concretize(st, v, 64)? as u64),
        }
    }
    pub fn new_input(&mut self, st: &mut State, w: u32, kind: &'static str) -> T {
        let k = (st.inputs.len() as u32, w);
        let v = match self.vars.get(&k) {
            Some(v) => *v,
            None => {
                let v = tm::var(w);
                self.vars.insert(k, v);
                v
            }
        };
        st.inputs.push(Input { var: v, kind });
        v
    }
    fn heap_alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> Rs<u64> {
        if size == 0 {
            return viol("zero-size-alloc", "allocator called with a zero-size layout (undefined behaviour)".into());
        }
        if align == 0 || align & (align - 1) != 0 {
            return viol("bad-layout", "allocator called with an invalid alignment".into());
        }
        if size > 8 << 20 {
            return unsup(format!("allocation of {} bytes exceeds the model's 8 MiB", size));
        }
        st.alloc_events += 1;
        let a = st.mem.alloc(size, align, Kind::Heap);
        if zero {
            let o = Rc::make_mut(st.mem.objs.get_mut(&slot_of(a)).unwrap());
            for b in o.bytes.iter_mut() { *b = conc(0); }
        }
        Ok(a)
    }
    fn heap_check(&mut self, st: &State, p: u64, size: u64, align: u64, what: &str) -> Rs<()> {
        match st.mem.objs.get(&slot_of(p)) {
            None => {
                if slot_of(p) < st.mem.next && slot_of(p) >= (BASE >> SLOT) {
                    return viol("double-free", format!("{} of memory that was already released", what));
                }
                viol("bad-free", format!("{} of a pointer the allocator never returned", what))
            }
            Some(o) => {
                if o.kind != Kind::Heap || o.base != p {
                    return viol("bad-free", format!("{} of a pointer the allocator never returned", what));
                }
                if o.bytes.len() as u64 != size || o.align != align {
                    return viol("layout-mismatch", format!("{} with layout size {} align {}, allocated with size {} align {}", what, size, align, o.bytes.len(), o.align));
                }
                Ok(())
            }
        }
    }

    pub fn call_ext(&mut self, st: &mut State, n: &str, cc: &CallI, a: &[Val]) -> Rs<Val> {
        if let Some(r) = n.strip_prefix("llvm.") {
            return self.intrinsic(st, r, cc, a);
        }
        if n.starts_with("sym_") {
            return self.sym(st, n, a);
        }
        *self.exts.entry(n.to_string()).or_insert(0) += 1;
        if n.ends_with("12___rust_alloc") || n == "__rust_alloc" {
            let (s, al) = (self.num(st, &a[0])?, self.num(st, &a[1])?);
            return Ok(Val::I(self.heap_alloc(st, s, al, false)? as u128));
        }
        if n.ends_with("19___rust_alloc_zeroed") {
            let (s, al) = (self.num(st, &a[0])?, self.num(st, &a[1])?);
            return Ok(Val::I(self.heap_alloc(st, s, al, true)? as u128));
        }
        if n.ends_with("14___rust_dealloc") {
            let (p, s, al) = (self.num(st, &a[0])?, self.num(st, &a[1])?, self.num(st, &a[2])?);
            self.heap_check(st, p, s, al, "free")?;
            st.mem.objs.remove(&slot_of(p));
            return Ok(Val::Undef);
        }
        if n.ends_with("14___rust_realloc") {
            let (p, s, al, ns) = (self.num(st, &a[0])?, self.num(st, &a[1])?, self.num(st, &a[2])?, self.num(st, &a[3])?);
            self.heap_check(st, p, s, al, "realloc")?;
            let np = self.heap_alloc(st, ns, al, false)?;
            self.copy(st, np, p, s.min(ns))?;
            st.mem.objs.remove(&slot_of(p));
            return Ok(Val::I(np as u128));
        }
        if n.contains("___rust_no_alloc_shim_is_unstable") {
            return Ok(Val::Undef);
        }
        if n.contains("9panicking12catch_unwind7cleanup") {
            return Ok(agg2(Val::I(1), Val::I(self.fakevt as u128)));
        }
        if n.contains("9panicking") && n.contains("panic_count") {
            return Ok(Val::I(0));
        }
        if n.contains("9panicking9panicking") {
            return Ok(Val::I(0));
        }
        if let Some(m) = abort_fn(n) {
            return viol("abort", m.into());
        }
        if panic_fn(n) {
            return Err(Stop::Unwind);
        }
        if st.thread != 0 && n == "syscall" && matches!(a[0], Val::I(202)) {
            // futex: this thread waits for another one; the schedules in which it does not are explored instead
            return Err(Stop::Kill);
        }
        if n.contains("12thread_local") && n.contains("8register") {
            return Ok(Val::Undef);
        }
        match n {
            "memcmp" | "bcmp" => {
                let (p, q, len) = (self.num(st, &a[0])?, self.num(st, &a[1])?, self.num(st, &a[2])?);
                let mut acc = tm::c(0, 32);
                for i in (0..len).rev() {
                    let x = self.byte_term(st, p + i)?;
                    let y = self.byte_term(st, q + i)?;
                    let lt = tm::ite(tm::ult(x, y), tm::c(u32::MAX as u128, 32), tm::c(1, 32));
                    acc = tm::ite(tm::eq(x, y), acc, lt);
                }
                return Ok(Self::back(acc));
            }
            "strlen" => {
                let p = self.num(st, &a[0])?;
                let mut k = 0;
                loop {
                    let t = self.byte_term(st, p + k)?;
                    if self.decide(st, tm::eq(t, tm::c(0, 8)))? { break; }
                    k += 1;
                }
                return Ok(Val::I(k as u128));
            }
            "rust_eh_personality" => return Ok(Val::I(0)),
            // part of the object that also holds the panic payload's vtable
            "__errno_location" => return Ok(Val::I(self.fakevt as u128 + 32)),
            _ => {}
        }
        // libm
        let (base, w) = if let Some(b) = n.strip_suffix('f') { (b, 32) } else { (n, 64) };
        let hit = if LIBM.contains(&n) { Some((n, 64)) } else if LIBM.contains(&base) && w == 32 { Some((base, 32)) } else { None };
        if let Some((b, w)) = hit {
            let ts: Vec<T> = a.iter().map(|v| Self::term(v, w)).collect::<Rs<Vec<_>>>()?;
            return Ok(Self::back(tm::fp(FpOp::Lib(tm::lib_id(b)), w, &ts, w)));
        }
        if n == "fmodf" || n == "fmod" {
            let w = if n == "fmodf" { 32 } else { 64 };
            return Ok(Self::back(tm::fp2(FpOp::Rem, w, Self::term(&a[0], w)?, Self::term(&a[1], w)?)));
        }
        if n.contains("14matrixmultiply") && (n.contains("4gemm5sgemm") || n.contains("4gemm5dgemm")) {
            return self.gemm(st, a, if n.contains("5sgemm") { 32 } else { 64 });
        }
        if n.contains("10std_detect6detect2os15detect_features") {
            return Ok(Val::I(0));
        }
        // hashing order is one fixed order
        if n.contains("19hashmap_random_keys") {
            return Ok(agg2(Val::I(0x0706050403020100), Val::I(0x0f0e0d0c0b0a0908)));
        }
        unsup(format!("external function {}", n))
    }

    /// contract of matrixmultiply::{s,d}gemm: C := alpha*A*B + beta*C, beta == 0 never reads C
    fn gemm(&mut self, st: &mut State, a: &[Val], w: u32) -> Rs<Val> {
        let (m, k, n) = (self.num(st, &a[0])?, self.num(st, &a[1])?, self.num(st, &a[2])?);
        let alpha = Self::term(&a[3], w)?;
        let pa = self.num(st, &a[4])?;
        let (rsa, csa) = (self.num(st, &a[5])?, self.num(st, &a[6])?);
        let pb = self.num(st, &a[7])?;
        let (rsb, csb) = (self.num(st, &a[8])?, self.num(st, &a[9])?);
        let beta = Self::term(&a[10], w)?;
        let pc = self.num(st, &a[11])?;
        let (rsc, csc) = (self.num(st, &a[12])?, self.num(st, &a[13])?);
        let sz = (w / 8) as u64;
        let ty = if w == 32 { Ty::F32 } else { Ty::F64 };
        let at = |p: u64, i: u64, rs: u64, j: u64, cs: u64| p.wrapping_add(sz.wrapping_mul(i.wrapping_mul(rs).wrapping_add(j.wrapping_mul(cs))));
        let mut outs = vec![];
        for i in 0..m {
            for j in 0..n {
                let mut acc = tm::c(0, w);
                for q in 0..k {
                    let x = self.load(st, &ty, at(pa, i, rsa, q, csa))?;
                    let y = self.load(st, &ty, at(pb, q, rsb, j, csb))?;
                    let p = tm::fp2(FpOp::Mul, w, Self::term(&x, w)?, Self::term(&y, w)?);
                    acc = tm::fp2(FpOp::Add, w, acc, p);
                }
                let one = if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 };
                if tm::cval(alpha) != Some(one) {
                    acc = tm::fp2(FpOp::Mul, w, alpha, acc);
                }
                let addr = at(pc, i, rsc, j, csc);
                if tm::cval(tm::f_iszero(beta)) != Some(1) {
                    let cv = self.load(st, &ty, addr)?;
                    let bc = tm::fp2(FpOp::Mul, w, beta, Self::term(&cv, w)?);
                    acc = tm::fp2(FpOp::Add, w, acc, bc);
                }
                outs.push((addr, acc));
            }
        }
        for (addr, v) in outs {
            self.store(st, &ty, &Self::back(v), addr)?;
        }
        Ok(Val::Undef)
    }

    fn sym(&mut self, st: &mut State, n: &str, a: &[Val]) -> Rs<Val> {
        match n {
            "sym_bits" => {
                let w = self.num(st, &a[0])? as u32;
                let v = self.new_input(st, w, "bits");
                Ok(Self::back(tm::zext(v, 64)))
            }
            "sym_range" | "sym_pick" => {
                let (lo, hi) = (self.num(st, &a[0])?, self.num(st, &a[1])?);
                let pick = n == "sym_pick";
                let v = self.new_input(st, 64, if pick { "pick" } else { "range" });
                if lo > hi {
                    return Err(Stop::Kill);
                }
                if !st.known.contains_key(&v) {
                    let t1 = tm::ule(tm::c(lo as u128, 64), v);
                    let t2 = tm::ule(v, tm::c(hi as u128, 64));
                    self.add_pc(st, t1);
                    self.add_pc(st, t2);
                    if lo == hi {
                        st.known.insert(v, lo as u128);
                    }
                    // keep the cached model consistent: extend it when cheap
                    if let Some(m) = &st.model {
                        if let tm::N::Var(id) = tm::node(v) {
                            let mut m2 = tm::Model { vars: m.vars.clone(), ufs: m.ufs.clone() };
                            m2.vars.insert(*id, lo as u128);
                            st.model = Some(Rc::new(m2));
                        }
                    }
                }
                if pick {
                    // concretize() may fork copies of this state that re-execute this call: drop the input we just pushed
                    let inp = st.inputs.pop().unwrap();
                    if !st.known.contains_key(&v) && self.cfg.slice.is_some() && st.npicks == 0 {
                        let (i, k) = self.cfg.slice.unwrap();
                        if k > 1 {
                            let t = tm::eq(tm::urem(v, tm::c(k as u128, 64)), tm::c(i as u128, 64));
                            self.add_pc(st, t);
                            st.model = None;
                        }
                    }
                    let x = self.concretize_input(st, v)?;
                    st.inputs.push(inp);
                    st.npicks += 1;
                    return Ok(Val::I(x));
                }
                Ok(Val::S(v))
            }
            "sym_concrete" => {
                let x = self.concretize(st, &a[0], 64)?;
                Ok(Val::I(x))
            }
            "sym_assume" => {
                self.flush_obl(st)?;
                match &a[0] {
                    Val::I(1) => Ok(Val::Undef),
                    Val::I(_) => Err(Stop::Kill),
                    Val::S(t) => {
                        let t = *t;
                        let mut ok = false;
                        if let Some(m) = &st.model {
                            if tm::eval(t, m, &mut Default::default()) == Some(1) {
                                ok = true;
                            }
                        }
                        if !ok {
                            match self.query(st, &[t])? {
                                Some(m) => st.model = Some(m),
                                None => return Err(Stop::Kill),
                            }
                        }
                        self.add_pc(st, t);
                        Ok(Val::Undef)
                    }
                    _ => viol("uninit", "assume on an uninitialised value".into()),
                }
            }
            "sym_assert" => {
                let id = self.num(st, &a[1])?;
                self.obligations += 1;
                match &a[0] {
                    Val::I(1) => {
                        self.obl_concrete += 1;
                        Ok(Val::Undef)
                    }
                    Val::I(_) => Err(Stop::Viol { kind: "assertion", id, msg: format!("assertion {} fails", id), cond: None }),
                    Val::S(t) => {
                        if st.known.get(t) == Some(&1) {
                            return Ok(Val::Undef);
                        }
                        st.obl.push((*t, id));
                        Ok(Val::Undef)
                    }
                    _ => viol("uninit", "assertion on an uninitialised value".into()),
                }
            }
            "sym_assert_eq" => {
                let id = self.num(st, &a[2])?;
                self.obligations += 1;
                match (&a[0], &a[1]) {
                    (Val::I(x), Val::I(y)) => {
                        self.obl_concrete += 1;
                        if x == y {
                            Ok(Val::Undef)
                        } else {
                            Err(Stop::Viol { kind: "assertion", id, msg: format!("assertion {} fails: {} != {}", id, x, y), cond: None })
                        }
                    }
                    _ => {
                        let (x, y) = (Self::term(&a[0], 64)?, Self::term(&a[1], 64)?);
                        // strip common zero extension, keep the equality itself for the solver
                        let (x, y) = match (tm::node(x), tm::node(y)) {
                            (tm::N::ZExt(p), tm::N::ZExt(q)) if tm::width(*p) == tm::width(*q) => (*p, *q),
                            _ => (x, y),
                        };
                        st.obl.push((tm::raw_eq(x, y), id));
                        Ok(Val::Undef)
                    }
                }
            }
            "sym_uf1" | "sym_uf2" | "sym_uf3" => {
                let f = self.num(st, &a[0])?;
                let mut ts = vec![];
                for v in &a[1..] {
                    ts.push(Self::term(v, 64)?);
                }
                let t = tm::uf(&format!("f{}", f), &ts, 64);
                if !st.ufapps.contains(&t) {
                    st.ufapps.push(t);
                }
                Ok(Val::S(t))
            }
            "sym_reach" => {
                let id = self.num(st, &a[0])?;
                *self.reach.entry(id).or_insert(0) += 1;
                Ok(Val::Undef)
            }
            "sym_note" => {
                let id = self.num(st, &a[0])?;
                let v = if let Val::I(x) = &a[1] { *x } else { 0 };
                st.note.push((id, v));
                Ok(Val::Undef)
            }
            "sym_leak_ok" => {
                st.note.push((u64::MAX, 0));
                Ok(Val::Undef)
            }
            "sym_thread" => {
                let k = self.num(st, &a[0])?;
                self.switch_thread(st, k);
                Ok(Val::Undef)
            }
            "sym_env" => {
                st.env = self.num(st, &a[0])?;
                Ok(Val::Undef)
            }
            "sym_native" => Ok(Val::I(0)),
            "sym_live" => {
                let live = st.mem.objs.values().filter(|o| o.kind == Kind::Heap).count();
                Ok(Val::I(live as u128))
            }
            "sym_tier" => Ok(Val::I(self.cfg.tier as u128)),
            "sym_skip" => {
                let id = self.num(st, &a[0])?;
                Ok(Val::I(self.cfg.skip.contains(&id) as u128))
            }
            _ => unsup(format!("intrinsic {}", n)),
        }
    }
    fn concretize_input(&mut self, st: &mut State, v: T) -> Rs<u128> {
        self.concretize(st, &Val::S(v), 64)
    }

    fn intrinsic(&mut self, st: &mut State, n: &str, cc: &CallI, a: &[Val]) -> Rs<Val> {
        let key = n.split('.').next().unwrap_or("");
        match key {
            "lifetime" | "assume" | "experimental" | "donothing" | "dbg" | "prefetch" | "invariant" => return Ok(Val::Undef),
            "expect" => return Ok(a[0].clone()),
            "is" if n.starts_with("is.constant") => return Ok(Val::I(0)),
            "x86" if n == "x86.sse2.pause" => {
                st.pauses += 1;
                if st.pauses > 2000 {
                    // waits for another thread
                    return if st.thread != 0 { Err(Stop::Kill) } else { unsup("endless spinning".into()) };
                }
                return Ok(Val::Undef);
            }
            "trap" => return viol("abort", "trap".into()),
            "threadlocal" => return Ok(a[0].clone()),
            "memcpy" | "memmove" => {
                let (d, s, len) = (self.num(st, &a[0])?, self.num(st, &a[1])?, self.num(st, &a[2])?);
                if key == "memcpy" && len > 0 && d != s && slot_of(d) == slot_of(s) && (d < s + len && s < d + len) {
                    return viol("overlap", "memcpy of overlapping regions".into());
                }
                self.copy(st, d, s, len)?;
                return Ok(Val::Undef);
            }
            "memset" => {
                let d = self.num(st, &a[0])?;
                let len = self.num(st, &a[2])?;
                let v = a[1].clone();
                if len > 0 {
                    let (slot, off) = self.locate(st, d, len, "write", true)?;
                    let o = Rc::make_mut(st.mem.objs.get_mut(&slot).unwrap());
                    for i in 0..len as usize {
                        store_bytes(o, off + i, 1, &v);
                    }
                }
                return Ok(Val::Undef);
            }
            _ => {}
        }
        if a.iter().any(|v| matches!(v, Val::Undef | Val::Part(_))) {
            return viol("uninit", format!("llvm.{} on an uninitialised value", n));
        }
        let w = match cc.args.get(0) {
            Some((t, _)) if t.is_scalar() => t.bits(),
            _ => return unsup(format!("intrinsic llvm.{}", n)),
        };
        let t = |k: usize| Self::term(&a[k], w);
        let ovf = |r: T, o: T| Ok(agg2(Self::back(r), Self::back(o)));
        if n.contains(".with.overflow") {
            let (x, y) = (t(0)?, t(1)?);
            if let (Some(p), Some(q)) = (tm::cval(x), tm::cval(y)) {
                // concrete
                let m = tm::mask(w);
                let (ps, qs) = (tm::sx(p, w), tm::sx(q, w));
                let (r, o) = match key {
                    "uadd" => { let (s, c) = p.overflowing_add(q); (s & m, c || s > m) }
                    "usub" => (p.wrapping_sub(q) & m, p < q),
                    "umul" => { let (s, c) = p.overflowing_mul(q); (s & m, c || s > m) }
                    _ => {
                        let (s, c) = match key { "sadd" => ps.overflowing_add(qs), "ssub" => ps.overflowing_sub(qs), _ => ps.overflowing_mul(qs) };
                        let r = s as u128 & m;
                        (r, c || tm::sx(r, w) != s)
                    }
                };
                return Ok(agg2(Val::I(r), Val::I(o as u128)));
            }
            match key {
                "uadd" if w <= 64 && tm::umax(x) + tm::umax(y) <= tm::mask(w) => return ovf(tm::add(x, y), tm::c(0, 1)),
                "umul" if w <= 64 && tm::umax(x) * tm::umax(y) <= tm::mask(w) => return ovf(tm::mul(x, y), tm::c(0, 1)),
                "uadd" => { let r = tm::add(x, y); return ovf(r, tm::ult(r, x)); }
                "usub" => return ovf(tm::sub(x, y), tm::ult(x, y)),
                "sadd" | "ssub" => {
                    let r = if key == "sadd" { tm::add(x, y) } else { tm::sub(x, y) };
                    let sg = |v: T| tm::extract(w - 1, w - 1, v);
                    let (sx, sy, sr) = (sg(x), sg(y), sg(r));
                    let o = if key == "sadd" { tm::and(tm::eq(sx, sy), tm::ne(sx, sr)) } else { tm::and(tm::ne(sx, sy), tm::ne(sx, sr)) };
                    return ovf(r, o);
                }
                "umul" | "smul" => {
                    let (bx, by) = (tm::ubits(x), tm::ubits(y));
                    if bx + by <= if key == "umul" { w } else { w - 1 } { return ovf(tm::mul(x, y), tm::c(0, 1)); }
                    if w > 64 {
                        let r = tm::mul(x, y);
                        let z = tm::c(0, w);
                        let o = if key == "umul" {
                            tm::and(tm::ne(y, z), tm::ult(tm::udiv(tm::c(tm::mask(w), w), y), x))
                        } else {
                            let m1 = tm::c(tm::mask(w), w);
                            let min = tm::c(1u128 << (w - 1), w);
                            tm::or(tm::and(tm::eq(x, m1), tm::eq(y, min)), tm::and(tm::ne(x, z), tm::ne(tm::sdiv(r, x), y)))
                        };
                        return ovf(r, o);
                    }
                    let e = |v: T| if key == "umul" { tm::zext(v, 2 * w) } else { tm::sext(v, 2 * w) };
                    let p = tm::mul(e(x), e(y));
                    let r = tm::mul(x, y);
                    return ovf(r, tm::ne(p, e(r)));
                }
                _ => {}
            }
        }
        let r = match key {
            "umax" => { let (x, y) = (t(0)?, t(1)?); tm::ite(tm::ult(x, y), y, x) }
            "umin" => { let (x, y) = (t(0)?, t(1)?); tm::ite(tm::ult(x, y), x, y) }
            "smax" => { let (x, y) = (t(0)?, t(1)?); tm::ite(tm::slt(x, y), y, x) }
            "smin" => { let (x, y) = (t(0)?, t(1)?); tm::ite(tm::slt(x, y), x, y) }
            "abs" => { let x = t(0)?; tm::ite(tm::slt(x, tm::c(0, w)), tm::neg(x), x) }
            "ucmp" | "scmp" => {
                let (x, y) = (t(0)?, t(1)?);
                let lt = if key == "ucmp" { tm::ult(x, y) } else { tm::slt(x, y) };
                let rw = cc.ret.bits();
                tm::ite(tm::eq(x, y), tm::c(0, rw), tm::ite(lt, tm::c(tm::mask(rw), rw), tm::c(1, rw)))
            }
            "uadd" if n.starts_with("uadd.sat") => { let (x, y) = (t(0)?, t(1)?); let r = tm::add(x, y); tm::ite(tm::ult(r, x), tm::c(tm::mask(w), w), r) }
            "usub" if n.starts_with("usub.sat") => { let (x, y) = (t(0)?, t(1)?); tm::ite(tm::ult(x, y), tm::c(0, w), tm::sub(x, y)) }
            "ctpop" | "ctlz" | "cttz" => {
                let x = t(0)?;
                match tm::cval(x) {
                    Some(v) => {
                        let r = match key {
                            "ctpop" => v.count_ones(),
                            "ctlz" => v.leading_zeros() - (128 - w),
                            _ => v.trailing_zeros().min(w),
                        };
                        tm::c(r as u128, w)
                    }
                    None => {
                        let mut acc = match key { "ctpop" => tm::c(0, w), _ => tm::c(w as u128, w) };
                        match key {
                            "ctpop" => for i in 0..w { acc = tm::add(acc, tm::zext(tm::extract(i, i, x), w)); },
                            "ctlz" => for i in 0..w { acc = tm::ite(tm::extract(i, i, x), tm::c((w - 1 - i) as u128, w), acc); },
                            _ => for i in (0..w).rev() { acc = tm::ite(tm::extract(i, i, x), tm::c(i as u128, w), acc); },
                        }
                        acc
                    }
                }
            }
            "bswap" => {
                let x = t(0)?;
                let nb = w / 8;
                let mut acc = tm::extract(7, 0, x);
                for i in 1..nb { acc = tm::concat(acc, tm::extract(i * 8 + 7, i * 8, x)); }
                acc
            }
            "bitreverse" => {
                let x = t(0)?;
                let mut acc = tm::extract(0, 0, x);
                for i in 1..w { acc = tm::concat(acc, tm::extract(i, i, x)); }
                acc
            }
            "fshl" | "fshr" => {
                let (x, y, s) = (t(0)?, t(1)?, t(2)?);
                let s = tm::urem(s, tm::c(w as u128, w));
                let cc = tm::concat(x, y);
                let sw = tm::zext(s, 2 * w);
                if key == "fshl" { tm::extract(2 * w - 1, w, tm::shl(cc, sw)) } else { tm::extract(w - 1, 0, tm::lshr(cc, sw)) }
            }
            "fptosi" => { let tw = cc.ret.bits(); tm::fp(FpOp::ToSSat(tw), w, &[t(0)?], tw) }
            "fptoui" => { let tw = cc.ret.bits(); tm::fp(FpOp::ToUSat(tw), w, &[t(0)?], tw) }
            "fabs" => tm::f_abs(t(0)?),
            "copysign" => { let (x, y) = (t(0)?, t(1)?); let s = 1u128 << (w - 1); tm::or(tm::and(x, tm::c(s - 1, w)), tm::and(y, tm::c(s, w))) }
            "maxnum" | "maximumnum" => { let (x, y) = (t(0)?, t(1)?); tm::ite(tm::f_isnan(x), y, tm::ite(tm::f_isnan(y), x, tm::ite(tm::f_olt(x, y), y, x))) }
            "minnum" | "minimumnum" => { let (x, y) = (t(0)?, t(1)?); tm::ite(tm::f_isnan(x), y, tm::ite(tm::f_isnan(y), x, tm::ite(tm::f_olt(y, x), y, x))) }
            "maximum" => { let (x, y) = (t(0)?, t(1)?); tm::ite(tm::f_isnan(x), x, tm::ite(tm::f_isnan(y), y, tm::ite(tm::f_olt(x, y), y, x))) }
            "minimum" => { let (x, y) = (t(0)?, t(1)?); tm::ite(tm::f_isnan(x), x, tm::ite(tm::f_isnan(y), y, tm::ite(tm::f_olt(y, x), y, x))) }
            "sqrt" => tm::fp(FpOp::Sqrt, w, &[t(0)?], w),
            "floor" => tm::fp(FpOp::Floor, w, &[t(0)?], w),
            "ceil" => tm::fp(FpOp::Ceil, w, &[t(0)?], w),
            "trunc" => tm::fp(FpOp::Trunc, w, &[t(0)?], w),
            "round" => tm::fp(FpOp::RoundAway, w, &[t(0)?], w),
            "roundeven" | "rint" | "nearbyint" => tm::fp(FpOp::RoundEven, w, &[t(0)?], w),
            "fma" => tm::fp(FpOp::Fma, w, &[t(0)?, t(1)?, t(2)?], w),
            "fmuladd" => { let p = tm::fp2(FpOp::Mul, w, t(0)?, t(1)?); tm::fp2(FpOp::Add, w, p, t(2)?) }
            "powi" => {
                let x = t(0)?;
                let et = Self::term(&a[1], 32)?;
                let e = tm::cval(et).map(|v| v as u32 as i32);
                if e.map_or(true, |e| e.unsigned_abs() > 64) {
                    return Ok(Self::back(tm::fp(FpOp::Lib(tm::lib_id("powi")), w, &[x, tm::zext(et, w)], w)));
                }
                let e = e.unwrap();
                // contract: repeated multiplication
                let mut acc: Option<T> = None;
                for _ in 0..e.unsigned_abs() { acc = Some(match acc { None => x, Some(p) => tm::fp2(FpOp::Mul, w, p, x) }); }
                let one = tm::c(if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 }, w);
                let r = acc.unwrap_or(one);
                if e < 0 { tm::fp2(FpOp::Div, w, one, r) } else { r }
            }
            "exp" | "exp2" | "log" | "log2" | "log10" | "sin" | "cos" | "tan" | "pow" | "sinh" | "cosh" | "tanh" | "asin" | "acos" | "atan" | "atan2" => {
                let ts: Vec<T> = (0..a.len()).map(|k| t(k)).collect::<Rs<Vec<_>>>()?;
                tm::fp(FpOp::Lib(tm::lib_id(key)), w, &ts, w)
            }
            _ => return unsup(format!("intrinsic llvm.{}", n)),
        };
        Ok(Self::back(r))
    }
}
