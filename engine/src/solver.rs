//! SMT-LIB2 over a pipe. One long-lived incremental process per FP mode.
use crate::term::*;
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Res { Sat, Unsat, Unknown }

pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub model_hits: u64,
    pub max_query: f64,
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    pub cmd: Vec<String>,
    pub exact: bool,
    pub timeout_ms: u64,
    declared: HashSet<T>,
    decl_uf: HashSet<String>,
    stack: Vec<T>,
    buf: String,
    pub stats: Stats,
    pub log: Option<std::fs::File>,
}

fn fpsort(w: u32) -> &'static str { if w == 32 { "8 24" } else { "11 53" } }
fn bvs(w: u32) -> String { format!("(_ BitVec {})", w) }
fn cst(v: u128, w: u32) -> String {
    if w % 4 == 0 { format!("#x{:0n$x}", v, n = (w / 4) as usize) } else { format!("#b{:0n$b}", v, n = w as usize) }
}

impl Solver {
    pub fn new(cmd: Vec<String>, exact: bool, timeout_ms: u64, log: Option<String>) -> Solver {
        let (child, inp, out) = Self::spawn(&cmd, timeout_ms);
        let mut s = Solver {
            child, inp, out, cmd, exact, timeout_ms,
            declared: HashSet::new(), decl_uf: HashSet::new(), stack: vec![], buf: String::new(),
            stats: Stats { queries: 0, sat: 0, unsat: 0, unknown: 0, time: 0.0, model_hits: 0, max_query: 0.0 },
            log: log.map(|p| std::fs::File::create(p).unwrap()),
        };
        s.prelude();
        s
    }
    fn spawn(cmd: &[String], ms: u64) -> (Child, ChildStdin, BufReader<ChildStdout>) {
        let extra: Vec<String> = if cmd[0].contains("cvc5") { vec![format!("--tlimit-per={}", ms)] } else { vec![] };
        let mut ch = Command::new(&cmd[0]).args(&cmd[1..]).args(extra).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("solver");
        let i = ch.stdin.take().unwrap();
        let o = BufReader::new(ch.stdout.take().unwrap());
        (ch, i, o)
    }
    fn prelude(&mut self) {
        self.buf.push_str("(set-option :global-declarations true)\n");
        if self.cmd[0].contains("z3") {
            self.buf.push_str(&format!("(set-option :timeout {})\n", self.timeout_ms));
        }
        self.buf.push_str("(set-option :produce-models true)\n(set-logic ALL)\n");
    }
    pub fn restart(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let (c, i, o) = Self::spawn(&self.cmd, self.timeout_ms);
        self.child = c;
        self.inp = i;
        self.out = o;
        self.declared.clear();
        self.decl_uf.clear();
        self.stack.clear();
        self.buf.clear();
        self.prelude();
    }
    fn flush(&mut self) {
        if let Some(l) = &mut self.log { let _ = l.write_all(self.buf.as_bytes()); }
        let _ = self.inp.write_all(self.buf.as_bytes());
        let _ = self.inp.flush();
        self.buf.clear();
    }
    fn line(&mut self) -> String {
        let mut l = String::new();
        let _ = self.out.read_line(&mut l);
        l
    }
    fn r(&self, t: T) -> String {
        match node(t) {
            N::C(v) => cst(*v, width(t)),
            N::Var(id) => format!("v{}", id),
            _ => format!("t{}", t),
        }
    }
    /// boolean rendering of a width-1 term
    fn rb(&self, t: T) -> String {
        match node(t) {
            N::C(v) => if *v == 1 { "true".into() } else { "false".into() },
            _ => format!("(= {} #b1)", self.r(t)),
        }
    }
    fn fpv(&self, t: T) -> String {
        format!("((_ to_fp {}) {})", fpsort(width(t)), self.r(t))
    }
    fn decl_uf(&mut self, name: &str, args: &[u32], ret: u32) {
        if self.decl_uf.insert(name.to_string()) {
            let a: Vec<String> = args.iter().map(|w| bvs(*w)).collect();
            self.buf.push_str(&format!("(declare-fun {} ({}) {})\n", name, a.join(" "), bvs(ret)));
        }
    }
    pub fn declare(&mut self, root: T) {
        let mut st = vec![(root, false)];
        while let Some((t, done)) = st.pop() {
            if self.declared.contains(&t) { continue; }
            if !done {
                if matches!(node(t), N::C(_)) { continue; }
                st.push((t, true));
                for k in children(t) { st.push((k, false)); }
                continue;
            }
            self.declared.insert(t);
            let w = width(t);
            let body = match node(t) {
                N::C(_) => continue,
                N::Var(id) => {
                    self.buf.push_str(&format!("(declare-const v{} {})\n", id, bvs(w)));
                    continue;
                }
                N::Uf(id, args) => {
                    let (n, ws, rw) = ar().uf_info[*id as usize].clone();
                    let nn = format!("uf_{}", n);
                    self.decl_uf(&nn, &ws, rw);
                    let a: Vec<String> = args.iter().map(|x| self.r(*x)).collect();
                    format!("({} {})", nn, a.join(" "))
                }
                N::Fp(op, aw, args) => self.fp_body(*op, *aw, w, args),
                N::Not(a) => format!("(bvnot {})", self.r(*a)),
                N::Neg(a) => format!("(bvneg {})", self.r(*a)),
                N::Add(a, b) => format!("(bvadd {} {})", self.r(*a), self.r(*b)),
                N::Mul(a, b) => format!("(bvmul {} {})", self.r(*a), self.r(*b)),
                N::UDiv(a, b) => format!("(bvudiv {} {})", self.r(*a), self.r(*b)),
                N::SDiv(a, b) => format!("(bvsdiv {} {})", self.r(*a), self.r(*b)),
                N::URem(a, b) => format!("(bvurem {} {})", self.r(*a), self.r(*b)),
                N::SRem(a, b) => format!("(bvsrem {} {})", self.r(*a), self.r(*b)),
                N::And(a, b) => format!("(bvand {} {})", self.r(*a), self.r(*b)),
                N::Or(a, b) => format!("(bvor {} {})", self.r(*a), self.r(*b)),
                N::Xor(a, b) => format!("(bvxor {} {})", self.r(*a), self.r(*b)),
                N::Shl(a, b) => format!("(bvshl {} {})", self.r(*a), self.r(*b)),
                N::LShr(a, b) => format!("(bvlshr {} {})", self.r(*a), self.r(*b)),
                N::AShr(a, b) => format!("(bvashr {} {})", self.r(*a), self.r(*b)),
                N::Concat(a, b) => format!("(concat {} {})", self.r(*a), self.r(*b)),
                N::Extract(h, l, a) => format!("((_ extract {} {}) {})", h, l, self.r(*a)),
                N::ZExt(a) => format!("((_ zero_extend {}) {})", w - width(*a), self.r(*a)),
                N::SExt(a) => format!("((_ sign_extend {}) {})", w - width(*a), self.r(*a)),
                N::Ite(k, a, b) => format!("(ite {} {} {})", self.rb(*k), self.r(*a), self.r(*b)),
                N::Eq(a, b) | N::RawEq(a, b) => format!("(ite (= {} {}) #b1 #b0)", self.r(*a), self.r(*b)),
                N::Ult(a, b) => format!("(ite (bvult {} {}) #b1 #b0)", self.r(*a), self.r(*b)),
                N::Ule(a, b) => format!("(ite (bvule {} {}) #b1 #b0)", self.r(*a), self.r(*b)),
                N::Slt(a, b) => format!("(ite (bvslt {} {}) #b1 #b0)", self.r(*a), self.r(*b)),
                N::Sle(a, b) => format!("(ite (bvsle {} {}) #b1 #b0)", self.r(*a), self.r(*b)),
            };
            self.buf.push_str(&format!("(define-fun t{} () {} {})\n", t, bvs(w), body));
        }
    }
    fn fp_body(&mut self, op: FpOp, aw: u32, w: u32, args: &[T]) -> String {
        let exact_able = !matches!(op, FpOp::Lib(_) | FpOp::Rem);
        if self.exact && exact_able {
            let a = |i: usize| self.fpv(args[i]);
            let ie = |s: String| format!("(fp.to_ieee_bv {})", s);
            let pow2 = |k: u32| format!("((_ to_fp {}) RNE {}.0)", fpsort(aw), 1u128 << k);
            match op {
                FpOp::Add => ie(format!("(fp.add RNE {} {})", a(0), a(1))),
                FpOp::Sub => ie(format!("(fp.sub RNE {} {})", a(0), a(1))),
                FpOp::Mul => ie(format!("(fp.mul RNE {} {})", a(0), a(1))),
                FpOp::Div => ie(format!("(fp.div RNE {} {})", a(0), a(1))),
                FpOp::Fma => ie(format!("(fp.fma RNE {} {} {})", a(0), a(1), a(2))),
                FpOp::Sqrt => ie(format!("(fp.sqrt RNE {})", a(0))),
                FpOp::Floor => ie(format!("(fp.roundToIntegral RTN {})", a(0))),
                FpOp::Ceil => ie(format!("(fp.roundToIntegral RTP {})", a(0))),
                FpOp::Trunc => ie(format!("(fp.roundToIntegral RTZ {})", a(0))),
                FpOp::RoundAway => ie(format!("(fp.roundToIntegral RNA {})", a(0))),
                FpOp::RoundEven => ie(format!("(fp.roundToIntegral RNE {})", a(0))),
                FpOp::FromS(_) => ie(format!("((_ to_fp {}) RNE {})", fpsort(w), self.r(args[0]))),
                FpOp::FromU(_) => ie(format!("((_ to_fp_unsigned {}) RNE {})", fpsort(w), self.r(args[0]))),
                FpOp::Ext | FpOp::Narrow => ie(format!("((_ to_fp {}) RNE {})", fpsort(w), a(0))),
                FpOp::ToSSat(iw) => {
                    let x = a(0);
                    format!("(ite (fp.isNaN {x}) {z} (ite (fp.geq {x} {p}) {mx} (ite (fp.leq {x} (fp.neg {p})) {mn} ((_ fp.to_sbv {iw}) RTZ {x}))))",
                        x = x, z = cst(0, iw), p = pow2(iw - 1), mx = cst(mask(iw) >> 1, iw), mn = cst(1u128 << (iw - 1), iw), iw = iw)
                }
                FpOp::ToUSat(iw) => {
                    let x = a(0);
                    let one = pow2(0);
                    format!("(ite (or (fp.isNaN {x}) (fp.lt {x} {one})) {z} (ite (fp.geq {x} {p}) {mx} ((_ fp.to_ubv {iw}) RTZ {x})))",
                        x = x, one = one, z = cst(0, iw), p = if iw < 128 { pow2(iw) } else { pow2(127) }, mx = cst(mask(iw), iw), iw = iw)
                }
                _ => unreachable!(),
            }
        } else {
            let n = match op {
                FpOp::Lib(id) => format!("lib_{}_{}", ar().lib_names[id as usize], aw),
                _ => format!("fp_{:?}_{}_{}", op, aw, w).replace('(', "_").replace(')', ""),
            };
            let ws: Vec<u32> = args.iter().map(|x| width(*x)).collect();
            self.decl_uf(&n, &ws, w);
            let a: Vec<String> = args.iter().map(|x| self.r(*x)).collect();
            format!("({} {})", n, a.join(" "))
        }
    }
    fn sync(&mut self, pc: &[T]) {
        let mut k = 0;
        while k < self.stack.len() && k < pc.len() && self.stack[k] == pc[k] { k += 1; }
        if k < self.stack.len() {
            let n = self.stack.len() - k;
            self.buf.push_str(&format!("(pop {})\n", n));
            self.stack.truncate(k);
        }
        for i in k..pc.len() {
            self.declare(pc[i]);
            let s = self.rb(pc[i]);
            self.buf.push_str(&format!("(push 1)\n(assert {})\n", s));
            self.stack.push(pc[i]);
        }
    }
    /// is pc AND extra satisfiable? On Sat returns values for those terms of `want` the solver knows.
    pub fn check(&mut self, pc: &[T], extra: &[T], want: &[T]) -> (Res, Vec<Option<u128>>) { self.check2(pc, extra, want, false) }
    /// `full`: values for every term of `want`, also the ones nothing constrains
    pub fn check2(&mut self, pc: &[T], extra: &[T], want: &[T], full: bool) -> (Res, Vec<Option<u128>>) {
        if self.declared.len() > 30_000 { self.restart(); }
        self.sync(pc);
        for e in extra { self.declare(*e); }
        if full { for e in want { self.declare(*e); } }
        self.buf.push_str("(push 1)\n");
        for e in extra {
            let s = self.rb(*e);
            self.buf.push_str(&format!("(assert {})\n", s));
        }
        self.buf.push_str("(check-sat)\n");
        let t0 = Instant::now();
        self.flush();
        let l = self.line();
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1;
        self.stats.time += dt;
        if dt > self.stats.max_query { self.stats.max_query = dt; }
        let l = l.trim();
        let r = match l { "sat" => Res::Sat, "unsat" => Res::Unsat, _ => Res::Unknown };
        if l.starts_with("(error") || l.is_empty() {
            eprintln!("solver said: {:?}", l);
        }
        let mut vals = vec![];
        match r {
            Res::Sat => {
                self.stats.sat += 1;
                if !want.is_empty() {
                    let known: Vec<T> = want.iter().filter(|t| matches!(node(**t), N::C(_)) || self.declared.contains(*t)).cloned().collect();
                    let got = self.values(&known);
                    if got.len() == known.len() {
                        let mut i = 0;
                        for t in want {
                            if i < known.len() && known[i] == *t { vals.push(Some(got[i])); i += 1; } else { vals.push(None); }
                        }
                    } else {
                        vals = vec![None; want.len()];
                    }
                }
            }
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => {}
        }
        if r == Res::Unknown {
            return self.portfolio(pc, extra, want);
        } else {
            self.buf.push_str("(pop 1)\n");
        }
        (r, vals)
    }
    /// A query the incremental solver gave up on: the same query, from scratch, to several solvers at once.
    fn portfolio(&mut self, pc: &[T], extra: &[T], want: &[T]) -> (Res, Vec<Option<u128>>) {
        self.restart();
        self.buf.clear();
        for t in pc.iter().chain(extra).chain(want) { self.declare(*t); }
        for t in pc.iter().chain(extra) { let s = self.rb(*t); self.buf.push_str(&format!("(assert {})\n", s)); }
        self.buf.push_str("(check-sat)\n");
        for ch in want.chunks(200) {
            let names: Vec<String> = ch.iter().map(|t| self.r(*t)).collect();
            self.buf.push_str(&format!("(get-value ({}))\n", names.join(" ")));
        }
        let body = std::mem::take(&mut self.buf);
        self.restart();
        let secs = (self.timeout_ms * 5 / 2000).max(5);
        let t0 = Instant::now();
        let logic = if self.exact { "ALL" } else { "QF_UFBV" };
        let (tx, rx) = std::sync::mpsc::channel();
        let mut kids = vec![];
        for (cmd, lg) in [("z3-new -in", logic), ("cvc5 --lang smt2.6 -q", logic), ("z3 -in", logic), ("z3-new -in smt.random_seed=7", "ALL")] {
            let w: Vec<&str> = cmd.split(' ').collect();
            let lim = if w[0] == "cvc5" { format!("--tlimit={}", secs * 1000) } else { format!("-T:{}", secs) };
            let ch = Command::new(w[0]).arg(lim).args(&w[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
            let Ok(mut ch) = ch else { continue };
            let (mut i, mut o) = (ch.stdin.take().unwrap(), ch.stdout.take().unwrap());
            let text = format!("(set-option :produce-models true)\n(set-logic {})\n{}(exit)\n", lg, body);
            let tx = tx.clone();
            std::thread::spawn(move || { let _ = i.write_all(text.as_bytes()); });
            std::thread::spawn(move || { let mut s = String::new(); let _ = std::io::Read::read_to_string(&mut o, &mut s); let _ = tx.send(s); });
            kids.push(ch);
        }
        drop(tx);
        let mut ans = (Res::Unknown, vec![]);
        while let Ok(s) = rx.recv() {
            let (head, rest) = s.split_once('\n').unwrap_or((s.as_str(), ""));
            match head.trim() {
                "unsat" => { ans = (Res::Unsat, vec![]); break; }
                "sat" => {
                    let v = Self::parse(rest);
                    let v = if v.len() == want.len() { v.into_iter().map(Some).collect() } else { vec![None; want.len()] };
                    ans = (Res::Sat, v);
                    break;
                }
                _ => {}
            }
        }
        for mut k in kids { let _ = k.kill(); let _ = k.wait(); }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        self.stats.queries += 1;
        match ans.0 { Res::Sat => self.stats.sat += 1, Res::Unsat => self.stats.unsat += 1, Res::Unknown => self.stats.unknown += 1 }
        ans
    }
    pub fn want_declared(&mut self, t: T) {
        if self.declared.len() > 30_000 { self.restart(); }
        self.declare(t);
    }
    fn values(&mut self, want: &[T]) -> Vec<u128> {
        let mut out = Vec::new();
        for ch in want.chunks(200) {
            let names: Vec<String> = ch.iter().map(|t| self.r(*t)).collect();
            self.buf.push_str(&format!("(get-value ({}))\n", names.join(" ")));
            self.flush();
            // read balanced
            let mut s = String::new();
            let mut depth = 0i32;
            loop {
                let l = self.line();
                if l.is_empty() { break; }
                for b in l.bytes() {
                    if b == b'(' { depth += 1; }
                    if b == b')' { depth -= 1; }
                }
                s.push_str(&l);
                if depth <= 0 { break; }
            }
            out.extend(Self::parse(&s));
        }
        out
    }
    /// ((name val) (name val) ...); val is #x / #b
    fn parse(s: &str) -> Vec<u128> {
            let mut out = Vec::new();
            let toks: Vec<&str> = s.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|x| !x.is_empty()).collect();
            let mut i = 0;
            while i + 1 < toks.len() {
                let v = toks[i + 1];
                let val = if let Some(h) = v.strip_prefix("#x") { u128::from_str_radix(h, 16).unwrap_or(0) } else if let Some(b) = v.strip_prefix("#b") { u128::from_str_radix(b, 2).unwrap_or(0) } else { 0 };
                out.push(val);
                i += 2;
            }
            out
    }
}

impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

#[allow(dead_code)]
pub type Cache = HashMap<T, Res>;
