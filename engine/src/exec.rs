//! Path-forking symbolic interpreter for LLVM IR.
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::term as tm;
use crate::term::{Model, T};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::time::Instant;

pub struct Cfg {
    pub exact_fp: bool,
    pub time_limit: f64,
    pub path_steps: u64,
    pub qtimeout: u64,
    pub solver: Vec<String>,
    pub slice: Option<(u64, u64)>,
    pub smtlog: Option<String>,
    pub tier: u64,
    pub skip: Vec<u64>,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            exact_fp: false,
            time_limit: 300.0,
            path_steps: 50_000_000,
            qtimeout: 60_000,
            solver: vec!["z3-new".into(), "-in".into()],
            slice: None,
            smtlog: None,
            tier: 0,
            skip: vec![],
        }
    }
}

#[derive(Clone, Debug)]
pub enum Target {
    F(Rc<Func>),
    X(Rc<str>),
}

pub enum Stop {
    Unwind,
    Viol { kind: &'static str, id: u64, msg: String, cond: Option<T> },
    Unsup(String),
    Kill,
    Done,
    Switched, // control already transferred
}
pub type Rs<X> = Result<X, Stop>;

pub fn viol<X>(kind: &'static str, msg: String) -> Rs<X> {
    Err(Stop::Viol { kind, id: 0, msg, cond: None })
}
pub fn unsup<X>(msg: String) -> Rs<X> {
    Err(Stop::Unsup(msg))
}

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub bb: u32,
    pub ip: u32,
    pub prev: u32,
    pub regs: Vec<Val>,
    pub slots: Vec<u64>,
    /// the environment step before the current instruction has been taken
    pub stepped: bool,
}

#[derive(Clone, Debug)]
pub struct Input {
    pub var: T,
    pub kind: &'static str,
}

#[derive(Clone)]
pub struct State {
    pub fr: Vec<Frame>,
    pub mem: Mem,
    pub pc: Vec<T>,
    pub known: FxMap<u32, u128>,
    pub model: Option<Rc<Model>>,
    pub inputs: Vec<Input>,
    pub ufapps: Vec<T>,
    pub obl: Vec<(T, u64)>,
    pub steps: u64,
    pub npicks: u64,
    pub panics: u64,
    pub note: Vec<(u64, u128)>,
    pub alloc_events: u64,
    /// the running thread, the thread-local data of the others, and the function called before every access to shared globals
    pub thread: u64,
    pub pauses: u64,
    pub tls: HashMap<(u64, u64), Rc<Obj>>,
    pub env: u64,
}

/// values of the symbolic inputs in call order, and of the uninterpreted functions
pub type Inputs = (Vec<(String, u128)>, Vec<(String, Vec<u128>, u128)>);
pub struct Violation {
    pub kind: String,
    pub id: u64,
    pub msg: String,
    pub trace: Vec<String>,
    pub models: Vec<Inputs>,
    pub exact: String,
    pub notes: Vec<(u64, u128)>,
}

pub struct Exec {
    pub mods: Vec<Module>,
    pub cfg: Cfg,
    pub ext_funcs: HashMap<String, usize>,
    pub ext_globals: HashMap<String, usize>,
    pub funcs: HashMap<(usize, String), Rc<Func>>,
    pub faddr: HashMap<(usize, String), u64>,
    pub flist: Vec<(usize, String)>,
    pub gaddr: HashMap<(usize, String), u64>,
    pub glist: Vec<(usize, String)>,
    pub gobj: HashMap<u64, Rc<Obj>>,
    pub tls_slots: std::collections::BTreeSet<u64>,
    pub solver: Solver,
    pub exact: Option<Solver>,
    pub work: Vec<State>,
    pub t0: Instant,
    pub steps: u64,
    pub paths: u64,
    pub paths_unwound: u64,
    pub killed: u64,
    pub forks: u64,
    pub obligations: u64,
    pub obl_concrete: u64,
    pub obl_queries: u64,
    pub reach: BTreeMap<u64, u64>,
    pub used: BTreeMap<String, u64>,
    pub exts: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub error: Option<String>,
    pub samples: Vec<String>,
    pub sample_models: Vec<Inputs>,
    pub vars: HashMap<(u32, u32), T>,
    pub fakevt: u64,
    pub max_inputs: usize,
    pub spurious: u64,
}

fn demangle_simple(s: &str) -> String {
    s.to_string()
}

impl Exec {
    pub fn new(mods: Vec<Module>, cfg: Cfg) -> Exec {
        let mut ext_funcs = HashMap::new();
        let mut ext_globals = HashMap::new();
        for (i, m) in mods.iter().enumerate() {
            for n in m.funcs.keys() {
                if !m.internal[n] {
                    ext_funcs.entry(n.clone()).or_insert(i);
                }
            }
            for n in m.globals.keys() {
                if !m.internal[n] {
                    let (a, b) = m.globals[n];
                    if !m.text[a..b].contains("= external") {
                        ext_globals.insert(n.clone(), i);
                    }
                }
            }
        }
        let solver = Solver::new(cfg.solver.clone(), cfg.exact_fp, cfg.qtimeout, cfg.smtlog.clone());
        Exec {
            mods, cfg, ext_funcs, ext_globals,
            funcs: HashMap::new(), faddr: HashMap::new(), flist: vec![], gaddr: HashMap::new(), glist: vec![], gobj: HashMap::new(), tls_slots: Default::default(),
            solver, exact: None, work: vec![], t0: Instant::now(), steps: 0, paths: 0, paths_unwound: 0, killed: 0, forks: 0,
            obligations: 0, obl_concrete: 0, obl_queries: 0,
            reach: BTreeMap::new(), used: BTreeMap::new(), exts: BTreeMap::new(), violations: vec![], error: None, samples: vec![], sample_models: vec![],
            vars: HashMap::new(), fakevt: 0, max_inputs: 0, spurious: 0,
        }
    }
    pub fn kill(&mut self) {
        self.exact = None;
    }

    // ---------------------------------------------------------- symbols
    pub fn resolve(&mut self, module: usize, name: &str) -> Rs<Target> {
        let m = if self.mods[module].funcs.contains_key(name) {
            module
        } else if let Some(i) = self.ext_funcs.get(name) {
            *i
        } else {
            return Ok(Target::X(Rc::from(name)));
        };
        if crate::ext::overridden(name) {
            return Ok(Target::X(Rc::from(name)));
        }
        let key = (m, name.to_string());
        if let Some(f) = self.funcs.get(&key) {
            return Ok(Target::F(f.clone()));
        }
        match self.mods[m].parse_func(m, name) {
            Ok(f) => {
                let f = Rc::new(f);
                self.funcs.insert(key, f.clone());
                Ok(Target::F(f))
            }
            Err(e) => {
                if e.contains("inline asm") {
                    return Ok(Target::X(Rc::from(name)));
                }
                unsup(format!("parse {}: {}", name, e))
            }
        }
    }
    pub fn func_addr(&mut self, module: usize, name: &str) -> u64 {
        let m = if self.mods[module].funcs.contains_key(name) { module } else { *self.ext_funcs.get(name).unwrap_or(&module) };
        let key = (m, name.to_string());
        if let Some(a) = self.faddr.get(&key) {
            return *a;
        }
        let a = FBASE + (self.flist.len() as u64 + 1) * 16;
        self.flist.push(key.clone());
        self.faddr.insert(key, a);
        a
    }
    pub fn global_addr(&mut self, module: usize, name: &str) -> Rs<u64> {
        let m = if self.mods[module].globals.contains_key(name) {
            let (a, b) = self.mods[module].globals[name];
            if self.mods[module].text[a..b].contains("= external") {
                match self.ext_globals.get(name) {
                    Some(i) => *i,
                    None => {
                        // unknown external datum: opaque, unreadable
                        module
                    }
                }
            } else {
                module
            }
        } else if let Some(i) = self.ext_globals.get(name) {
            *i
        } else {
            return Ok(self.func_addr(module, name));
        };
        let key = (m, name.to_string());
        if let Some(a) = self.gaddr.get(&key) {
            return Ok(*a);
        }
        let g = match self.mods[m].parse_global(m, name) {
            Ok(g) => g,
            Err(e) => return unsup(format!("global {}: {}", name, e)),
        };
        let slot = (GBASE >> SLOT) + self.glist.len() as u64 + 1;
        let base = (slot << SLOT) + g.align.max(1);
        self.glist.push(key.clone());
        self.gaddr.insert(key, base);
        let sz = g.ty.size() as usize;
        let mut o = Obj { base, bytes: vec![UNINIT; sz], kind: if g.constant { Kind::Const } else { Kind::Global }, align: g.align };
        if let Some(init) = &g.init {
            self.fill(m, &mut o, 0, &g.ty, init)?;
        }
        self.gobj.insert(slot, Rc::new(o));
        if g.tls {
            self.tls_slots.insert(slot);
        }
        Ok(base)
    }
    fn fill(&mut self, m: usize, o: &mut Obj, off: usize, ty: &Ty, c: &Cst) -> Rs<()> {
        match (c, ty) {
            (Cst::Undef, _) => {}
            (Cst::Zero, _) => {
                for i in 0..ty.size() as usize {
                    o.bytes[off + i] = conc(0);
                }
            }
            (Cst::Bytes(b), _) => {
                for (i, x) in b.iter().enumerate() {
                    o.bytes[off + i] = conc(*x);
                }
            }
            (Cst::Agg(v), _) => {
                for (i, (t, x)) in v.iter().enumerate() {
                    let (fo, _) = ty.field(i as u64);
                    self.fill(m, o, off + fo as usize, t, x)?;
                }
            }
            _ => {
                let v = self.cst(m, c, ty)?;
                store_bytes(o, off, ty.size() as usize, &v);
            }
        }
        Ok(())
    }
    pub fn cst(&mut self, m: usize, c: &Cst, ty: &Ty) -> Rs<Val> {
        Ok(match c {
            Cst::Int(v) => Val::I(*v),
            Cst::Null => Val::I(0),
            Cst::Undef => match ty {
                Ty::Struct(ts, _) => {
                    let ts = ts.clone();
                    Val::Agg(Rc::new(ts.iter().map(|t| self.cst(m, c, t)).collect::<Rs<Vec<_>>>()?))
                }
                Ty::Arr(n, t) | Ty::Vec(n, t) => {
                    let x = self.cst(m, c, &t.clone())?;
                    Val::Agg(Rc::new(vec![x; *n as usize]))
                }
                _ => Val::Undef,
            },
            Cst::Zero => match ty {
                Ty::Struct(ts, _) => {
                    let ts = ts.clone();
                    Val::Agg(Rc::new(ts.iter().map(|t| self.cst(m, c, t)).collect::<Rs<Vec<_>>>()?))
                }
                Ty::Arr(n, t) | Ty::Vec(n, t) => {
                    let x = self.cst(m, c, &t.clone())?;
                    Val::Agg(Rc::new(vec![x; *n as usize]))
                }
                _ => Val::I(0),
            },
            Cst::Global(n) => Val::I(self.global_addr(m, n)? as u128),
            Cst::Bytes(b) => Val::Agg(Rc::new(b.iter().map(|x| Val::I(*x as u128)).collect())),
            Cst::Agg(v) => Val::Agg(Rc::new(v.iter().map(|(t, x)| self.cst(m, x, t)).collect::<Rs<Vec<_>>>()?)),
            Cst::Gep(g) => {
                let base = match self.cst(m, &g.1, &Ty::Ptr)? {
                    Val::I(v) => v as u64,
                    _ => return unsup("const gep".into()),
                };
                let mut a = base;
                let mut t = g.0.clone();
                for (k, ix) in g.2.iter().enumerate() {
                    let iv = match ix {
                        Cst::Int(v) => *v as u64,
                        _ => return unsup("const gep idx".into()),
                    };
                    if k == 0 {
                        a = a.wrapping_add(iv.wrapping_mul(t.size()));
                    } else {
                        let (o, nt) = match &t {
                            Ty::Struct(..) => t.field(iv),
                            Ty::Arr(_, e) => (iv.wrapping_mul(e.size()), (**e).clone()),
                            _ => return unsup("const gep ty".into()),
                        };
                        a = a.wrapping_add(o);
                        t = nt;
                    }
                }
                Val::I(a as u128)
            }
            Cst::Add(p) | Cst::Sub(p) => {
                let a = self.cst(m, &p.0, ty)?;
                let b = self.cst(m, &p.1, ty)?;
                match (a, b) {
                    (Val::I(x), Val::I(y)) => Val::I(if matches!(c, Cst::Add(_)) { x.wrapping_add(y) } else { x.wrapping_sub(y) } & tm::mask(ty.bits())),
                    _ => return unsup("const expr".into()),
                }
            }
        })
    }

    // ---------------------------------------------------------- values
    pub fn val(&mut self, st: &State, o: &Op, ty: &Ty) -> Rs<Val> {
        match o {
            Op::Reg(r) => {
                let f = st.fr.last().unwrap();
                Ok(f.regs[*r as usize].clone())
            }
            Op::C(Cst::Int(v)) => Ok(Val::I(*v)),
            Op::C(Cst::Null) => Ok(Val::I(0)),
            Op::C(c) => {
                let m = st.fr.last().unwrap().f.module;
                self.cst(m, c, ty)
            }
        }
    }
    pub fn term(v: &Val, w: u32) -> Rs<T> {
        match v {
            Val::I(x) => Ok(tm::c(*x, w)),
            Val::S(t) => Ok(*t),
            Val::Undef | Val::Part(_) => viol("uninit", "use of an uninitialised value".into()),
            Val::Agg(_) => unsup("aggregate as scalar".into()),
        }
    }
    pub fn back(t: T) -> Val {
        match tm::cval(t) {
            Some(v) => Val::I(v),
            None => Val::S(t),
        }
    }

    // ---------------------------------------------------------- path condition
    fn wants(&self, st: &State) -> Vec<T> {
        let mut w: Vec<T> = st.inputs.iter().map(|i| i.var).collect();
        for u in &st.ufapps {
            w.push(*u);
            for a in tm::children(*u) {
                w.push(a);
            }
        }
        w
    }
    fn build_model(&self, st: &State, vals: &[Option<u128>]) -> Model {
        let mut m = Model { vars: HashMap::new(), ufs: HashMap::new() };
        let mut k = 0;
        for i in &st.inputs {
            if let tm::N::Var(id) = tm::node(i.var) {
                if let Some(Some(v)) = vals.get(k) {
                    m.vars.insert(*id, *v);
                }
            }
            k += 1;
        }
        for u in &st.ufapps {
            let n = tm::children(*u).len();
            if k + n < vals.len() + 0 {
                let all: Option<Vec<u128>> = vals[k..k + 1 + n].iter().cloned().collect();
                if let (tm::N::Uf(id, _), Some(a)) = (tm::node(*u), all) {
                    m.ufs.insert((*id, a[1..].to_vec()), a[0]);
                }
            }
            k += 1 + n;
        }
        m
    }
    pub fn query(&mut self, st: &State, extra: &[T]) -> Rs<Option<Rc<Model>>> {
        let w = self.wants(st);
        let (r, vals) = self.solver.check(&st.pc, extra, &w);
        match r {
            Res::Sat => Ok(Some(Rc::new(self.build_model(st, &vals)))),
            Res::Unsat => Ok(None),
            Res::Unknown => unsup("solver returned unknown/timeout on a feasibility query".into()),
        }
    }
    pub fn add_pc(&mut self, st: &mut State, t: T) {
        if tm::cval(t) == Some(1) {
            return;
        }
        st.known.insert(t, 1);
        match *tm::node(t) {
            tm::N::Eq(a, b) => {
                if let Some(v) = tm::cval(b) {
                    st.known.insert(a, v);
                }
            }
            tm::N::Not(a) => {
                st.known.insert(a, 0);
            }
            _ => {}
        }
        st.pc.push(t);
    }
    /// decide a width-1 term on this path, forking when both outcomes are feasible
    pub fn decide(&mut self, st: &mut State, t: T) -> Rs<bool> {
        if let Some(v) = tm::cval(t) {
            return Ok(v == 1);
        }
        if let Some(v) = st.known.get(&t) {
            return Ok(*v == 1);
        }
        let nt = tm::not(t);
        if let Some(v) = st.known.get(&nt) {
            return Ok(*v == 0);
        }
        let mut known_side: Option<bool> = None;
        if let Some(m) = &st.model {
            let mut memo = HashMap::new();
            if let Some(v) = tm::eval(t, m, &mut memo) {
                known_side = Some(v == 1);
                self.solver.stats.model_hits += 1;
            }
        }
        let (first, m1) = match known_side {
            Some(s) => (s, st.model.clone()),
            None => match self.query(st, &[t])? {
                Some(m) => (true, Some(m)),
                None => {
                    self.add_pc(st, nt);
                    return Ok(false);
                }
            },
        };
        let other = if first { nt } else { t };
        match self.query(st, &[other])? {
            Some(m2) => {
                self.forks += 1;
                let mut s2 = st.clone();
                self.add_pc(&mut s2, other);
                s2.model = Some(m2);
                self.work.push(s2);
            }
            None => {}
        }
        self.add_pc(st, if first { t } else { nt });
        st.model = m1;
        Ok(first)
    }
    /// force a value to be concrete, forking over every feasible value
    pub fn concretize(&mut self, st: &mut State, v: &Val, w: u32) -> Rs<u128> {
        let t = match v {
            Val::I(x) => return Ok(*x),
            Val::Undef | Val::Part(_) => return viol("uninit", "use of an uninitialised value".into()),
            Val::Agg(_) => return unsup("concretize aggregate".into()),
            Val::S(t) => *t,
        };
        let _ = w;
        if let Some(x) = st.known.get(&t) {
            return Ok(*x);
        }
        let mut vals: Vec<(u128, Rc<Model>)> = vec![];
        let mut extra: Vec<T> = vec![];
        loop {
            let mut want = vec![t];
            want.extend(self.wants(st));
            self.solver.want_declared(t);
            let (r, got) = self.solver.check(&st.pc, &extra, &want);
            match r {
                Res::Unsat => break,
                Res::Unknown => return unsup("solver unknown while enumerating values".into()),
                Res::Sat => {
                    let x = match got[0] { Some(x) => x, None => return unsup("no value from the solver".into()) };
                    let m = Rc::new(self.build_model(st, &got[1..]));
                    extra.push(tm::ne(t, tm::c(x, tm::width(t))));
                    vals.push((x, m));
                    if vals.len() > 70_000 {
                        return unsup("more than 70000 feasible values for one address or size".into());
                    }
                }
            }
            if self.t0.elapsed().as_secs_f64() > self.cfg.time_limit {
                return unsup("time limit".into());
            }
        }
        if vals.is_empty() {
            return Err(Stop::Kill);
        }
        vals.sort_by_key(|v| v.0);
        for (x, m) in vals.iter().skip(1).rev() {
            self.forks += 1;
            let mut s2 = st.clone();
            let eqt = tm::eq(t, tm::c(*x, tm::width(t)));
            self.add_pc(&mut s2, eqt);
            s2.known.insert(t, *x);
            s2.model = Some(m.clone());
            self.work.push(s2);
        }
        let (x, m) = vals[0].clone();
        let eqt = tm::eq(t, tm::c(x, tm::width(t)));
        self.add_pc(st, eqt);
        st.known.insert(t, x);
        st.model = Some(m);
        Ok(x)
    }

    // ---------------------------------------------------------- memory access
    pub fn locate<'a>(&'a mut self, st: &'a mut State, addr: u64, n: u64, what: &str, write: bool) -> Rs<(u64, usize)> {
        let slot = slot_of(addr);
        if !st.mem.objs.contains_key(&slot) {
            if let Some(o) = self.gobj.get(&slot) {
                st.mem.objs.insert(slot, o.clone());
            }
        }
        match st.mem.objs.get(&slot) {
            None => {
                if n == 0 {
                    return Ok((u64::MAX, 0));
                }
                if addr < 0x1_0000 {
                    return viol("null-deref", format!("{} of {} bytes at dangling/null address {:#x}", what, n, addr));
                }
                if slot < st.mem.next && slot >= (BASE >> SLOT) {
                    return viol("use-after-free", format!("{} of {} bytes through a dangling pointer", what, n));
                }
                viol("out-of-bounds", format!("{} of {} bytes at wild address {:#x}", what, n, addr))
            }
            Some(o) => {
                let off = addr.wrapping_sub(o.base);
                if n == 0 {
                    return Ok((slot, 0));
                }
                if addr < o.base || off > o.bytes.len() as u64 || off + n > o.bytes.len() as u64 {
                    let d = addr as i64 - o.base as i64;
                    return viol("out-of-bounds", format!("{} of {} bytes at offset {} of a {}-byte {:?} object", what, n, d, o.bytes.len(), o.kind));
                }
                if write && o.kind == Kind::Const {
                    return viol("write-const", format!("{} to constant memory", what));
                }
                Ok((slot, off as usize))
            }
        }
    }
    fn check_align(&self, addr: u64, align: u64, what: &str) -> Rs<()> {
        if align > 1 && addr % align != 0 {
            return viol("misaligned", format!("{} at misaligned address (needs {})", what, align));
        }
        Ok(())
    }
    pub fn load(&mut self, st: &mut State, ty: &Ty, addr: u64) -> Rs<Val> {
        match ty {
            Ty::Struct(ts, _) => {
                let mut v = vec![];
                for i in 0..ts.len() {
                    let (o, t) = ty.field(i as u64);
                    v.push(self.load(st, &t, addr + o)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                let mut v = vec![];
                let s = t.size();
                for i in 0..*n {
                    v.push(self.load(st, t, addr + i * s)?);
                }
                Ok(Val::Agg(Rc::new(v)))
            }
            _ => {
                let n = ty.size();
                let (slot, off) = self.locate(st, addr, n, "read", false)?;
                let o = &st.mem.objs[&slot];
                let v = load_bytes(o, off, n as usize);
                // sub-byte integers
                if let Ty::Int(w) = ty {
                    if *w as u64 != n * 8 {
                        return Ok(match v {
                            Val::I(x) => Val::I(x & tm::mask(*w)),
                            Val::S(t) => Self::back(tm::extract(*w - 1, 0, t)),
                            x => x,
                        });
                    }
                }
                Ok(v)
            }
        }
    }
    pub fn store(&mut self, st: &mut State, ty: &Ty, v: &Val, addr: u64) -> Rs<()> {
        match (ty, v) {
            (Ty::Struct(ts, _), Val::Agg(a)) => {
                for i in 0..ts.len() {
                    let (o, t) = ty.field(i as u64);
                    self.store(st, &t, &a[i], addr + o)?;
                }
                Ok(())
            }
            (Ty::Arr(n, t), Val::Agg(a)) | (Ty::Vec(n, t), Val::Agg(a)) => {
                for i in 0..*n {
                    self.store(st, t, &a[i as usize], addr + i * t.size())?;
                }
                Ok(())
            }
            _ => {
                let n = ty.size();
                let (slot, off) = self.locate(st, addr, n, "write", true)?;
                let o = Rc::make_mut(st.mem.objs.get_mut(&slot).unwrap());
                store_bytes(o, off, n as usize, v);
                Ok(())
            }
        }
    }
    pub fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> Rs<()> {
        if n == 0 {
            return Ok(());
        }
        let (ss, so) = self.locate(st, src, n, "read", false)?;
        let (ds, dof) = self.locate(st, dst, n, "write", true)?;
        let tmp: Vec<B> = st.mem.objs[&ss].bytes[so..so + n as usize].to_vec();
        let o = Rc::make_mut(st.mem.objs.get_mut(&ds).unwrap());
        o.bytes[dof..dof + n as usize].copy_from_slice(&tmp);
        Ok(())
    }
    pub fn byte_term(&mut self, st: &mut State, addr: u64) -> Rs<T> {
        let v = self.load(st, &Ty::Int(8), addr)?;
        Self::term(&v, 8)
    }

    // ---------------------------------------------------------- control
    fn set(st: &mut State, r: u32, v: Val) {
        let f = st.fr.last_mut().unwrap();
        f.regs[r as usize] = v;
    }
    fn adv(st: &mut State) {
        let fr = st.fr.last_mut().unwrap();
        fr.ip += 1;
        fr.stepped = false;
    }
    fn jump(&mut self, st: &mut State, b: u32) -> Rs<()> {
        let (f, cur) = {
            let fr = st.fr.last_mut().unwrap();
            let cur = fr.bb;
            fr.prev = cur;
            fr.bb = b;
            fr.ip = 0;
            (fr.f.clone(), cur)
        };
        // phis in parallel
        let blk = &f.blocks[b as usize];
        let mut upd = vec![];
        let mut k = 0;
        while let Some(I::Phi { dst, ty, inc }) = blk.get(k) {
            let (o, _) = inc.iter().find(|(_, l)| *l == cur).ok_or_else(|| Stop::Unsup("phi".into()))?;
            upd.push((*dst, self.val(st, o, ty)?));
            k += 1;
        }
        for (d, v) in upd {
            Self::set(st, d, v);
        }
        st.fr.last_mut().unwrap().ip = k as u32;
        Ok(())
    }
    pub fn push_frame(&mut self, st: &mut State, f: Rc<Func>, args: Vec<Val>) -> Rs<()> {
        if st.fr.len() > 400 {
            return viol("stack-overflow", "call depth exceeds 400".into());
        }
        let mut regs = vec![Val::Undef; f.nregs as usize];
        for ((_, r), v) in f.params.iter().zip(args.into_iter()) {
            regs[*r as usize] = v;
        }
        match self.used.get_mut(&*f.name) {
            Some(n) => *n += 1,
            None => {
                self.used.insert(f.name.to_string(), 1);
            }
        }
        st.fr.push(Frame { f, bb: 0, ip: 0, prev: 0, regs, slots: vec![], stepped: false });
        Ok(())
    }
    fn pop_frame(&mut self, st: &mut State) {
        let fr = st.fr.pop().unwrap();
        for s in fr.slots {
            st.mem.objs.remove(&s);
        }
    }
    /// before an access to a shared global: let the environment (other threads) run; true when it has been called
    fn env_step(&mut self, st: &mut State, a: u64) -> Rs<bool> {
        let slot = slot_of(a);
        if slot < (GBASE >> SLOT) || slot >= (BASE >> SLOT) || self.tls_slots.contains(&slot) {
            return Ok(false);
        }
        match self.gobj.get(&slot) {
            Some(o) if o.kind == Kind::Global => {}
            _ => return Ok(false),
        }
        let fr = st.fr.last_mut().unwrap();
        if fr.stepped {
            return Ok(false);
        }
        fr.stepped = true;
        let k = ((st.env - FBASE) / 16 - 1) as usize;
        let (m, n) = self.flist[k].clone();
        match self.resolve(m, &n)? {
            Target::F(f) => self.push_frame(st, f, vec![])?,
            _ => return unsup("environment function".into()),
        }
        Ok(true)
    }
    pub fn switch_thread(&mut self, st: &mut State, k: u64) {
        let cur = st.thread;
        let slots: Vec<u64> = self.tls_slots.iter().cloned().collect();
        for s in slots {
            if let Some(o) = st.mem.objs.remove(&s) {
                st.tls.insert((cur, s), o);
            }
            if let Some(o) = st.tls.remove(&(k, s)) {
                st.mem.objs.insert(s, o);
            }
        }
        st.thread = k;
    }
    /// the current instruction of the top frame is a call that has now produced `v`
    pub fn finish_call(&mut self, st: &mut State, v: Val) -> Rs<()> {
        let fr = st.fr.last_mut().unwrap();
        let f = fr.f.clone();
        if let I::Call(c) = &f.blocks[fr.bb as usize][fr.ip as usize] {
            if let Some(d) = c.dst {
                fr.regs[d as usize] = v;
            }
            match c.normal {
                Some(b) => self.jump(st, b),
                None => {
                    fr.ip += 1;
                    Ok(())
                }
            }
        } else {
            unsup("finish_call".into())
        }
    }
    /// unwind to the nearest landing pad
    fn unwind(&mut self, st: &mut State) -> Rs<()> {
        loop {
            if st.fr.is_empty() {
                return viol("panic", "panic escapes the harness".into());
            }
            let fr = st.fr.last().unwrap();
            if let I::Call(c) = &fr.f.blocks[fr.bb as usize][fr.ip as usize] {
                if let Some(b) = c.unwind {
                    return self.jump(st, b);
                }
            }
            if st.fr.len() == 1 {
                return viol("panic", "panic escapes the harness".into());
            }
            self.pop_frame(st);
        }
    }
    fn addr(&mut self, st: &mut State, o: &Op) -> Rs<u64> {
        let v = self.val(st, o, &Ty::Ptr)?;
        match v {
            Val::I(x) => Ok(x as u64),
            _ => Ok(self.concretize(st, &v, 64)? as u64),
        }
    }

    fn step(&mut self, st: &mut State) -> Rs<()> {
        let (f, bb, ip) = {
            let fr = st.fr.last().unwrap();
            (fr.f.clone(), fr.bb, fr.ip)
        };
        let ins = &f.blocks[bb as usize][ip as usize];
        match ins {
            I::Nop => Self::adv(st),
            I::Alloca { dst, ty, n, align } => {
                let mut sz = ty.size();
                if let Some((t, o)) = n {
                    let v = self.val(st, o, t)?;
                    sz *= self.concretize(st, &v, 64)? as u64;
                }
                let a = st.mem.alloc(sz, *align, Kind::Stack);
                st.fr.last_mut().unwrap().slots.push(slot_of(a));
                Self::set(st, *dst, Val::I(a as u128));
                Self::adv(st);
            }
            I::Load { dst, ty, p, noundef, align } => {
                let a = self.addr(st, p)?;
                if st.env != 0 && self.env_step(st, a)? {
                    return Ok(());
                }
                if ty.size() > 0 {
                    self.check_align(a, *align, "read")?;
                }
                let v = self.load(st, ty, a)?;
                if *noundef && matches!(v, Val::Undef | Val::Part(_)) {
                    return viol("uninit", "read of uninitialised memory".into());
                }
                Self::set(st, *dst, v);
                Self::adv(st);
            }
            I::Store { ty, v, p, align } => {
                let x = self.val(st, v, ty)?;
                let a = self.addr(st, p)?;
                if st.env != 0 && self.env_step(st, a)? {
                    return Ok(());
                }
                if ty.size() > 0 {
                    self.check_align(a, *align, "write")?;
                }
                self.store(st, ty, &x, a)?;
                Self::adv(st);
            }
            I::Gep { dst, ty, p, idx } => {
                let base = self.val(st, p, &Ty::Ptr)?;
                let mut cst: u64 = 0;
                let mut sym: Option<T> = None;
                match base {
                    Val::I(x) => cst = x as u64,
                    Val::S(t) => sym = Some(t),
                    Val::Undef | Val::Part(_) => {
                        Self::set(st, *dst, Val::Undef);
                        Self::adv(st);
                        return Ok(());
                    }
                    _ => return unsup("gep base".into()),
                }
                let mut t = ty.clone();
                for (k, (it, io)) in idx.iter().enumerate() {
                    let iv = self.val(st, io, it)?;
                    let scale;
                    if k == 0 {
                        scale = t.size();
                    } else {
                        match &t {
                            Ty::Struct(..) => {
                                if let Val::I(x) = iv {
                                    let (o, nt) = t.field(x as u64);
                                    cst = cst.wrapping_add(o);
                                    t = nt;
                                    continue;
                                }
                                return unsup("gep struct idx".into());
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = e.size();
                                t = (**e).clone();
                            }
                            _ => return unsup("gep type".into()),
                        }
                    }
                    match iv {
                        Val::I(x) => {
                            let s = tm::sx(x, it.bits()) as u64;
                            cst = cst.wrapping_add(s.wrapping_mul(scale));
                        }
                        Val::S(x) => {
                            let x = tm::sext(x, 64);
                            let m = tm::mul(x, tm::c(scale as u128, 64));
                            sym = Some(match sym {
                                None => m,
                                Some(s) => tm::add(s, m),
                            });
                        }
                        Val::Undef | Val::Part(_) => return viol("uninit", "pointer arithmetic on an uninitialised value".into()),
                        _ => return unsup("gep idx".into()),
                    }
                }
                let r = match sym {
                    None => Val::I(cst as u128),
                    Some(s) => Self::back(tm::add(s, tm::c(cst as u128, 64))),
                };
                Self::set(st, *dst, r);
                Self::adv(st);
            }
            I::Bin { dst, op, ty, a, b, .. } => {
                let x = self.val(st, a, ty)?;
                let y = self.val(st, b, ty)?;
                let r = self.bin(*op, ty, &x, &y)?;
                Self::set(st, *dst, r);
                Self::adv(st);
            }
            I::FNeg { dst, ty, a } => {
                let x = self.val(st, a, ty)?;
                let r = match &x {
                    Val::Undef | Val::Part(_) => Val::Undef,
                    Val::Agg(a) => match ty {
                        Ty::Vec(_, t) => Val::Agg(Rc::new(a.iter().map(|x| match x { Val::Undef | Val::Part(_) => Ok(Val::Undef), _ => Ok(Self::back(tm::f_neg(Self::term(x, t.bits())?))) }).collect::<Rs<Vec<_>>>()?)),
                        _ => return unsup("aggregate fneg".into()),
                    },
                    _ => Self::back(tm::f_neg(Self::term(&x, ty.bits())?)),
                };
                Self::set(st, *dst, r);
                Self::adv(st);
            }
            I::Icmp { dst, p, ty, a, b } => {
                let x = self.val(st, a, ty)?;
                let y = self.val(st, b, ty)?;
                let r = Self::icmp(*p, ty, &x, &y)?;
                Self::set(st, *dst, r);
                Self::adv(st);
            }
            I::Fcmp { dst, p, ty, a, b } => {
                let x = self.val(st, a, ty)?;
                let y = self.val(st, b, ty)?;
                let r = Self::fcmp(*p, ty, &x, &y)?;
                Self::set(st, *dst, r);
                Self::adv(st);
            }
            I::Cast { dst, c, from, a, to } => {
                let x = self.val(st, a, from)?;
                let r = self.cast(*c, from, &x, to)?;
                Self::set(st, *dst, r);
                Self::adv(st);
            }
            I::Select { dst, c, ty, a, b } => {
                let cv = self.val(st, c, &Ty::Int(1))?;
                let x = self.val(st, a, ty)?;
                let y = self.val(st, b, ty)?;
                let r = match cv {
                    Val::I(v) => if v == 1 { x } else { y },
                    Val::Undef | Val::Part(_) => return viol("uninit", "select on an uninitialised value".into()),
                    Val::S(t) => match (&x, &y) {
                        (Val::I(_) | Val::S(_), Val::I(_) | Val::S(_)) => {
                            let w = ty.bits();
                            Self::back(tm::ite(t, Self::term(&x, w)?, Self::term(&y, w)?))
                        }
                        _ => if self.decide(st, t)? { x } else { y },
                    },
                    _ => return unsup("vector select".into()),
                };
                Self::set(st, *dst, r);
                Self::adv(st);
            }
            I::ExtractV { dst, ty, a, idx } => {
                let mut x = self.val(st, a, ty)?;
                for i in idx {
                    x = match x {
                        Val::Agg(v) => v[*i as usize].clone(),
                        Val::Undef => Val::Undef,
                        _ => return unsup("extractvalue".into()),
                    };
                }
                Self::set(st, *dst, x);
                Self::adv(st);
            }
            I::InsertV { dst, ty, a, vty, v, idx } => {
                let x = self.val(st, a, ty)?;
                let y = self.val(st, v, vty)?;
                if idx.len() != 1 {
                    return unsup("nested insertvalue".into());
                }
                let mut vs = match x {
                    Val::Agg(v) => (*v).clone(),
                    _ => return unsup("insertvalue".into()),
                };
                vs[idx[0] as usize] = y;
                Self::set(st, *dst, Val::Agg(Rc::new(vs)));
                Self::adv(st);
            }
            I::ExtractE { dst, a, idx } => {
                let x = self.val(st, a, &Ty::Other)?;
                let i = self.val(st, idx, &Ty::Int(64))?;
                let i = self.concretize(st, &i, 64)?;
                let r = match x {
                    Val::Agg(v) => v[i as usize].clone(),
                    _ => return unsup("extractelement".into()),
                };
                Self::set(st, *dst, r);
                Self::adv(st);
            }
            I::InsertE { dst, ty, a, v, idx } => {
                let x = self.val(st, a, ty)?;
                let et = match ty {
                    Ty::Vec(_, t) => (**t).clone(),
                    _ => return unsup("insertelement".into()),
                };
                let y = self.val(st, v, &et)?;
                let i = self.val(st, idx, &Ty::Int(64))?;
                let i = self.concretize(st, &i, 64)?;
                let mut vs = match (x, ty) {
                    (Val::Agg(v), _) => (*v).clone(),
                    (Val::Undef, Ty::Vec(n, _)) => vec![Val::Undef; *n as usize],
                    _ => return unsup("insertelement".into()),
                };
                vs[i as usize] = y;
                Self::set(st, *dst, Val::Agg(Rc::new(vs)));
                Self::adv(st);
            }
            I::Shuffle { dst, ty, a, b, mask } => {
                let x = self.val(st, a, ty)?;
                let y = self.val(st, b, ty)?;
                let m = match mask {
                    Op::C(Cst::Agg(v)) => v.iter().map(|(_, c)| if let Cst::Int(k) = c { Some(*k as usize) } else { None }).collect::<Vec<_>>(),
                    Op::C(Cst::Zero) => return unsup("shuffle zero".into()),
                    _ => return unsup("shuffle".into()),
                };
                let lanes = |v: Val| match (v, ty) { (Val::Undef, Ty::Vec(n, _)) => Val::Agg(Rc::new(vec![Val::Undef; *n as usize])), (v, _) => v };
                if let (Val::Agg(x), Val::Agg(y)) = (lanes(x), lanes(y)) {
                    let n = x.len();
                    let r = m.iter().map(|k| match k {
                        None => Val::Undef,
                        Some(k) => if *k < n { x[*k].clone() } else { y[*k - n].clone() },
                    }).collect();
                    Self::set(st, *dst, Val::Agg(Rc::new(r)));
                    Self::adv(st);
                } else {
                    return unsup("shuffle".into());
                }
            }
            I::Phi { .. } => return unsup("phi in entry".into()),
            I::Freeze { dst, ty, a } => {
                let x = self.val(st, a, ty)?;
                let x = match x {
                    Val::Undef => Val::I(0),
                    Val::Part(b) => from_bytes(&b.iter().map(|x| if *x == UNINIT { conc(0) } else { *x }).collect::<Vec<_>>()),
                    x => x,
                };
                Self::set(st, *dst, x);
                Self::adv(st);
            }
            I::Br(b) => self.jump(st, *b)?,
            I::CondBr(c, a, b) => {
                let v = self.val(st, c, &Ty::Int(1))?;
                let t = match v {
                    Val::I(x) => x == 1,
                    Val::S(t) => self.decide(st, t)?,
                    _ => return viol("uninit", "branch on an uninitialised value".into()),
                };
                self.jump(st, if t { *a } else { *b })?;
            }
            I::Switch { ty, v, def, cases } => {
                let x = self.val(st, v, ty)?;
                match x {
                    Val::I(x) => {
                        let t = cases.iter().find(|(c, _)| *c == x).map(|c| c.1).unwrap_or(*def);
                        self.jump(st, t)?;
                    }
                    Val::S(t) => {
                        for (cv, l) in cases {
                            if self.decide(st, tm::eq(t, tm::c(*cv, tm::width(t))))? {
                                return self.jump(st, *l);
                            }
                        }
                        self.jump(st, *def)?;
                    }
                    _ => return viol("uninit", "switch on an uninitialised value".into()),
                }
            }
            I::Ret(o) => {
                let v = match o {
                    Some((t, o)) => self.val(st, o, t)?,
                    None => Val::Undef,
                };
                self.pop_frame(st);
                if st.fr.is_empty() {
                    return Err(Stop::Done);
                }
                if st.fr.last().unwrap().stepped {
                    // back from an environment step: the instruction itself comes now
                    return Ok(());
                }
                self.finish_call(st, v)?;
            }
            I::Unreachable => return viol("unreachable", "unreachable code executed (undefined behaviour)".into()),
            I::LandingPad { dst, .. } => {
                Self::set(st, *dst, Val::Agg(Rc::new(vec![Val::I(0x10), Val::I(0)])));
                Self::adv(st);
            }
            I::Resume => {
                self.pop_frame(st);
                return Err(Stop::Unwind);
            }
            I::AtomicRmw { dst, op, p, ty, v } => {
                let y = self.val(st, v, ty)?;
                let a = self.addr(st, p)?;
                if st.env != 0 && self.env_step(st, a)? {
                    return Ok(());
                }
                let x = self.load(st, ty, a)?;
                let n = match op.as_str() {
                    "xchg" => y,
                    "add" => self.bin(Bin::Add, ty, &x, &y)?,
                    "sub" => self.bin(Bin::Sub, ty, &x, &y)?,
                    "and" => self.bin(Bin::And, ty, &x, &y)?,
                    "or" => self.bin(Bin::Or, ty, &x, &y)?,
                    "xor" => self.bin(Bin::Xor, ty, &x, &y)?,
                    _ => return unsup(format!("atomicrmw {}", op)),
                };
                self.store(st, ty, &n, a)?;
                Self::set(st, *dst, x);
                Self::adv(st);
            }
            I::CmpXchg { dst, p, ty, old, new } => {
                let o = self.val(st, old, ty)?;
                let n = self.val(st, new, ty)?;
                let a = self.addr(st, p)?;
                if st.env != 0 && self.env_step(st, a)? {
                    return Ok(());
                }
                let x = self.load(st, ty, a)?;
                let w = ty.bits();
                let eq = tm::eq(Self::term(&x, w)?, Self::term(&o, w)?);
                let ok = self.decide(st, eq)?;
                if ok {
                    self.store(st, ty, &n, a)?;
                }
                Self::set(st, *dst, Val::Agg(Rc::new(vec![x, Val::I(ok as u128)])));
                Self::adv(st);
            }
            I::Call(cc) => {
                let tgt = {
                    let c = cc.tgt.borrow().clone();
                    match c {
                        Some(t) => t,
                        None => match &cc.callee {
                            Op::C(Cst::Global(n)) => {
                                let t = self.resolve(f.module, n)?;
                                *cc.tgt.borrow_mut() = Some(t.clone());
                                t
                            }
                            o => {
                                let a = self.addr(st, o)?;
                                if a < FBASE {
                                    return viol("bad-call", "call through an invalid function pointer".into());
                                }
                                let k = ((a - FBASE) / 16 - 1) as usize;
                                let (m, n) = self.flist[k].clone();
                                self.resolve(m, &n)?
                            }
                        },
                    }
                };
                let mut args = Vec::with_capacity(cc.args.len());
                for (t, o) in &cc.args {
                    args.push(self.val(st, o, t)?);
                }
                match tgt {
                    Target::F(g) => self.push_frame(st, g, args)?,
                    Target::X(n) => {
                        let r = self.call_ext(st, &n, cc, &args)?;
                        self.finish_call(st, r)?;
                    }
                }
            }
        }
        Ok(())
    }

    pub fn bin(&mut self, op: Bin, ty: &Ty, x: &Val, y: &Val) -> Rs<Val> {
        if let (Val::Agg(a), Val::Agg(b), Ty::Vec(_, t)) = (x, y, ty) {
            let mut v = vec![];
            for (p, q) in a.iter().zip(b.iter()) {
                v.push(self.bin(op, t, p, q)?);
            }
            return Ok(Val::Agg(Rc::new(v)));
        }
        let w = ty.bits();
        match (x, y) {
            (Val::Part(b), Val::I(k)) if matches!(op, Bin::LShr | Bin::Shl) && k % 8 == 0 && w % 8 == 0 && *k < w as u128 => {
                let (n, k) = ((w / 8) as usize, (*k / 8) as usize);
                let r: Vec<B> = (0..n).map(|i| if op == Bin::LShr {
                    if i + k < n { b[i + k] } else { conc(0) }
                } else if i >= k { b[i - k] } else { conc(0) }).collect();
                return Ok(from_bytes(&r));
            }
            (Val::Part(_), _) | (_, Val::Part(_)) if matches!(op, Bin::And | Bin::Or) && w % 8 == 0
                && !matches!(x, Val::Agg(_)) && !matches!(y, Val::Agg(_)) => {
                let n = (w / 8) as usize;
                let (p, q) = (to_bytes(x, n), to_bytes(y, n));
                let (zero, ones) = (conc(0), conc(0xff));
                let r: Vec<B> = p.iter().zip(&q).map(|(&p, &q)| {
                    let (z, id) = if op == Bin::And { (zero, ones) } else { (ones, zero) };
                    if p == z || q == z { z } else if p == id { q } else if q == id { p }
                    else if is_conc(p) && is_conc(q) { conc(if op == Bin::And { p & q } else { p | q } as u8) }
                    else { UNINIT }
                }).collect();
                return Ok(from_bytes(&r));
            }
            (Val::Undef | Val::Part(_), _) | (_, Val::Undef | Val::Part(_)) => return Ok(Val::Undef),
            (Val::I(a), Val::I(b)) => {
                let m = tm::mask(w);
                let r = match op {
                    Bin::Add => a.wrapping_add(*b),
                    Bin::Sub => a.wrapping_sub(*b),
                    Bin::Mul => a.wrapping_mul(*b),
                    Bin::And => a & b,
                    Bin::Or => a | b,
                    Bin::Xor => a ^ b,
                    Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if *b == 0 => return viol("div-zero", "division by zero".into()),
                    Bin::UDiv => a / b,
                    Bin::URem => a % b,
                    _ => {
                        let t = self.binop(op, w, tm::c(*a, w), tm::c(*b, w));
                        return Ok(Self::back(t));
                    }
                };
                return Ok(Val::I(r & m));
            }
            _ => {}
        }
        let (a, b) = (Self::term(x, w)?, Self::term(y, w)?);
        Ok(Self::back(self.binop(op, w, a, b)))
    }
    pub fn binop(&self, op: Bin, w: u32, a: T, b: T) -> T {
        match op {
            Bin::Add => tm::add(a, b),
            Bin::Sub => tm::sub(a, b),
            Bin::Mul => tm::mul(a, b),
            Bin::UDiv => tm::udiv(a, b),
            Bin::SDiv => tm::sdiv(a, b),
            Bin::URem => tm::urem(a, b),
            Bin::SRem => tm::srem(a, b),
            Bin::Shl => tm::shl(a, b),
            Bin::LShr => tm::lshr(a, b),
            Bin::AShr => tm::ashr(a, b),
            Bin::And => tm::and(a, b),
            Bin::Or => tm::or(a, b),
            Bin::Xor => tm::xor(a, b),
            Bin::FAdd => tm::fp2(tm::FpOp::Add, w, a, b),
            Bin::FSub => tm::fp2(tm::FpOp::Sub, w, a, b),
            Bin::FMul => tm::fp2(tm::FpOp::Mul, w, a, b),
            Bin::FDiv => tm::fp2(tm::FpOp::Div, w, a, b),
            Bin::FRem => tm::fp2(tm::FpOp::Rem, w, a, b),
        }
    }
    fn icmp(p: Pred, ty: &Ty, x: &Val, y: &Val) -> Rs<Val> {
        Ok(match (x, y) {
                    (Val::I(x), Val::I(y)) => {
                        let w = ty.bits();
                        let r = match p {
                            Pred::Eq => x == y,
                            Pred::Ne => x != y,
                            Pred::Ugt => x > y,
                            Pred::Uge => x >= y,
                            Pred::Ult => x < y,
                            Pred::Ule => x <= y,
                            Pred::Sgt => tm::sx(*x, w) > tm::sx(*y, w),
                            Pred::Sge => tm::sx(*x, w) >= tm::sx(*y, w),
                            Pred::Slt => tm::sx(*x, w) < tm::sx(*y, w),
                            Pred::Sle => tm::sx(*x, w) <= tm::sx(*y, w),
                        };
                        Val::I(r as u128)
                    }
                    (Val::Undef | Val::Part(_), _) | (_, Val::Undef | Val::Part(_)) => Val::Undef,
                    (Val::Agg(a), Val::Agg(b)) => match ty {
                        Ty::Vec(_, t) => Val::Agg(Rc::new(a.iter().zip(b.iter()).map(|(x, y)| Self::icmp(p, t, x, y)).collect::<Rs<Vec<_>>>()?)),
                        _ => return unsup("aggregate icmp".into()),
                    },
                    (Val::Agg(_), _) | (_, Val::Agg(_)) => return unsup("vector icmp".into()),
                    _ => {
                        let w = ty.bits();
                        let (x, y) = (Self::term(x, w)?, Self::term(y, w)?);
                        Self::back(match p {
                            Pred::Eq => tm::eq(x, y),
                            Pred::Ne => tm::ne(x, y),
                            Pred::Ugt => tm::ult(y, x),
                            Pred::Uge => tm::ule(y, x),
                            Pred::Ult => tm::ult(x, y),
                            Pred::Ule => tm::ule(x, y),
                            Pred::Sgt => tm::slt(y, x),
                            Pred::Sge => tm::sle(y, x),
                            Pred::Slt => tm::slt(x, y),
                            Pred::Sle => tm::sle(x, y),
                        })
                    }
                })
    }
    fn fcmp(p: FPred, ty: &Ty, x: &Val, y: &Val) -> Rs<Val> {
        if let (Ty::Vec(_, t), Val::Agg(a), Val::Agg(b)) = (ty, x, y) {
            return Ok(Val::Agg(Rc::new(a.iter().zip(b.iter()).map(|(x, y)| Self::fcmp(p, t, x, y)).collect::<Rs<Vec<_>>>()?)));
        }
        if matches!(x, Val::Undef | Val::Part(_)) || matches!(y, Val::Undef | Val::Part(_)) {
            return Ok(Val::Undef);
        }
                let w = ty.bits();
                let (x, y) = (Self::term(x, w)?, Self::term(y, w)?);
                let uno = tm::or(tm::f_isnan(x), tm::f_isnan(y));
                let r = match p {
                    FPred::False => tm::fls(),
                    FPred::True => tm::tru(),
                    FPred::Ord => tm::not(uno),
                    FPred::Uno => uno,
                    FPred::Oeq => tm::f_oeq(x, y),
                    FPred::Une => tm::not(tm::f_oeq(x, y)),
                    FPred::Olt => tm::f_olt(x, y),
                    FPred::Ogt => tm::f_olt(y, x),
                    FPred::Ole => tm::or(tm::f_olt(x, y), tm::f_oeq(x, y)),
                    FPred::Oge => tm::or(tm::f_olt(y, x), tm::f_oeq(x, y)),
                    FPred::One => tm::or(tm::f_olt(x, y), tm::f_olt(y, x)),
                    FPred::Ueq => tm::or(uno, tm::f_oeq(x, y)),
                    FPred::Ult => tm::or(uno, tm::f_olt(x, y)),
                    FPred::Ugt => tm::or(uno, tm::f_olt(y, x)),
                    FPred::Ule => tm::not(tm::f_olt(y, x)),
                    FPred::Uge => tm::not(tm::f_olt(x, y)),
                };
        Ok(Self::back(r))
    }
    fn cast(&mut self, c: Cast, from: &Ty, x: &Val, to: &Ty) -> Rs<Val> {
        if let Val::Undef = x {
            return Ok(Val::Undef);
        }
        if let Val::Part(b) = x {
            let n = to.size() as usize;
            return Ok(match c {
                Cast::Trunc if to.bits() % 8 == 0 => from_bytes(&b[..n]),
                Cast::Trunc if to.bits() < 8 && b[0] != UNINIT => return self.cast(c, &Ty::Int(8), &from_bytes(&b[..1]), to),
                Cast::ZExt => {
                    let mut r = (**b).clone();
                    r.resize(n, conc(0));
                    from_bytes(&r)
                }
                Cast::BitCast | Cast::PtrToInt | Cast::IntToPtr if !matches!(to, Ty::Vec(..)) => x.clone(),
                _ => Val::Undef,
            });
        }
        if let Val::Agg(_) = x {
            if let (Cast::BitCast, Ty::Vec(n, t), Val::Agg(a)) = (c, from, x) {
                if t.bits() == 1 && !matches!(to, Ty::Vec(..)) {
                    // a mask: lane 0 is the lowest bit
                    let n = *n as u32;
                    let mut r = tm::c(0, n);
                    for (i, v) in a.iter().enumerate() {
                        if matches!(v, Val::Undef | Val::Part(_)) { return Ok(Val::Undef); }
                        let b = tm::zext(Self::term(v, 1)?, n);
                        r = tm::or(r, tm::shl(b, tm::c(i as u128, n)));
                    }
                    return Ok(Self::back(r));
                }
            }
            if c == Cast::BitCast {
                // vector <-> integer via bytes
                let mut o = Obj { base: 0, bytes: vec![UNINIT; from.size() as usize], kind: Kind::Stack, align: 1 };
                fn put(o: &mut Obj, off: usize, ty: &Ty, v: &Val) {
                    match (ty, v) {
                        (Ty::Vec(_, t), Val::Agg(a)) | (Ty::Arr(_, t), Val::Agg(a)) => {
                            for (i, x) in a.iter().enumerate() {
                                put(o, off + i * t.size() as usize, t, x);
                            }
                        }
                        _ => store_bytes(o, off, ty.size() as usize, v),
                    }
                }
                put(&mut o, 0, from, x);
                return match to {
                    Ty::Vec(n, t) => Ok(Val::Agg(Rc::new((0..*n).map(|i| load_bytes(&o, (i * t.size()) as usize, t.size() as usize)).collect()))),
                    _ => Ok(load_bytes(&o, 0, to.size() as usize)),
                };
            }
            if let (Ty::Vec(_, ft), Ty::Vec(_, tt), Val::Agg(a)) = (from, to, x) {
                let mut v = vec![];
                for p in a.iter() {
                    v.push(self.cast(c, ft, p, tt)?);
                }
                return Ok(Val::Agg(Rc::new(v)));
            }
            return unsup("vector cast".into());
        }
        if let (Cast::BitCast, Ty::Vec(n, t)) = (c, to) {
            let mut o = Obj { base: 0, bytes: vec![UNINIT; from.size() as usize], kind: Kind::Stack, align: 1 };
            store_bytes(&mut o, 0, from.size() as usize, x);
            return Ok(Val::Agg(Rc::new((0..*n).map(|i| load_bytes(&o, (i * t.size()) as usize, t.size() as usize)).collect())));
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let Val::I(v) = x {
            match c {
                Cast::Trunc => return Ok(Val::I(v & tm::mask(tw))),
                Cast::ZExt | Cast::PtrToInt | Cast::IntToPtr | Cast::BitCast => return Ok(Val::I(v & tm::mask(tw))),
                Cast::SExt => return Ok(Val::I(tm::sx(*v, fw) as u128 & tm::mask(tw))),
                _ => {}
            }
        }
        let t = Self::term(x, fw)?;
        Ok(Self::back(match c {
            Cast::Trunc => tm::extract(tw - 1, 0, t),
            Cast::ZExt => tm::zext(t, tw),
            Cast::SExt => tm::sext(t, tw),
            Cast::PtrToInt | Cast::IntToPtr | Cast::BitCast => if tw < fw { tm::extract(tw - 1, 0, t) } else { tm::zext(t, tw) },
            Cast::FpTrunc => tm::fp(tm::FpOp::Narrow, fw, &[t], tw),
            Cast::FpExt => tm::fp(tm::FpOp::Ext, fw, &[t], tw),
            Cast::FpToUi => tm::fp(tm::FpOp::ToUSat(tw), fw, &[t], tw),
            Cast::FpToSi => tm::fp(tm::FpOp::ToSSat(tw), fw, &[t], tw),
            Cast::UiToFp => tm::from_int(t, false, tw),
            Cast::SiToFp => tm::from_int(t, true, tw),
        }))
    }

    // ---------------------------------------------------------- obligations
    pub fn flush_obl(&mut self, st: &mut State) -> Rs<()> {
        if st.obl.is_empty() {
            return Ok(());
        }
        let obl = std::mem::take(&mut st.obl);
        let mut conj = tm::tru();
        for (t, _) in &obl {
            conj = tm::and_raw(conj, *t);
        }
        self.obl_queries += 1;
        let neg = tm::not(conj);
        let (r, _) = self.solver.check(&st.pc, &[neg], &[]);
        match r {
            Res::Unsat => Ok(()),
            _ => {
                // one obligation at a time; where only the abstraction of floating-point functions allows a
                // failure, the exact semantics decides, and the path goes on
                let mut sure = false;
                for (t, id) in &obl {
                    let nt = tm::not(*t);
                    let (r, _) = self.solver.check(&st.pc, &[nt], &[]);
                    match r {
                        Res::Unsat => {}
                        Res::Sat => {
                            let mut all = st.pc.clone();
                            all.push(nt);
                            if Self::has_fp(&all) && !self.cfg.exact_fp {
                                let mut x = Solver::new(self.cfg.solver.clone(), true, self.cfg.qtimeout, None);
                                let (r2, _) = x.check(&st.pc, &[nt], &[]);
                                self.solver.stats.queries += 1;
                                self.solver.stats.time += x.stats.time;
                                if r2 == Res::Unsat {
                                    self.spurious += 1;
                                    sure = true;
                                    continue;
                                }
                            }
                            return Err(Stop::Viol { kind: "assertion", id: *id, msg: format!("assertion {} fails", id), cond: Some(nt) });
                        }
                        Res::Unknown => return unsup(format!("solver unknown/timeout on obligation {}", id)),
                    }
                }
                if r == Res::Sat && !sure { return unsup("inconsistent solver answers".into()); }
                Ok(())
            }
        }
    }

    fn has_fp(ts: &[T]) -> bool {
        let mut seen = std::collections::HashSet::new();
        let mut st: Vec<T> = ts.to_vec();
        while let Some(t) = st.pop() {
            if !seen.insert(t) {
                continue;
            }
            if let tm::N::Fp(..) = tm::node(t) {
                return true;
            }
            st.extend(tm::children(t));
        }
        false
    }

    fn model_of(&self, st: &State, vals: &[Option<u128>]) -> Inputs {
        let m = self.build_model(st, vals);
        let ins = st.inputs.iter().map(|i| {
            let v = if let tm::N::Var(id) = tm::node(i.var) { *m.vars.get(id).unwrap_or(&0) } else { 0 };
            (i.kind.to_string(), v)
        }).collect();
        let ufs = m.ufs.iter().map(|((id, a), v)| (tm::ar().uf_info[*id as usize].0.clone(), a.clone(), *v)).collect();
        (ins, ufs)
    }

    /// Returns true when a real violation was recorded, false when infeasible/spurious.
    fn record_violation(&mut self, st: &State, kind: &str, id: u64, msg: &str, cond: Option<T>) -> Result<bool, String> {
        let mut extra = vec![];
        if let Some(c) = cond {
            extra.push(c);
        }
        let want = self.wants(st);
        let (r, vals) = self.solver.check2(&st.pc, &extra, &want, true);
        match r {
            Res::Unsat => return Ok(false),
            Res::Unknown => return Err("solver unknown while confirming a violation".into()),
            Res::Sat => {}
        }
        let mut exact = "not-needed".to_string();
        let mut models = vec![];
        let mut all = st.pc.clone();
        all.extend(extra.iter());
        let mut mvals = vec![vals];
        if Self::has_fp(&all) && !self.cfg.exact_fp {
            let mut s = Solver::new(self.cfg.solver.clone(), true, self.cfg.qtimeout, None);
            let (r2, v2) = s.check2(&st.pc, &extra, &want, true);
            self.solver.stats.queries += 1;
            self.solver.stats.time += s.stats.time;
            match r2 {
                Res::Unsat => {
                    self.spurious += 1;
                    return Ok(false);
                }
                Res::Sat => {
                    exact = "confirmed".into();
                    mvals.insert(0, v2);
                }
                Res::Unknown => exact = "unknown".into(),
            }
        }
        // a second, more generic model: data inputs pairwise distinct and non-zero when possible
        let data: Vec<T> = st.inputs.iter().filter(|i| i.kind == "bits").map(|i| i.var).collect();
        if data.len() >= 1 && data.len() < 64 {
            let mut ex = extra.clone();
            for (i, a) in data.iter().enumerate() {
                ex.push(tm::ne(*a, tm::c(0, tm::width(*a))));
                for b in &data[i + 1..] {
                    if tm::width(*a) == tm::width(*b) {
                        ex.push(tm::ne(*a, *b));
                    }
                }
            }
            let (r3, v3) = self.solver.check2(&st.pc, &ex, &want, true);
            if r3 == Res::Sat {
                mvals.push(v3);
            }
        } else if data.len() >= 64 && st.ufapps.is_empty() {
            // inputs that nothing constrains: any value will do, make them distinct
            let mut seen = std::collections::HashSet::new();
            let mut todo = all.clone();
            while let Some(t) = todo.pop() {
                if seen.insert(t) {
                    todo.extend(tm::children(t));
                }
            }
            let mut v3 = mvals[0].clone();
            for (k, i) in st.inputs.iter().enumerate() {
                if i.kind == "bits" && !seen.contains(&i.var) && k < v3.len() {
                    v3[k] = Some((k as u128 * 0x0101_0305_0709_0b0d + 0x3f80_0001) & tm::mask(tm::width(i.var)));
                }
            }
            mvals.push(v3);
        }
        for vals in &mvals {
            models.push(self.model_of(st, vals));
        }
        let trace = st.fr.iter().rev().map(|f| {
            if f.f.pretty.is_empty() { demangle_simple(&f.f.name) } else { f.f.pretty.clone() }
        }).collect();
        self.violations.push(Violation { kind: kind.into(), id, msg: msg.into(), trace, models, exact, notes: st.note.clone() });
        Ok(true)
    }

    pub fn run(&mut self, entry: &str) -> String {
        self.t0 = Instant::now();
        let m = match self.ext_funcs.get(entry) {
            Some(m) => *m,
            None => {
                self.error = Some(format!("no such harness {}", entry));
                return "error".into();
            }
        };
        let f = match self.resolve(m, entry) {
            Ok(Target::F(f)) => f,
            Err(Stop::Unsup(e)) => {
                self.error = Some(e);
                return "error".into();
            }
            _ => {
                self.error = Some("entry".into());
                return "error".into();
            }
        };
        let mut st = State {
            fr: vec![],
            mem: Mem { objs: Default::default(), next: (BASE >> SLOT) + 1 },
            pc: vec![], known: Default::default(), model: Some(Rc::new(Model { vars: HashMap::new(), ufs: HashMap::new() })),
            inputs: vec![], ufapps: vec![], obl: vec![], steps: 0, npicks: 0, panics: 0, note: vec![], alloc_events: 0, thread: 0, pauses: 0, tls: HashMap::new(), env: 0,
        };
        // fake vtable for panic payloads: drop=null size=0 align=1
        let vt = st.mem.alloc(64, 8, Kind::Global);
        let slot = slot_of(vt);
        {
            let o = Rc::make_mut(st.mem.objs.get_mut(&slot).unwrap());
            for i in 0..64 {
                o.bytes[i] = conc(0);
            }
            o.bytes[16] = conc(1);
        }
        self.fakevt = vt;
        let _ = self.push_frame(&mut st, f, vec![]);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            loop {
                self.steps += 1;
                st.steps += 1;
                if self.steps & 0xfff == 0 && self.t0.elapsed().as_secs_f64() > self.cfg.time_limit {
                    self.error = Some(format!("time limit {} s reached, {} paths done, {} pending", self.cfg.time_limit, self.paths, self.work.len() + 1));
                    return "error".into();
                }
                let mut r = self.step(&mut st);
                if st.steps > self.cfg.path_steps && r.is_ok() {
                    r = viol("non-termination", format!("one path exceeded {} instructions", self.cfg.path_steps));
                }
                while let Err(Stop::Unwind) = r {
                    st.panics += 1;
                    r = self.unwind(&mut st);
                }
                if let Err(Stop::Done) = r {
                    // leak check
                    let live = st.mem.objs.values().filter(|o| o.kind == Kind::Heap).count();
                    if live > 0 && !self.leak_ok(&st) {
                        r = viol("leak", format!("{} heap objects still allocated at the end", live));
                    }
                }
                match r {
                    Ok(()) => continue,
                    Err(Stop::Switched) => continue,
                    Err(Stop::Unwind) => unreachable!(),
                    Err(Stop::Done) | Err(Stop::Kill) => {
                        let done = matches!(r, Err(Stop::Done));
                        match self.flush_obl(&mut st) {
                            Ok(()) => {}
                            Err(Stop::Viol { kind, id, msg, cond }) => match self.record_violation(&st, kind, id, &msg, cond) {
                                Ok(true) => return "violation".into(),
                                Ok(false) => {}
                                Err(e) => {
                                    self.error = Some(e);
                                    return "error".into();
                                }
                            },
                            Err(Stop::Unsup(e)) => {
                                self.error = Some(e);
                                return "error".into();
                            }
                            _ => {}
                        }
                        if done {
                            self.paths += 1;
                            if st.panics > 0 {
                                self.paths_unwound += 1;
                            }
                            self.max_inputs = self.max_inputs.max(st.inputs.len());
                            if self.samples.len() < 3 || (self.paths % 97 == 0 && self.samples.len() < 6) {
                                let picks: Vec<String> = st.inputs.iter().filter(|i| i.kind == "pick").map(|i| st.known.get(&i.var).map(|v| v.to_string()).unwrap_or("?".into())).collect();
                                let nd = st.inputs.iter().filter(|i| i.kind != "pick").count();
                                if !Self::has_fp(&st.pc) {
                                    let want = self.wants(&st);
                                    if let (Res::Sat, vals) = self.solver.check2(&st.pc, &[], &want, true) {
                                        let m = self.model_of(&st, &vals);
                                        self.sample_models.push(m);
                                    }
                                }
                                self.samples.push(format!("picks=[{}] symbolic_inputs={} path_constraints={} caught_panics={}", picks.join(","), nd, st.pc.len(), st.panics));
                            }
                        } else {
                            self.killed += 1;
                        }
                        break;
                    }
                    Err(Stop::Viol { kind, id, msg, cond }) => {
                        match self.record_violation(&st, kind, id, &msg, cond) {
                            Ok(true) => return "violation".into(),
                            Ok(false) => break,
                            Err(e) => {
                                self.error = Some(e);
                                return "error".into();
                            }
                        }
                    }
                    Err(Stop::Unsup(e)) => {
                        let tr: Vec<String> = st.fr.iter().rev().take(12).map(|f| if f.f.pretty.is_empty() { f.f.name.to_string() } else { f.f.pretty.clone() }).collect();
                        self.error = Some(format!("{} @ {}", e, tr.join(" < ")));
                        return "error".into();
                    }
                }
            }
        }
        "ok".into()
    }

    pub fn report(&self, entry: &str, status: &str) -> String {
        fn q(s: &str) -> String {
            let mut o = String::from("\"");
            for ch in s.chars() {
                match ch {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c if (c as u32) < 32 => o.push(' '),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        }
        let mut s = String::new();
        s.push_str("{\n");
        s.push_str(&format!("\"harness\": {}, \"status\": {},\n", q(entry), q(status)));
        if let Some(e) = &self.error {
            s.push_str(&format!("\"error\": {},\n", q(e)));
        }
        s.push_str(&format!("\"paths\": {}, \"paths_with_rejection\": {}, \"killed\": {}, \"forks\": {}, \"steps\": {}, \"wall_s\": {:.3},\n", self.paths, self.paths_unwound, self.killed, self.forks, self.steps, self.t0.elapsed().as_secs_f64()));
        let st = &self.solver.stats;
        s.push_str(&format!("\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"solver_s\": {:.3}, \"max_query_s\": {:.3}, \"model_hits\": {}, \"spurious_uf\": {},\n", st.queries, st.sat, st.unsat, st.unknown, st.time, st.max_query, st.model_hits, self.spurious));
        s.push_str(&format!("\"obligations\": {}, \"obligations_concrete\": {}, \"obligation_queries\": {}, \"terms\": {}, \"max_inputs\": {},\n", self.obligations, self.obl_concrete, self.obl_queries, tm::ar().nodes.len(), self.max_inputs));
        let r: Vec<String> = self.reach.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect();
        s.push_str(&format!("\"reach\": {{{}}},\n", r.join(", ")));
        let mut fns: Vec<String> = vec![];
        for n in self.used.keys() {
            for m in self.mods.iter() {
                if let Some((_, _, p)) = m.funcs.get(n) {
                    let p = if p.is_empty() { n.clone() } else { p.clone() };
                    fns.push(q(&p));
                    break;
                }
            }
        }
        s.push_str(&format!("\"functions\": [{}],\n", fns.join(", ")));
        let x: Vec<String> = self.exts.iter().map(|(k, v)| format!("{}: {}", q(k), v)).collect();
        s.push_str(&format!("\"modelled_externals\": {{{}}},\n", x.join(", ")));
        let sm: Vec<String> = self.samples.iter().map(|x| q(x)).collect();
        s.push_str(&format!("\"samples\": [{}],\n", sm.join(", ")));
        let mj = |(ins, ufs): &Inputs| {
            let i: Vec<String> = ins.iter().map(|(k, x)| format!("[{}, \"{}\"]", q(k), x)).collect();
            let u: Vec<String> = ufs.iter().map(|(n, a, r)| format!("[{}, [{}], \"{}\"]", q(n), a.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(", "), r)).collect();
            format!("{{\"inputs\": [{}], \"ufs\": [{}]}}", i.join(", "), u.join(", "))
        };
        let sm: Vec<String> = self.sample_models.iter().map(mj).collect();
        s.push_str(&format!("\"sample_models\": [{}],\n", sm.join(", ")));
        let mut vs = vec![];
        for v in &self.violations {
            let tr: Vec<String> = v.trace.iter().map(|x| q(x)).collect();
            let ms: Vec<String> = v.models.iter().map(mj).collect();
            let nt: Vec<String> = v.notes.iter().map(|(k, x)| format!("[{}, \"{}\"]", k, x)).collect();
            vs.push(format!("{{\"kind\": {}, \"id\": {}, \"msg\": {}, \"exact_fp\": {}, \"trace\": [{}], \"notes\": [{}], \"models\": [{}]}}", q(&v.kind), v.id, q(&v.msg), q(&v.exact), tr.join(", "), nt.join(", "), ms.join(", ")));
        }
        s.push_str(&format!("\"violations\": [{}]\n}}\n", vs.join(", ")));
        s
    }
    fn leak_ok(&self, st: &State) -> bool {
        st.note.iter().any(|(k, _)| *k == u64::MAX)
    }
}
