//! LLVM textual IR: lazy module index, types, instruction parser.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    Ptr,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u64, Rc<Ty>),
    Label,
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Other => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two()
            }
            Ty::F32 => 4,
            Ty::F64 => 8,
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut off = 0;
                let mut al = 1;
                for t in ts.iter() {
                    let a = if *packed { 1 } else { t.align() };
                    al = al.max(a);
                    off = (off + a - 1) / a * a + t.size();
                }
                (off + al - 1) / al * al
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Other => 1,
            Ty::Int(_) => self.size().min(16),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field(&self, i: u64) -> (u64, Ty) {
        match self {
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i * t.size(), (**t).clone()),
            Ty::Struct(ts, packed) => {
                let mut off = 0;
                for (k, t) in ts.iter().enumerate() {
                    let a = if *packed { 1 } else { t.align() };
                    off = (off + a - 1) / a * a;
                    if k as u64 == i {
                        return (off, t.clone());
                    }
                    off += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 | Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr)
    }
}

#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    Undef,
    Zero,
    Null,
    Global(Rc<str>),
    Bytes(Rc<Vec<u8>>),
    Agg(Rc<Vec<(Ty, Cst)>>),
    Gep(Rc<(Ty, Cst, Vec<Cst>)>),
    Add(Rc<(Cst, Cst)>),
    Sub(Rc<(Cst, Cst)>),
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(Cst),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, PtrToInt, IntToPtr, BitCast }

#[derive(Debug)]
pub struct CallI {
    pub dst: Option<u32>,
    pub ret: Ty,
    pub callee: Op,
    pub args: Vec<(Ty, Op)>,
    pub normal: Option<u32>,
    pub unwind: Option<u32>,
    pub tgt: std::cell::RefCell<Option<crate::exec::Target>>,
}

#[derive(Debug)]
pub enum I {
    Alloca { dst: u32, ty: Ty, n: Option<(Ty, Op)>, align: u64 },
    Load { dst: u32, ty: Ty, p: Op, noundef: bool, align: u64 },
    Store { ty: Ty, v: Op, p: Op, align: u64 },
    Gep { dst: u32, ty: Ty, p: Op, idx: Vec<(Ty, Op)> },
    Bin { dst: u32, op: Bin, ty: Ty, a: Op, b: Op, nuw: bool, nsw: bool },
    FNeg { dst: u32, ty: Ty, a: Op },
    Icmp { dst: u32, p: Pred, ty: Ty, a: Op, b: Op },
    Fcmp { dst: u32, p: FPred, ty: Ty, a: Op, b: Op },
    Cast { dst: u32, c: Cast, from: Ty, a: Op, to: Ty },
    Select { dst: u32, c: Op, ty: Ty, a: Op, b: Op },
    ExtractV { dst: u32, ty: Ty, a: Op, idx: Vec<u64> },
    InsertV { dst: u32, ty: Ty, a: Op, vty: Ty, v: Op, idx: Vec<u64> },
    ExtractE { dst: u32, a: Op, idx: Op },
    InsertE { dst: u32, ty: Ty, a: Op, v: Op, idx: Op },
    Shuffle { dst: u32, ty: Ty, a: Op, b: Op, mask: Op },
    Phi { dst: u32, ty: Ty, inc: Vec<(Op, u32)> },
    Freeze { dst: u32, ty: Ty, a: Op },
    Call(CallI),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch { ty: Ty, v: Op, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<(Ty, Op)>),
    Unreachable,
    LandingPad { dst: u32, catch: bool },
    Resume,
    AtomicRmw { dst: u32, op: String, p: Op, ty: Ty, v: Op },
    CmpXchg { dst: u32, p: Op, ty: Ty, old: Op, new: Op },
    Nop,
}

#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub pretty: String,
    pub module: usize,
    pub ret: Ty,
    pub params: Vec<(Ty, u32)>,
    pub nregs: u32,
    pub blocks: Vec<Vec<I>>,
    pub internal: bool,
}

#[derive(Clone, Debug)]
pub struct GlobalDef {
    pub name: Rc<str>,
    pub module: usize,
    pub ty: Ty,
    pub init: Option<Cst>,
    pub constant: bool,
    pub align: u64,
    pub tls: bool,
}

pub struct Module {
    pub text: Rc<str>,
    pub types: HashMap<String, Ty>,
    pub type_src: HashMap<String, String>,
    pub funcs: HashMap<String, (usize, usize, String)>, // byte range of define, pretty name
    pub globals: HashMap<String, (usize, usize)>,
    pub internal: HashMap<String, bool>,
}

// ------------------------------------------------------------------ lexer
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Local(String),
    Global(String),
    Id(String),
    Num(String),
    Str(String),
    CStr(Vec<u8>),
    Meta,
    Attr,
    P(char),
}

fn unq(s: &str) -> String {
    // unescape \XX in quoted names
    if !s.contains('\\') {
        return s.to_string();
    }
    let b = s.as_bytes();
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1] != b'\\' {
            let h = u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(b'?');
            o.push(h);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&o).to_string()
}

fn is_name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let (name, ni) = if i + 1 < b.len() && b[i + 1] == b'"' {
                    let mut j = i + 2;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    (unq(&s[i + 2..j]), j + 1)
                } else {
                    let mut j = i + 1;
                    while j < b.len() && is_name(b[j]) {
                        j += 1;
                    }
                    (s[i + 1..j].to_string(), j)
                };
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
                i = ni;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && is_name(b[j]) {
                    j += 1;
                }
                out.push(Tok::Meta);
                // keep noundef marker
                if &s[i..j] == "!noundef" {
                    out.push(Tok::Id("!noundef".into()));
                }
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && is_name(b[j]) {
                    j += 1;
                }
                out.push(Tok::Attr);
                i = j;
            }
            b'"' => {
                let mut j = i + 1;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(s[i + 1..j].to_string()));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let mut j = i + 2;
                let mut o = Vec::new();
                while b[j] != b'"' {
                    if b[j] == b'\\' {
                        if b[j + 1] == b'\\' {
                            o.push(b'\\');
                            j += 2;
                        } else {
                            o.push(u8::from_str_radix(&s[j + 1..j + 3], 16).unwrap());
                            j += 3;
                        }
                    } else {
                        o.push(b[j]);
                        j += 1;
                    }
                }
                out.push(Tok::CStr(o));
                i = j + 1;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || ((b[j] == b'+' || b[j] == b'-') && (b[j - 1] == b'e' || b[j - 1] == b'E'))) {
                    j += 1;
                }
                out.push(Tok::Num(s[i..j].to_string()));
                i = j;
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i + 1;
                while j < b.len() && (is_name(b[j]) && b[j] != b'-') {
                    j += 1;
                }
                out.push(Tok::Id(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub struct P<'a> {
    pub t: Vec<Tok>,
    pub i: usize,
    pub m: &'a Module,
    pub regs: HashMap<String, u32>,
    pub blocks: HashMap<String, u32>,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    pub fn new(t: Vec<Tok>, m: &'a Module) -> P<'a> {
        P { t, i: 0, m, regs: HashMap::new(), blocks: HashMap::new() }
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("eof")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == c)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {} got {:?} ... {:?}", c, self.peek(), &self.t[self.i.saturating_sub(8)..self.i.min(self.t.len())]))
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn num(&mut self) -> R<u64> {
        match self.next()? {
            Tok::Num(n) => n.parse().map_err(|e| format!("{:?} {}", e, n)),
            t => Err(format!("num got {:?}", t)),
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            Tok::Id(s) => match s.as_str() {
                "void" => Ok(Ty::Void),
                "float" => Ok(Ty::F32),
                "double" => Ok(Ty::F64),
                "ptr" => {
                    if self.eat_id("addrspace") {
                        self.exp('(')?;
                        self.num()?;
                        self.exp(')')?;
                    }
                    Ok(Ty::Ptr)
                }
                "label" => Ok(Ty::Label),
                "opaque" | "metadata" | "token" | "half" | "fp128" | "x86_amx" | "bfloat" => Ok(Ty::Other),
                _ if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => Ok(Ty::Int(s[1..].parse().unwrap())),
                _ => Err(format!("type? {}", s)),
            },
            Tok::P('[') => {
                let n = self.num()?;
                if !self.eat_id("x") {
                    return Err("x".into());
                }
                let t = self.ty()?;
                self.exp(']')?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            Tok::P('<') => {
                if self.is_p('{') {
                    self.i += 1;
                    let f = self.tys('}')?;
                    self.exp('>')?;
                    Ok(Ty::Struct(Rc::new(f), true))
                } else {
                    let n = self.num()?;
                    if !self.eat_id("x") {
                        return Err("x".into());
                    }
                    let t = self.ty()?;
                    self.exp('>')?;
                    Ok(Ty::Vec(n, Rc::new(t)))
                }
            }
            Tok::P('{') => {
                let f = self.tys('}')?;
                Ok(Ty::Struct(Rc::new(f), false))
            }
            Tok::Local(n) => self.m.named_type(&n),
            t => Err(format!("type tok {:?}", t)),
        }
    }
    fn tys(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = Vec::new();
        while !self.eat(end) {
            v.push(self.ty()?);
            self.eat(',');
        }
        Ok(v)
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn float_bits(&self, ty: &Ty, s: &str) -> R<u128> {
        let d = if let Some(h) = s.strip_prefix("0x") {
            f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
        } else if s.starts_with("f0x") {
            return u128::from_str_radix(&s[3..], 16).map_err(|e| e.to_string());
        } else {
            s.parse::<f64>().map_err(|e| format!("{} {}", e, s))?
        };
        Ok(match ty {
            Ty::F32 => {
                if d.is_nan() {
                    // keep payload bits
                    let b = d.to_bits();
                    let sign = (b >> 63) as u32;
                    let man = ((b >> 29) & 0x7fffff) as u32;
                    ((sign << 31) | 0x7f800000 | man.max(1)) as u128
                } else {
                    (d as f32).to_bits() as u128
                }
            }
            _ => d.to_bits() as u128,
        })
    }
    pub fn cst(&mut self, ty: &Ty) -> R<Cst> {
        match self.next()? {
            Tok::Num(s) => match ty {
                Ty::F32 if s == "-qnan" => Ok(Cst::Int(0xffc0_0000)),
                Ty::F64 if s == "-qnan" => Ok(Cst::Int(0xfff8_0000_0000_0000)),
                Ty::F32 | Ty::F64 => Ok(Cst::Int(self.float_bits(ty, &s)?)),
                Ty::Int(w) => {
                    let v: i128 = if let Ok(v) = s.parse::<i128>() { v } else { s.parse::<u128>().map_err(|e| e.to_string())? as i128 };
                    let m = if *w >= 128 { u128::MAX } else { (1u128 << w) - 1 };
                    Ok(Cst::Int((v as u128) & m))
                }
                _ => Err(format!("num const of {:?}", ty)),
            },
            Tok::CStr(b) => Ok(Cst::Bytes(Rc::new(b))),
            Tok::Global(g) => Ok(Cst::Global(Rc::from(g.as_str()))),
            Tok::Id(s) => match s.as_str() {
                "true" => Ok(Cst::Int(1)),
                "false" => Ok(Cst::Int(0)),
                "null" => Ok(Cst::Null),
                "undef" | "poison" => Ok(Cst::Undef),
                "zeroinitializer" | "none" => Ok(Cst::Zero),
                "splat" => {
                    self.exp('(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    self.exp(')')?;
                    let n = match ty { Ty::Vec(n, _) => *n, Ty::Arr(n, _) => *n, _ => return Err("splat".into()) };
                    Ok(Cst::Agg(Rc::new(vec![(t, c); n as usize])))
                }
                "getelementptr" => {
                    while let Some(Tok::Id(x)) = self.peek() {
                        if x == "inbounds" || x == "nuw" || x == "nusw" {
                            self.i += 1;
                            continue;
                        }
                        if x == "inrange" {
                            self.i += 1;
                            self.skip_paren()?;
                            continue;
                        }
                        break;
                    }
                    self.exp('(')?;
                    let t = self.ty()?;
                    self.exp(',')?;
                    let bt = self.ty()?;
                    let base = self.cst(&bt)?;
                    let mut idx = Vec::new();
                    while self.eat(',') {
                        let it = self.ty()?;
                        idx.push(self.cst(&it)?);
                    }
                    self.exp(')')?;
                    Ok(Cst::Gep(Rc::new((t, base, idx))))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" => {
                    self.exp('(')?;
                    let t = self.ty()?;
                    let c = self.cst(&t)?;
                    if !self.eat_id("to") {
                        return Err("to".into());
                    }
                    self.ty()?;
                    self.exp(')')?;
                    Ok(c)
                }
                "sub" | "add" => {
                    while let Some(Tok::Id(_)) = self.peek() {
                        self.i += 1;
                    }
                    self.exp('(')?;
                    let t = self.ty()?;
                    let a = self.cst(&t)?;
                    self.exp(',')?;
                    let t2 = self.ty()?;
                    let b = self.cst(&t2)?;
                    self.exp(')')?;
                    Ok(if s == "sub" { Cst::Sub(Rc::new((a, b))) } else { Cst::Add(Rc::new((a, b))) })
                }
                _ if s.starts_with("f0x") => Ok(Cst::Int(u128::from_str_radix(&s[3..], 16).map_err(|e| e.to_string())?)),
                _ => Err(format!("const? {}", s)),
            },
            Tok::P('[') => self.agg(']'),
            Tok::P('{') => self.agg('}'),
            Tok::P('<') => {
                if self.eat('{') {
                    let a = self.agg('}')?;
                    self.exp('>')?;
                    Ok(a)
                } else {
                    self.agg('>')
                }
            }
            Tok::P(sg @ ('+' | '-')) => {
                // +inf -inf +qnan -qnan +nan(0x..) +snan(0x..)
                let (ew, mw) = if *ty == Ty::F32 { (8u32, 23u32) } else { (11, 52) };
                let id = match self.next()? { Tok::Id(s) => s, t => return Err(format!("const tok {:?} for {:?}", t, ty)) };
                let sign = if sg == '-' { 1u128 << (ew + mw) } else { 0 };
                let exp = ((1u128 << ew) - 1) << mw;
                let man = match id.as_str() {
                    "inf" => 0,
                    "qnan" => 1u128 << (mw - 1),
                    "nan" | "snan" => {
                        self.exp('(')?;
                        let p = match self.next()? { Tok::Num(s) | Tok::Id(s) => u128::from_str_radix(s.trim_start_matches("0x"), 16).map_err(|e| e.to_string())?, t => return Err(format!("nan payload {:?}", t)) };
                        self.exp(')')?;
                        p | if id == "nan" { 1u128 << (mw - 1) } else { 0 }
                    }
                    _ => return Err(format!("const? {}", id)),
                };
                Ok(Cst::Int(sign | exp | man))
            }
            t => Err(format!("const tok {:?} for {:?}", t, ty)),
        }
    }
    fn agg(&mut self, end: char) -> R<Cst> {
        let mut v = Vec::new();
        while !self.eat(end) {
            let t = self.ty()?;
            let c = self.cst(&t)?;
            v.push((t, c));
            self.eat(',');
        }
        Ok(Cst::Agg(Rc::new(v)))
    }
    fn op(&mut self, ty: &Ty) -> R<Op> {
        if let Some(Tok::Local(n)) = self.peek() {
            let n = n.clone();
            self.i += 1;
            return Ok(Op::Reg(self.reg(&n)));
        }
        Ok(Op::C(self.cst(ty)?))
    }
    fn tyop(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        let o = self.op(&t)?;
        Ok((t, o))
    }
    fn skip_paren(&mut self) -> R<()> {
        self.exp('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    /// skip parameter / return attributes
    fn attrs(&mut self) -> R<()> {
        const KW: &[&str] = &["void", "float", "double", "ptr", "label", "metadata", "token", "opaque", "half", "fp128",
            "true", "false", "null", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "bitcast", "splat", "none", "sub", "add", "trunc", "ptrtoaddr"];
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    if KW.contains(&s.as_str()) || s.starts_with("f0x") || (s.starts_with('i') && s[1..].parse::<u32>().is_ok()) {
                        return Ok(());
                    }
                    let is_align = s == "align";
                    self.i += 1;
                    if is_align && matches!(self.peek(), Some(Tok::Num(_))) {
                        self.i += 1;
                    } else if self.is_p('(') {
                        self.skip_paren()?;
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                Some(Tok::Attr) => self.i += 1,
                _ => return Ok(()),
            }
        }
    }
    fn label(&mut self) -> R<u32> {
        if !self.eat_id("label") {
            return Err("label".into());
        }
        match self.next()? {
            Tok::Local(n) => self.blocks.get(&n).cloned().ok_or(format!("block {}", n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn tail_align(&mut self) -> u64 {
        let mut k = self.i;
        while k + 1 < self.t.len() {
            if self.t[k] == Tok::Id("align".into()) {
                if let Tok::Num(n) = &self.t[k + 1] {
                    return n.parse().unwrap_or(1);
                }
            }
            k += 1;
        }
        1
    }
    fn has_noundef(&self) -> bool {
        self.t[self.i..].iter().any(|t| matches!(t, Tok::Id(s) if s == "!noundef"))
    }
    fn call(&mut self, dst: Option<u32>, invoke: bool) -> R<I> {
        // after 'call' / 'invoke'
        // skip fast-math flags, cconv, return attributes
        const SKIP: &[&str] = &["fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fastcc", "ccc", "coldcc", "preserve_mostcc", "preserve_allcc"];
        while let Some(Tok::Id(s)) = self.peek() {
            if SKIP.contains(&s.as_str()) {
                self.i += 1;
            } else {
                break;
            }
        }
        self.attrs()?;
        let mut ret = self.ty()?;
        // function type for varargs
        if self.is_p('(') {
            // could be a function type; skip it
            self.skip_paren()?;
        }
        let callee = if self.is_id("asm") {
            return Err("inline asm".into());
        } else {
            self.op(&Ty::Ptr)?
        };
        self.exp('(')?;
        let mut args = Vec::new();
        while !self.eat(')') {
            let t = self.ty()?;
            if t == Ty::Other {
                // metadata argument
                while !self.is_p(',') && !self.is_p(')') {
                    self.i += 1;
                }
                self.eat(',');
                continue;
            }
            self.attrs()?;
            let o = self.op(&t)?;
            args.push((t, o));
            self.eat(',');
        }
        let mut normal = None;
        let mut unwind = None;
        if invoke {
            while !self.is_id("to") {
                self.i += 1;
                if self.i >= self.t.len() {
                    return Err("invoke to".into());
                }
            }
            self.i += 1;
            normal = Some(self.label()?);
            if !self.eat_id("unwind") {
                return Err("unwind".into());
            }
            unwind = Some(self.label()?);
        }
        if ret == Ty::Void {
            ret = Ty::Void;
        }
        Ok(I::Call(CallI { dst, ret, callee, args, normal, unwind, tgt: Default::default() }))
    }
    fn instr(&mut self) -> R<I> {
        let mut dst = None;
        if let (Some(Tok::Local(n)), Some(Tok::P('='))) = (self.t.get(0), self.t.get(1)) {
            let n = n.clone();
            dst = Some(self.reg(&n));
            self.i = 2;
        }
        let opn = match self.next()? {
            Tok::Id(s) => s,
            Tok::Attr => return Ok(I::Nop), // #dbg_...
            t => return Err(format!("instr {:?}", t)),
        };
        let d = dst.unwrap_or(u32::MAX);
        let bin = |o: Bin| -> Option<Bin> { Some(o) };
        let b = match opn.as_str() {
            "add" => bin(Bin::Add), "sub" => bin(Bin::Sub), "mul" => bin(Bin::Mul),
            "udiv" => bin(Bin::UDiv), "sdiv" => bin(Bin::SDiv), "urem" => bin(Bin::URem), "srem" => bin(Bin::SRem),
            "shl" => bin(Bin::Shl), "lshr" => bin(Bin::LShr), "ashr" => bin(Bin::AShr),
            "and" => bin(Bin::And), "or" => bin(Bin::Or), "xor" => bin(Bin::Xor),
            "fadd" => bin(Bin::FAdd), "fsub" => bin(Bin::FSub), "fmul" => bin(Bin::FMul), "fdiv" => bin(Bin::FDiv), "frem" => bin(Bin::FRem),
            _ => None,
        };
        const FLAGS: &[&str] = &["nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "samesign"];
        let mut nuw = false;
        let mut nsw = false;
        let mut flags = |p: &mut Self| {
            while let Some(Tok::Id(s)) = p.peek() {
                if FLAGS.contains(&s.as_str()) {
                    if s == "nuw" { nuw = true; }
                    if s == "nsw" { nsw = true; }
                    p.i += 1;
                } else {
                    break;
                }
            }
        };
        if let Some(op) = b {
            flags(self);
            let (ty, a) = self.tyop()?;
            self.exp(',')?;
            let bb = self.op(&ty)?;
            return Ok(I::Bin { dst: d, op, ty, a, b: bb, nuw, nsw });
        }
        let cast = match opn.as_str() {
            "trunc" => Some(Cast::Trunc), "zext" => Some(Cast::ZExt), "sext" => Some(Cast::SExt),
            "fptrunc" => Some(Cast::FpTrunc), "fpext" => Some(Cast::FpExt), "fptoui" => Some(Cast::FpToUi), "fptosi" => Some(Cast::FpToSi),
            "uitofp" => Some(Cast::UiToFp), "sitofp" => Some(Cast::SiToFp), "ptrtoint" | "ptrtoaddr" => Some(Cast::PtrToInt), "inttoptr" => Some(Cast::IntToPtr),
            "bitcast" | "addrspacecast" => Some(Cast::BitCast),
            _ => None,
        };
        if let Some(c) = cast {
            flags(self);
            let (from, a) = self.tyop()?;
            if !self.eat_id("to") {
                return Err("cast to".into());
            }
            let to = self.ty()?;
            return Ok(I::Cast { dst: d, c, from, a, to });
        }
        match opn.as_str() {
            "alloca" => {
                let ty = self.ty()?;
                let mut n = None;
                let align = self.tail_align();
                if self.eat(',') && !self.is_id("align") {
                    n = Some(self.tyop()?);
                }
                Ok(I::Alloca { dst: d, ty, n, align })
            }
            "load" => {
                self.eat_id("atomic");
                self.eat_id("volatile");
                let ty = self.ty()?;
                self.exp(',')?;
                let (_, p) = self.tyop()?;
                Ok(I::Load { dst: d, ty, p, noundef: self.has_noundef(), align: self.tail_align() })
            }
            "store" => {
                self.eat_id("atomic");
                self.eat_id("volatile");
                let (ty, v) = self.tyop()?;
                self.exp(',')?;
                let (_, p) = self.tyop()?;
                Ok(I::Store { ty, v, p, align: self.tail_align() })
            }
            "getelementptr" => {
                flags(self);
                let ty = self.ty()?;
                self.exp(',')?;
                let (pt, p) = self.tyop()?;
                if pt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut idx = Vec::new();
                while self.eat(',') {
                    if matches!(self.peek(), Some(Tok::Meta)) {
                        break;
                    }
                    idx.push(self.tyop()?);
                }
                Ok(I::Gep { dst: d, ty, p, idx })
            }
            "fneg" => {
                flags(self);
                let (ty, a) = self.tyop()?;
                Ok(I::FNeg { dst: d, ty, a })
            }
            "icmp" => {
                flags(self);
                let p = match self.next()? {
                    Tok::Id(s) => match s.as_str() {
                        "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle,
                        _ => return Err("pred".into()),
                    },
                    _ => return Err("pred".into()),
                };
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let b = self.op(&ty)?;
                Ok(I::Icmp { dst: d, p, ty, a, b })
            }
            "fcmp" => {
                flags(self);
                let p = match self.next()? {
                    Tok::Id(s) => match s.as_str() {
                        "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole,
                        "one" => FPred::One, "ord" => FPred::Ord, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult,
                        "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno, "true" => FPred::True,
                        _ => return Err("fpred".into()),
                    },
                    _ => return Err("fpred".into()),
                };
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let b = self.op(&ty)?;
                Ok(I::Fcmp { dst: d, p, ty, a, b })
            }
            "select" => {
                flags(self);
                let (_, c) = self.tyop()?;
                self.exp(',')?;
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let (_, b) = self.tyop()?;
                Ok(I::Select { dst: d, c, ty, a, b })
            }
            "extractvalue" => {
                let (ty, a) = self.tyop()?;
                let mut idx = Vec::new();
                while self.eat(',') {
                    match self.peek() {
                        Some(Tok::Num(_)) => idx.push(self.num()?),
                        _ => break,
                    }
                }
                Ok(I::ExtractV { dst: d, ty, a, idx })
            }
            "insertvalue" => {
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let (vty, v) = self.tyop()?;
                let mut idx = Vec::new();
                while self.eat(',') {
                    match self.peek() {
                        Some(Tok::Num(_)) => idx.push(self.num()?),
                        _ => break,
                    }
                }
                Ok(I::InsertV { dst: d, ty, a, vty, v, idx })
            }
            "extractelement" => {
                let (_, a) = self.tyop()?;
                self.exp(',')?;
                let (_, idx) = self.tyop()?;
                Ok(I::ExtractE { dst: d, a, idx })
            }
            "insertelement" => {
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let (_, v) = self.tyop()?;
                self.exp(',')?;
                let (_, idx) = self.tyop()?;
                Ok(I::InsertE { dst: d, ty, a, v, idx })
            }
            "shufflevector" => {
                let (ty, a) = self.tyop()?;
                self.exp(',')?;
                let (_, b) = self.tyop()?;
                self.exp(',')?;
                let (mt, mask) = self.tyop()?;
                let mask = match (&mt, mask) {
                    (Ty::Vec(n, t), Op::C(Cst::Zero)) => Op::C(Cst::Agg(std::rc::Rc::new((0..*n).map(|_| ((**t).clone(), Cst::Int(0))).collect()))),
                    (_, m) => m,
                };
                Ok(I::Shuffle { dst: d, ty, a, b, mask })
            }
            "phi" => {
                flags(self);
                let ty = self.ty()?;
                let mut inc = Vec::new();
                loop {
                    self.exp('[')?;
                    let v = self.op(&ty)?;
                    self.exp(',')?;
                    let l = match self.next()? {
                        Tok::Local(n) => self.blocks.get(&n).cloned().ok_or("phi block")?,
                        _ => return Err("phi".into()),
                    };
                    self.exp(']')?;
                    inc.push((v, l));
                    if !self.eat(',') || !self.is_p('[') {
                        break;
                    }
                }
                Ok(I::Phi { dst: d, ty, inc })
            }
            "freeze" => {
                let (ty, a) = self.tyop()?;
                Ok(I::Freeze { dst: d, ty, a })
            }
            "tail" | "musttail" | "notail" => {
                self.eat_id("call");
                self.call(dst, false)
            }
            "call" => self.call(dst, false),
            "invoke" => self.call(dst, true),
            "br" => {
                if self.is_id("label") {
                    Ok(I::Br(self.label()?))
                } else {
                    let (_, c) = self.tyop()?;
                    self.exp(',')?;
                    let a = self.label()?;
                    self.exp(',')?;
                    let b = self.label()?;
                    Ok(I::CondBr(c, a, b))
                }
            }
            "switch" => {
                let (ty, v) = self.tyop()?;
                self.exp(',')?;
                let def = self.label()?;
                self.exp('[')?;
                let mut cases = Vec::new();
                while !self.eat(']') {
                    let t = self.ty()?;
                    let c = match self.cst(&t)? {
                        Cst::Int(v) => v,
                        _ => return Err("case".into()),
                    };
                    self.exp(',')?;
                    cases.push((c, self.label()?));
                }
                Ok(I::Switch { ty, v, def, cases })
            }
            "ret" => {
                if self.is_id("void") {
                    Ok(I::Ret(None))
                } else {
                    Ok(I::Ret(Some(self.tyop()?)))
                }
            }
            "unreachable" => Ok(I::Unreachable),
            "landingpad" => {
                let catch = self.t.iter().any(|t| matches!(t, Tok::Id(s) if s == "catch"));
                Ok(I::LandingPad { dst: d, catch })
            }
            "resume" => Ok(I::Resume),
            "fence" => Ok(I::Nop),
            "atomicrmw" => {
                self.eat_id("volatile");
                let op = match self.next()? {
                    Tok::Id(s) => s,
                    _ => return Err("rmw".into()),
                };
                let (_, p) = self.tyop()?;
                self.exp(',')?;
                let (ty, v) = self.tyop()?;
                Ok(I::AtomicRmw { dst: d, op, p, ty, v })
            }
            "cmpxchg" => {
                self.eat_id("weak");
                self.eat_id("volatile");
                let (_, p) = self.tyop()?;
                self.exp(',')?;
                let (ty, old) = self.tyop()?;
                self.exp(',')?;
                let (_, new) = self.tyop()?;
                Ok(I::CmpXchg { dst: d, p, ty, old, new })
            }
            _ => Err(format!("unknown instruction {}", opn)),
        }
    }
}

impl Module {
    pub fn index(text: Rc<str>) -> Module {
        let mut m = Module {
            text: text.clone(),
            types: HashMap::new(),
            type_src: HashMap::new(),
            funcs: HashMap::new(),
            globals: HashMap::new(),
            internal: HashMap::new(),
        };
        let b = text.as_bytes();
        let mut pos = 0;
        let mut last_comment: &str = "";
        while pos < b.len() {
            let end = memchr(b, b'\n', pos);
            let line = &text[pos..end];
            if line.starts_with("define ") {
                let name = Self::gname(line);
                // body end: line "}" exactly
                let mut q = end + 1;
                loop {
                    let e2 = memchr(b, b'\n', q);
                    if &text[q..e2] == "}" {
                        q = e2;
                        break;
                    }
                    q = e2 + 1;
                    if q >= b.len() {
                        break;
                    }
                }
                let internal = line.starts_with("define internal") || line.starts_with("define private");
                m.internal.insert(name.clone(), internal);
                m.funcs.insert(name, (pos, q.min(b.len()), last_comment.to_string()));
                pos = q + 1;
                last_comment = "";
                continue;
            } else if line.starts_with('@') {
                let name = Self::gname(line);
                m.internal.insert(name.clone(), line.contains(" private ") || line.contains(" internal "));
                m.globals.insert(name, (pos, end));
            } else if line.starts_with('%') {
                if let Some(k) = line.find(" = type ") {
                    let n = line[1..k].trim_matches('"').to_string();
                    m.type_src.insert(n, line[k + 8..].to_string());
                }
            } else if line.starts_with("; ") {
                if !line.starts_with("; Function Attrs") {
                    last_comment = &line[2..];
                }
            }
            pos = end + 1;
        }
        m
    }
    fn gname(line: &str) -> String {
        let k = line.find('@').unwrap();
        let r = &line[k + 1..];
        if r.starts_with('"') {
            let e = r[1..].find('"').unwrap();
            unq(&r[1..1 + e])
        } else {
            let e = r.bytes().position(|c| !is_name(c)).unwrap_or(r.len());
            r[..e].to_string()
        }
    }
    fn named_type(&self, n: &str) -> R<Ty> {
        let src = self.type_src.get(n).ok_or(format!("type %{}", n))?;
        let mut p = P::new(lex(src), self);
        p.ty()
    }
    pub fn parse_global(&self, midx: usize, name: &str) -> R<GlobalDef> {
        let (a, b) = self.globals[name];
        let line = &self.text[a..b];
        let mut p = P::new(lex(line), self);
        p.i = 2; // name, =
        let mut tls = false;
        let mut constant = false;
        let mut external = false;
        loop {
            match p.next()? {
                Tok::Id(s) => match s.as_str() {
                    "thread_local" => {
                        tls = true;
                        if p.is_p('(') {
                            p.skip_paren()?;
                        }
                    }
                    "constant" => {
                        constant = true;
                        break;
                    }
                    "global" => break,
                    "external" | "extern_weak" => external = true,
                    "alias" => return Err("alias".into()),
                    _ => {
                        if p.is_p('(') {
                            p.skip_paren()?;
                        }
                    }
                },
                t => return Err(format!("global {:?}", t)),
            }
        }
        let ty = p.ty()?;
        let init = if external { None } else { Some(p.cst(&ty)?) };
        // without an explicit one, the type's own alignment
        let align = p.tail_align().max(ty.align());
        Ok(GlobalDef { name: Rc::from(name), module: midx, ty, init, constant, align, tls })
    }
    pub fn parse_func(&self, midx: usize, name: &str) -> R<Func> {
        let (a, b, pretty) = self.funcs[name].clone();
        let src = &self.text[a..b];
        let hdr_end = src.find('\n').unwrap();
        let hdr = &src[..hdr_end];
        let mut p = P::new(lex(hdr), self);
        p.i = 1;
        // linkage etc then ret type
        p.attrs()?;
        let ret = p.ty()?;
        loop {
            match p.next()? {
                Tok::Global(_) => break,
                _ => {}
            }
        }
        p.exp('(')?;
        let mut params = Vec::new();
        let mut auto = 0;
        while !p.eat(')') {
            if p.eat('.') {
                // varargs
                p.eat('.');
                p.eat('.');
                continue;
            }
            let t = p.ty()?;
            p.attrs()?;
            let r = if let Some(Tok::Local(n)) = p.peek() {
                let n = n.clone();
                p.i += 1;
                p.reg(&n)
            } else {
                let n = format!("{}", auto);
                p.reg(&n)
            };
            auto += 1;
            params.push((t, r));
            p.eat(',');
        }
        // split body into logical lines
        let body = &src[hdr_end + 1..];
        let mut lines: Vec<String> = Vec::new();
        let mut labels: Vec<(String, usize)> = Vec::new();
        let mut in_switch = false;
        for l in body.lines() {
            if l.starts_with(';') || l.is_empty() {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let k = if l.starts_with('"') { l[1..].find('"').unwrap() + 2 } else { l.find(':').unwrap_or(l.len()) };
                labels.push((unq(l[..k].trim_matches('"')), lines.len()));
                continue;
            }
            let t = l.trim_start();
            if t.starts_with(';') {
                continue;
            }
            if in_switch {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(t);
                if t.starts_with(']') {
                    in_switch = false;
                }
                continue;
            }
            if t.starts_with("to label") || t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                let last = lines.last_mut().unwrap();
                last.push(' ');
                last.push_str(t);
                continue;
            }
            if t.starts_with("switch ") && t.ends_with('[') {
                in_switch = true;
            }
            lines.push(t.to_string());
        }
        if labels.is_empty() || labels[0].1 != 0 {
            labels.insert(0, ("0entry".into(), 0));
        }
        for (k, (n, _)) in labels.iter().enumerate() {
            p.blocks.insert(n.clone(), k as u32);
        }
        let mut blocks = Vec::new();
        for k in 0..labels.len() {
            let s = labels[k].1;
            let e = if k + 1 < labels.len() { labels[k + 1].1 } else { lines.len() };
            let mut v = Vec::new();
            for l in &lines[s..e] {
                if l.starts_with("#dbg") {
                    continue;
                }
                p.t = lex(l);
                p.i = 0;
                match p.instr() {
                    Ok(I::Nop) => {}
                    Ok(i) => v.push(i),
                    Err(e) => return Err(format!("{} in `{}`", e, &l[..l.len().min(300)])),
                }
            }
            blocks.push(v);
        }
        Ok(Func { name: Rc::from(name), pretty, module: midx, ret, params, nregs: p.regs.len() as u32, blocks, internal: self.internal[name] })
    }
}

fn memchr(b: &[u8], c: u8, from: usize) -> usize {
    let mut i = from;
    while i < b.len() && b[i] != c {
        i += 1;
    }
    i
}
