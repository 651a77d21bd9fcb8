//! Parser for textual LLVM IR and lowering to a compact register code.
use crate::expr::{mask, sx, Op, UnOp};
use std::collections::HashMap;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty { Void, Int(u32), Ptr, F32, F64, Vec(u64, TyId), Arr(u64, TyId), Struct(Vec<TyId>, bool), Label, Meta, Opaque(String) }
#[derive(Clone, Copy, Debug)]
pub struct Leaf { pub off: u64, pub size: u8, pub w: u8 }
pub type O = u32; // operand: register, or constant index with HI bit
pub const HI: u32 = 0x8000_0000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastK { Trunc, Zext, Sext }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum In {
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO, UAddS, USubS, SAddS, SSubS,
    UMin, UMax, SMin, SMax, Abs, Un(UnOp), FShl, FShr, UCmp, SCmp, Memcpy, Memset, Trap, PtrMask, FUn(FU), FBin2(FB),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FU { Floor, Ceil, Trunc, Sqrt, Fabs, Neg, Round, Rint }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FB { Add, Sub, Mul, Div, Rem, Min, Max, Copysign }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FC { SiToF, UiToF, FToSi, FToUi, FToF }

#[derive(Clone, Debug)]
pub struct SwTable { pub cases: Vec<(u64, u32)>, pub dense: Vec<u32>, pub lo: u64, pub def: u32 }
impl SwTable {
    fn new(mut cases: Vec<(u64, u32)>, def: u32) -> SwTable {
        cases.sort();
        let (lo, hi) = match (cases.first(), cases.last()) { (Some(a), Some(b)) => (a.0, b.0), _ => (0, 0) };
        let mut dense = vec![];
        if !cases.is_empty() && hi - lo < 4096 { dense = vec![def; (hi - lo + 1) as usize]; for (k, e) in &cases { dense[(k - lo) as usize] = *e; } }
        SwTable { cases, dense, lo, def }
    }
    #[inline] pub fn get(&self, v: u64) -> u32 {
        if !self.dense.is_empty() { let i = v.wrapping_sub(self.lo); if i < self.dense.len() as u64 { self.dense[i as usize] } else { self.def } }
        else { match self.cases.binary_search_by_key(&v, |x| x.0) { Ok(i) => self.cases[i].1, Err(_) => self.def } }
    }
}
#[derive(Clone, Debug)]
pub enum I {
    Bin { op: Op, w: u8, d: u32, a: O, b: O },
    Cast { k: CastK, fw: u8, tw: u8, d: u32, a: O },
    Sel { d: u32, c: O, a: O, b: O, w: u8 },
    Ld { w: u8, size: u8, d: u32, p: O, off: u64 },
    St { w: u8, size: u8, p: O, off: u64, v: O },
    Gep { d: u32, base: O, off: u64, idx: O, scale: u64, iw: u8 },
    GepC { d: u32, base: O, off: u64 },
    Mov { d: u32, a: O },
    Alloca { d: u32, size: u64, align: u64, n: O },
    Br(u32),
    CBr { c: O, t: u32, f: u32 },
    Sw { v: O, w: u8, t: Box<SwTable> },
    Call { f: u32, d: u32, args: Box<[O]> },
    CallI { p: O, d: u32, nret: u32, args: Box<[O]> },
    CpuId { d: u32, n: u32 },
    Ret(Box<[O]>),
    Unreach,
    In { k: In, w: u8, d: u32, args: Box<[O]> },
    Rmw { op: u8, size: u8, w: u8, d: u32, p: O, v: O },
    Cxg { size: u8, w: u8, d: u32, p: O, c: O, n: O },
    Bin128 { op: Op, d: u32, a: [O; 2], b: [O; 2] },
    Cmp128 { op: Op, neg: bool, d: u32, a: [O; 2], b: [O; 2] },
    FBin { op: FB, w: u8, d: u32, a: O, b: O },
    FCmp { pred: u8, w: u8, d: u32, a: O, b: O },
    FCast { k: FC, fw: u8, tw: u8, d: u32, a: O },
    Unsup(String),
}
#[derive(Clone, Debug, Default)]
pub struct Edge { pub pc: u32, pub copies: Box<[(u32, O)]> }
#[derive(Clone, Debug, Default)]
pub struct Func {
    pub name: String, pub nargs: u32, pub nregs: u32, pub code: Vec<I>, pub edges: Vec<Edge>, pub consts: Vec<u64>,
    pub is_decl: bool, pub builtin: u32, pub nret: u32, pub weak: bool,
}
pub struct Global { pub name: String, pub addr: u64, pub size: u64, pub ty: TyId, pub init: Option<(usize, usize)>, pub constant: bool }
pub struct Module {
    pub tys: Vec<Ty>, tymap: HashMap<Ty, TyId>, named: HashMap<String, TyId>, named_bodies: HashMap<String, String>,
    pub funcs: Vec<Func>, pub fidx: HashMap<String, u32>, pub globals: Vec<Global>, pub gidx: HashMap<String, usize>,
    slots_c: HashMap<TyId, u32>,
    pub aliases: HashMap<String, String>,
}
pub const FUNC_BASE: u64 = 0x1000;
pub const GLOB_BASE: u64 = 0x0010_0000;

#[derive(Clone, Debug, PartialEq)]
enum T<'a> { W(&'a str), L(&'a str), G(&'a str), N(&'a str), S(&'a str), C(&'a str), P(u8), M, A, Dots, End }

struct Lex<'a> { s: &'a [u8], p: usize }
fn wordc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
impl<'a> Lex<'a> {
    fn new(s: &'a str) -> Self { Lex { s: s.as_bytes(), p: 0 } }
    fn st(&self, a: usize, b: usize) -> &'a str { unsafe { std::str::from_utf8_unchecked(&self.s[a..b]) } }
    fn ws(&mut self) {
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' { self.p += 1; }
            else if c == b';' { while self.p < self.s.len() && self.s[self.p] != b'\n' { self.p += 1; } }
            else { break; }
        }
    }
    fn quoted(&mut self) -> &'a str { // at opening quote
        let a = self.p + 1; let mut i = a;
        while self.s[i] != b'"' { i += 1; }
        self.p = i + 1;
        self.st(a, i)
    }
    fn peek(&mut self) -> T<'a> { let p = self.p; let t = self.next(); self.p = p; t }
    fn next(&mut self) -> T<'a> {
        self.ws();
        if self.p >= self.s.len() { return T::End; }
        let c = self.s[self.p];
        match c {
            b'%' | b'@' => {
                self.p += 1;
                let n = if self.p < self.s.len() && self.s[self.p] == b'"' { self.quoted() } else {
                    let a = self.p; while self.p < self.s.len() && wordc(self.s[self.p]) { self.p += 1; } self.st(a, self.p) };
                if c == b'%' { T::L(n) } else { T::G(n) }
            }
            b'"' => { let q = self.quoted(); T::S(q) }
            b'c' if self.p + 1 < self.s.len() && self.s[self.p + 1] == b'"' => { self.p += 1; let q = self.quoted(); T::C(q) }
            b'!' => { self.p += 1; while self.p < self.s.len() && wordc(self.s[self.p]) { self.p += 1; } T::M }
            b'#' => { self.p += 1; while self.p < self.s.len() && wordc(self.s[self.p]) { self.p += 1; } T::A }
            b'.' if self.s[self.p..].starts_with(b"...") => { self.p += 3; T::Dots }
            _ if c.is_ascii_digit() || (c == b'-' && self.s[self.p + 1].is_ascii_digit()) => {
                let a = self.p; self.p += 1;
                while self.p < self.s.len() && (wordc(self.s[self.p]) || self.s[self.p] == b'+') { self.p += 1; }
                T::N(self.st(a, self.p))
            }
            _ if wordc(c) => { let a = self.p; while self.p < self.s.len() && wordc(self.s[self.p]) { self.p += 1; } T::W(self.st(a, self.p)) }
            _ => { self.p += 1; T::P(c) }
        }
    }
    fn is(&mut self, c: u8) -> bool { if self.peek() == T::P(c) { self.next(); true } else { false } }
    fn expect(&mut self, c: u8) { let t = self.next(); if t != T::P(c) { panic!("expected {} got {:?} near {}", c as char, t, self.near()); } }
    fn near(&self) -> String { let a = self.p.saturating_sub(80); let b = (self.p + 80).min(self.s.len()); String::from_utf8_lossy(&self.s[a..b]).into_owned() }
    fn skip_parens(&mut self) { // at '('
        self.expect(b'(');
        let mut d = 1;
        while d > 0 { match self.next() { T::P(b'(') => d += 1, T::P(b')') => d -= 1, T::End => panic!("parens"), _ => {} } }
    }
    fn word(&mut self, w: &str) -> bool { if self.peek() == T::W(w) { self.next(); true } else { false } }
}
fn is_type_start(t: &T) -> bool {
    match t {
        T::W(w) => matches!(*w, "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token" | "x86_fp80" | "fp128") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
        T::P(b'{') | T::P(b'[') | T::P(b'<') => true,
        T::L(_) => true,
        _ => false,
    }
}
fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes(); let mut o = Vec::with_capacity(b.len()); let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' { o.push(b'\\'); i += 2; }
            else { o.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap()); i += 3; }
        } else { o.push(b[i]); i += 1; }
    }
    o
}

impl Module {
    fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) { return i; }
        let i = self.tys.len() as TyId; self.tys.push(t.clone()); self.tymap.insert(t, i); i
    }
    fn ptype(&mut self, l: &mut Lex) -> TyId {
        match l.next() {
            T::W("void") => self.ty(Ty::Void), T::W("ptr") => { if l.peek() == T::W("addrspace") { l.next(); l.skip_parens(); } self.ty(Ty::Ptr) }
            T::W("float") => self.ty(Ty::F32), T::W("double") => self.ty(Ty::F64),
            T::W("label") => self.ty(Ty::Label), T::W("metadata") => self.ty(Ty::Meta),
            T::W(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => { let n = w[1..].parse().unwrap(); self.ty(Ty::Int(n)) }
            T::P(b'[') => { let n = self.num(l); let x = l.next(); assert_eq!(x, T::W("x")); let e = self.ptype(l); l.expect(b']'); self.ty(Ty::Arr(n, e)) }
            T::P(b'<') => {
                if l.peek() == T::P(b'{') { l.next(); let v = self.structbody(l); l.expect(b'>'); return self.ty(Ty::Struct(v, true)); }
                let n = self.num(l); l.next(); let e = self.ptype(l); l.expect(b'>'); self.ty(Ty::Vec(n, e))
            }
            T::P(b'{') => { let v = self.structbody(l); self.ty(Ty::Struct(v, false)) }
            T::L(n) => {
                if let Some(&t) = self.named.get(n) { return t; }
                if let Some(b) = self.named_bodies.get(n).cloned() {
                    let mut l2 = Lex::new(&b); let t = self.ptype(&mut l2); self.named.insert(n.to_string(), t); return t;
                }
                self.ty(Ty::Opaque(n.to_string()))
            }
            t => self.ty(Ty::Opaque(format!("{t:?}"))),
        }
    }
    fn structbody(&mut self, l: &mut Lex) -> Vec<TyId> {
        let mut v = vec![];
        if l.is(b'}') { return v; }
        loop { v.push(self.ptype(l)); match l.next() { T::P(b',') => {} T::P(b'}') => break, t => panic!("struct {t:?}") } }
        v
    }
    fn num(&mut self, l: &mut Lex) -> u64 { match l.next() { T::N(n) => n.parse().unwrap(), t => panic!("num {t:?} {}", l.near()) } }
    pub fn align(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(n) => match *n { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Vec(..) => self.size(t).next_power_of_two(),
            Ty::Arr(_, e) => self.align(*e),
            Ty::Struct(v, p) => if *p { 1 } else { v.iter().map(|x| self.align(*x)).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self, t: TyId) -> u64 { // alloc size
        match &self.tys[t as usize] {
            Ty::Int(n) => { let b = (*n as u64 + 7) / 8; let a = self.align(t); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Vec(n, e) => { if let Ty::Int(w) = self.tys[*e as usize] { ((n * w as u64 + 7) / 8).next_power_of_two() } else { n * self.size(*e) } }
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Struct(v, p) => {
                let mut o = 0;
                for x in v { if !*p { let a = self.align(*x); o = (o + a - 1) / a * a; } o += self.size(*x); }
                if !*p { let a = self.align(t); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    fn field_off(&self, t: TyId, i: usize) -> (u64, TyId) {
        match &self.tys[t as usize] {
            Ty::Struct(v, p) => {
                let mut o = 0;
                for (k, x) in v.iter().enumerate() { if !*p { let a = self.align(*x); o = (o + a - 1) / a * a; } if k == i { return (o, *x); } o += self.size(*x); }
                panic!("field")
            }
            Ty::Arr(_, e) | Ty::Vec(_, e) => (self.size(*e) * i as u64, *e),
            _ => panic!("field of scalar"),
        }
    }
    pub fn slots(&mut self, t: TyId) -> u32 {
        if let Some(&s) = self.slots_c.get(&t) { return s; }
        let s = match self.tys[t as usize].clone() {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Opaque(_) => 0,
            Ty::Int(n) => if n <= 64 { 1 } else { 2 },
            Ty::Ptr | Ty::F32 | Ty::F64 => 1,
            Ty::Vec(n, e) | Ty::Arr(n, e) => n as u32 * self.slots(e),
            Ty::Struct(v, _) => v.iter().map(|x| self.slots(*x)).sum(),
        };
        self.slots_c.insert(t, s); s
    }
    pub fn leaves(&self, t: TyId, off: u64, out: &mut Vec<Leaf>) {
        match &self.tys[t as usize] {
            Ty::Int(n) if *n <= 64 => { let sz = ((*n as u64 + 7) / 8) as u8; out.push(Leaf { off, size: sz, w: *n as u8 }) }
            Ty::Int(_) => { out.push(Leaf { off, size: 8, w: 64 }); out.push(Leaf { off: off + 8, size: 8, w: 64 }) }
            Ty::Ptr | Ty::F64 => out.push(Leaf { off, size: 8, w: 64 }),
            Ty::F32 => out.push(Leaf { off, size: 4, w: 32 }),
            Ty::Vec(n, e) | Ty::Arr(n, e) => { let s = self.size(*e); for i in 0..*n { self.leaves(*e, off + i * s, out); } }
            Ty::Struct(v, _) => for i in 0..v.len() { let (o, x) = self.field_off(t, i); self.leaves(x, off + o, out); },
            _ => {}
        }
    }
    fn width(&self, t: TyId) -> u32 { match &self.tys[t as usize] { Ty::Int(n) => *n, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, Ty::Vec(_, e) => self.width(*e), _ => 0 } }
    fn lanes(&self, t: TyId) -> (u32, TyId) { match &self.tys[t as usize] { Ty::Vec(n, e) => (*n as u32, *e), _ => (1, t) } }

    pub fn addr_of(&self, n: &str) -> u64 {
        if let Some(&i) = self.gidx.get(n) { return self.globals[i].addr; }
        if let Some(&i) = self.fidx.get(n) { let f = &self.funcs[i as usize]; if f.is_decl && f.weak && f.builtin == 0 { return 0; } return FUNC_BASE + 16 * i as u64; }
        if let Some(a) = self.aliases.get(n) { return self.addr_of(a); }
        0
    }
    fn parse_float(&self, s: &str, t: TyId) -> u64 {
        let is32 = matches!(self.tys[t as usize], Ty::F32);
        let v: f64 = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) } else { s.parse().unwrap_or(0.0) };
        if is32 { (v as f32).to_bits() as u64 } else { v.to_bits() }
    }
    /// constant of type t, flattened
    fn pconst(&mut self, l: &mut Lex, t: TyId, out: &mut Vec<u64>) {
        let tk = l.next();
        match tk {
            T::N(n) => match self.tys[t as usize].clone() {
                Ty::F32 | Ty::F64 => { let v = self.parse_float(n, t); out.push(v) }
                Ty::Int(w) if w > 64 => { let v: i128 = n.parse().unwrap_or_else(|_| n.parse::<u128>().unwrap() as i128); out.push(v as u64); out.push((v >> 64) as u64) }
                Ty::Int(w) => { let v: i128 = n.parse().expect("int"); out.push(v as u64 & mask(w as u8)) }
                _ => panic!("num const {n} {:?}", self.tys[t as usize]),
            },
            T::W("true") => out.push(1), T::W("false") => out.push(0),
            T::W("null") | T::W("none") => out.push(0),
            T::W("undef") | T::W("poison") | T::W("zeroinitializer") => { let n = self.slots(t); for _ in 0..n { out.push(0) } }
            T::C(s) => for b in unescape(s) { out.push(b as u64) },
            T::G(n) => { let a = self.addr_of(n); out.push(a) }
            T::W("splat") => { l.expect(b'('); let e = self.ptype(l); let mut v = vec![]; self.pconst(l, e, &mut v); l.expect(b')'); let (n, _) = self.lanes(t); for _ in 0..n { out.extend_from_slice(&v) } }
            T::P(b'[') | T::P(b'{') => { let close = if tk == T::P(b'[') { b']' } else { b'}' }; self.pcomps(l, close, out) }
            T::P(b'<') => { if l.peek() == T::P(b'{') { l.next(); self.pcomps(l, b'}', out); l.expect(b'>') } else { self.pcomps(l, b'>', out) } }
            T::W("dso_local_equivalent") | T::W("no_cfi") => self.pconst(l, t, out),
            T::W("blockaddress") => { l.skip_parens(); out.push(0) }
            T::W(w @ ("inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast")) => {
                l.expect(b'('); let ft = self.ptype(l); let mut v = vec![]; self.pconst(l, ft, &mut v);
                let to = l.next(); assert_eq!(to, T::W("to")); let tt = self.ptype(l); l.expect(b')');
                let tw = self.width(tt) as u8; let fw = self.width(ft) as u8;
                let x = if w == "sext" { sx(v[0], fw) as u64 } else { v[0] };
                out.push(x & mask(tw))
            }
            T::W("getelementptr") => {
                while let T::W(_) = l.peek() { let _ = l.next(); if l.peek() == T::P(b'(') && !matches!(l.peek(), T::W(_)) { /* inrange(...) or the operand list */ break; } }
                // skip "inrange(a, b)"
                let save = l.p; l.expect(b'(');
                if let T::N(_) = l.peek() { l.p = save; l.skip_parens(); l.expect(b'('); }
                let et = self.ptype(l); l.expect(b',');
                let bt = self.ptype(l); let mut v = vec![]; self.pconst(l, bt, &mut v);
                let mut a = v[0]; let mut first = true; let mut cur = et;
                while l.is(b',') {
                    let it = self.ptype(l); let mut iv = vec![]; self.pconst(l, it, &mut iv);
                    let i = sx(iv[0], self.width(it) as u8);
                    if first { a = a.wrapping_add((self.size(cur) as i64).wrapping_mul(i) as u64); first = false; }
                    else { match self.tys[cur as usize].clone() {
                        Ty::Struct(..) => { let (o, x) = self.field_off(cur, i as usize); a = a.wrapping_add(o); cur = x; }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => { a = a.wrapping_add((self.size(e) as i64).wrapping_mul(i) as u64); cur = e; }
                        _ => panic!("gep") } }
                }
                l.expect(b')');
                out.push(a)
            }
            T::W(w @ ("add" | "sub" | "mul" | "xor" | "and" | "or" | "shl")) => {
                while let T::W(_) = l.peek() { l.next(); }
                l.expect(b'('); let ft = self.ptype(l); let mut a = vec![]; self.pconst(l, ft, &mut a); l.expect(b',');
                let ft = self.ptype(l); let mut b = vec![]; self.pconst(l, ft, &mut b); l.expect(b')');
                let wd = self.width(ft) as u8;
                let op = match w { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "xor" => Op::Xor, "and" => Op::And, "or" => Op::Or, _ => Op::Shl };
                out.push(crate::expr::apply(op, wd, a[0], b[0], wd))
            }
            T::P(sg @ (b'+' | b'-')) => {
                let f32_ = matches!(self.tys[t as usize], Ty::F32); let n = l.next();
                let x = match n { T::W("inf") => f64::INFINITY, T::W("qnan") | T::W("nan") => f64::NAN, T::N(n) => n.to_string().parse().unwrap_or(0.0), _ => panic!("float const") };
                let x = if sg == b'-' { -x } else { x };
                out.push(if f32_ { (x as f32).to_bits() as u64 } else { x.to_bits() })
            }
            t2 => panic!("const {t2:?} for {:?} near {}", self.tys[t as usize], l.near()),
        }
    }
    fn pcomps(&mut self, l: &mut Lex, close: u8, out: &mut Vec<u64>) {
        if l.is(close) { return; }
        loop {
            let t = self.ptype(l); self.pconst(l, t, out);
            match l.next() { T::P(b',') => {} T::P(c) if c == close => break, t => panic!("comps {t:?} {}", l.near()) }
        }
    }
    pub fn global_init(&mut self, src: &str, i: usize) -> Option<Vec<u8>> {
        let (a, b) = self.globals[i].init?;
        let ty = self.globals[i].ty;
        let mut l = Lex::new(&src[a..b]);
        let mut v = vec![]; self.pconst(&mut l, ty, &mut v);
        let mut lv = vec![]; self.leaves(ty, 0, &mut lv);
        let mut o = vec![0u8; self.globals[i].size as usize];
        assert_eq!(lv.len(), v.len(), "init {}", self.globals[i].name);
        for (lf, x) in lv.iter().zip(v) { for k in 0..lf.size as usize { o[lf.off as usize + k] = (x >> (8 * k)) as u8; } }
        Some(o)
    }
    pub fn parse(src: &str) -> Module {
        let mut m = Module { tys: vec![], tymap: HashMap::new(), named: HashMap::new(), named_bodies: HashMap::new(), funcs: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new(), slots_c: HashMap::new(), aliases: HashMap::new() };
        // pass 1: split
        let mut fbodies: Vec<(usize, usize, usize)> = vec![]; // func idx, start, end
        let bytes = src.as_bytes();
        let mut p = 0;
        let mut gl: Vec<(usize, usize)> = vec![];
        let mut defs: Vec<(usize, usize, bool, usize)> = vec![];
        while p < bytes.len() {
            let e = memchr(b'\n', &bytes[p..]).map_or(bytes.len(), |x| p + x);
            let line = &src[p..e];
            if line.starts_with('@') { gl.push((p, e)); }
            else if line.starts_with('%') {
                let q = line.find(" = type ").unwrap(); let n = line[1..q].trim_matches('"').to_string();
                m.named_bodies.insert(n, line[q + 8..].to_string());
            } else if line.starts_with("declare ") { defs.push((p, e, true, e)); }
            else if line.starts_with("define ") {
                // find "\n}"
                let mut q = e; loop { let r = q + 1; let e2 = memchr(b'\n', &bytes[r..]).map_or(bytes.len(), |x| r + x); if bytes[r] == b'}' { q = r; break; } q = e2; }
                defs.push((p, e, false, q)); p = q + 2; continue;
            } else if line.starts_with('!') { /* metadata */ }
            p = e + 1;
        }
        for &(a, e, decl, q) in &defs {
            let mut l = Lex::new(&src[a..e]); l.next();
            let weak = src[a..e].contains("extern_weak");
            let name = loop { match l.next() { T::G(n) => break n.to_string(), T::P(b'(') => { l.p -= 1; l.skip_parens(); } T::End => panic!("no name"), _ => {} } };
            let i = m.funcs.len();
            m.funcs.push(Func { name: name.clone(), is_decl: decl, weak, builtin: crate::exec::builtin_id(&name, decl), ..Default::default() });
            m.fidx.insert(name, i as u32);
            if !decl { fbodies.push((i, a, q)); }
        }
        // globals: types and addresses
        let mut addr = GLOB_BASE;
        for &(a, e) in &gl {
            let mut l = Lex::new(&src[a..e]);
            let n = if let T::G(n) = l.next() { n.to_string() } else { panic!() };
            l.expect(b'=');
            let mut constant = false; let mut external = false; let mut alias = false;
            loop { match l.peek() {
                T::W("constant") => { constant = true; l.next(); break } T::W("global") => { l.next(); break }
                T::W("alias") => { alias = true; l.next(); break }
                T::W("external") | T::W("extern_weak") => { external = true; l.next(); }
                T::P(b'(') => l.skip_parens(),
                T::End => panic!("global {n}"),
                _ => { l.next(); } } }
            let ty = m.ptype(&mut l);
            if alias {
                l.expect(b','); m.ptype(&mut l);
                if let T::G(t) = l.next() { m.aliases.insert(n, t.to_string()); }
                continue;
            }
            let size = m.size(ty);
            let al = m.align(ty).max(16);
            addr = (addr + al - 1) / al * al;
            let init = if external { None } else { l.ws(); Some((a + l.p, e)) };
            m.gidx.insert(n.clone(), m.globals.len());
            m.globals.push(Global { name: n, addr, size, ty, init, constant });
            addr += size.max(1) + 16;
        }
        for (i, a, q) in fbodies { m.parse_func(i, &src[a..q]); }
        m
    }

    fn parse_func(&mut self, fi: usize, src: &str) {
        let eol = src.find('\n').unwrap();
        let mut l = Lex::new(&src[..eol]);
        l.next(); // define
        loop { let t = l.peek(); if is_type_start(&t) { break; } match t { T::P(b'(') => l.skip_parens(), _ => { l.next(); } } }
        let rt = self.ptype(&mut l);
        let nret = self.slots(rt);
        loop { if let T::G(_) = l.next() { break; } }
        let mut f = FB_ { m: self, regs: HashMap::new(), nregs: 0, consts: vec![], cmap: HashMap::new(), code: vec![], };
        l.expect(b'(');
        let mut unnamed = 0;
        if !l.is(b')') {
            loop {
                if l.peek() == T::Dots { l.next(); l.expect(b')'); break; }
                let t = f.m.ptype(&mut l);
                // attributes until %name
                let mut name = None;
                loop { match l.peek() { T::L(n) => { l.next(); name = Some(n.to_string()); } T::P(b',') | T::P(b')') => break, T::P(b'(') => l.skip_parens(), _ => { l.next(); } } }
                let name = name.unwrap_or_else(|| unnamed.to_string());
                if name.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
                f.reg(&name, t);
                match l.next() { T::P(b',') => {} T::P(b')') => break, _ => unreachable!() }
            }
        }
        let nargs = f.nregs;
        // split into blocks
        struct Blk<'a> { name: String, lines: Vec<&'a str> }
        let mut blks: Vec<Blk> = vec![];
        let body = &src[eol + 1..];
        let mut it = body.lines().peekable();
        let mut pending: Vec<String> = vec![];
        let _ = &mut pending;
        while let Some(ln) = it.next() {
            if ln.is_empty() { continue; }
            let b0 = ln.as_bytes()[0];
            if b0 != b' ' {
                // label
                if b0 == b';' { continue; }
                let nm = if b0 == b'"' { let q = ln[1..].find('"').unwrap(); ln[1..1 + q].to_string() } else { ln[..ln.find(':').unwrap()].to_string() };
                blks.push(Blk { name: nm, lines: vec![] });
                continue;
            }
            if blks.is_empty() { blks.push(Blk { name: unnamed.to_string(), lines: vec![] }); }
            // multi-line switch
            if ln.ends_with('[') && ln.contains("switch ") {
                let st = ln.as_ptr() as usize - src.as_ptr() as usize;
                let mut en = st + ln.len();
                for l2 in it.by_ref() { en = l2.as_ptr() as usize - src.as_ptr() as usize + l2.len(); if l2.trim_start().starts_with(']') { break; } }
                blks.last_mut().unwrap().lines.push(&src[st..en]);
                continue;
            }
            blks.last_mut().unwrap().lines.push(ln);
        }
        // phis first (need slots)
        struct Phi { d: u32, n: u32, inc: Vec<(Vec<O>, String)> }
        let bidx: HashMap<String, usize> = blks.iter().enumerate().map(|(i, b)| (b.name.clone(), i)).collect();
        let mut phis: Vec<Vec<Phi>> = vec![];
        let mut starts: Vec<u32> = vec![];
        let mut edges: Vec<(usize, usize)> = vec![]; // from block, to block
        for bi in 0..blks.len() {
            let mut ps = vec![];
            starts.push(f.code.len() as u32);
            for ln in &blks[bi].lines {
                let t = ln.trim_start();
                if let Some(eq) = t.find(" = phi ") {
                    if t.starts_with('%') {
                        let mut l = Lex::new(t);
                        let name = if let T::L(n) = l.next() { n } else { unreachable!() };
                        let _ = eq;
                        l.next(); l.next();
                        while let T::W("nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") = l.peek() { l.next(); }
                        let ty = f.m.ptype(&mut l);
                        let d = f.reg(name, ty); let n = f.m.slots(ty);
                        let mut inc = vec![];
                        loop {
                            l.expect(b'['); let v = f.operand(&mut l, ty); l.expect(b',');
                            let b = if let T::L(b) = l.next() { b.to_string() } else { panic!() };
                            l.expect(b']'); inc.push((v, b));
                            if l.peek() == T::P(b',') { let s = l.p; l.next(); if l.peek() != T::P(b'[') { l.p = s; break; } } else { break; }
                        }
                        ps.push(Phi { d, n, inc });
                        continue;
                    }
                }
                if f.instr(t, bi, &bidx, &mut edges, rt).is_err() { f.code.push(I::Unsup(t.chars().take(120).collect())); }
            }
            phis.push(ps);
        }
        let mut es = vec![];
        for &(from, to) in &edges {
            let fname = &blks[from].name;
            let mut copies = vec![];
            for p in &phis[to] {
                if let Some((v, _)) = p.inc.iter().find(|(_, b)| b == fname) {
                    for k in 0..p.n { if v[k as usize] != p.d + k { copies.push((p.d + k, v[k as usize])); } }
                } else { panic!("phi without incoming {} in {}", fname, src.lines().next().unwrap()) }
            }
            es.push(Edge { pc: starts[to], copies: copies.into() });
        }
        let (code, consts, nregs) = (std::mem::take(&mut f.code), std::mem::take(&mut f.consts), f.nregs);
        let fun = &mut self.funcs[fi];
        fun.code = code; fun.consts = consts; fun.nregs = nregs; fun.nargs = nargs; fun.edges = es; fun.nret = nret;
    }
}
fn memchr(c: u8, s: &[u8]) -> Option<usize> { s.iter().position(|x| *x == c) }

struct FB_<'m> { m: &'m mut Module, regs: HashMap<String, u32>, nregs: u32, consts: Vec<u64>, cmap: HashMap<u64, u32>, code: Vec<I> }
impl<'m> FB_<'m> {
    fn reg(&mut self, n: &str, t: TyId) -> u32 {
        if let Some(&r) = self.regs.get(n) { return r; }
        let s = self.m.slots(t); let r = self.nregs; self.nregs += s; self.regs.insert(n.to_string(), r); r
    }
    fn tmp(&mut self) -> u32 { let r = self.nregs; self.nregs += 1; r }
    fn k(&mut self, c: u64) -> O {
        if let Some(&i) = self.cmap.get(&c) { return i | HI; }
        let i = self.consts.len() as u32; self.consts.push(c); self.cmap.insert(c, i); i | HI
    }
    fn operand(&mut self, l: &mut Lex, t: TyId) -> Vec<O> {
        if let T::L(n) = l.peek() { l.next(); let r = self.reg(n, t); let s = self.m.slots(t); return (0..s).map(|i| r + i).collect(); }
        let mut v = vec![]; self.m.pconst(l, t, &mut v);
        v.into_iter().map(|c| self.k(c)).collect()
    }
    fn typed(&mut self, l: &mut Lex) -> (TyId, Vec<O>) {
        let t = self.m.ptype(l);
        self.skip_attrs(l);
        if matches!(self.m.tys[t as usize], Ty::Meta) { // skip
            loop { match l.peek() { T::P(b',') | T::P(b')') => break, T::P(b'(') => l.skip_parens(), _ => { l.next(); } } }
            return (t, vec![]);
        }
        let o = self.operand(l, t); (t, o)
    }
    fn skip_attrs(&mut self, l: &mut Lex) {
        loop {
            match l.peek() {
                T::W("align") => { l.next(); if l.peek() == T::P(b'(') { l.skip_parens() } else { l.next(); } }
                T::W("true" | "false" | "null" | "none" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" | "zext" | "sext" | "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "blockaddress" | "dso_local_equivalent" | "no_cfi" | "addrspacecast" | "asm") => break,
                T::W(_) => { l.next(); if l.peek() == T::P(b'(') { l.skip_parens(); } }
                T::S(_) => { l.next(); if l.is(b'=') { l.next(); } }
                _ => break,
            }
        }
    }
    fn edge(&mut self, edges: &mut Vec<(usize, usize)>, from: usize, to: usize) -> u32 { edges.push((from, to)); edges.len() as u32 - 1 }
    fn label(&mut self, l: &mut Lex, bidx: &HashMap<String, usize>) -> usize {
        let w = l.next(); assert_eq!(w, T::W("label"));
        if let T::L(n) = l.next() { bidx[n] } else { panic!() }
    }
    fn is_int_ok(&self, t: TyId) -> bool { let (_, e) = self.m.lanes(t); match &self.m.tys[e as usize] { Ty::Int(n) => *n <= 64 || *n == 128, Ty::Ptr => true, _ => false } }
    fn instr(&mut self, t: &str, bi: usize, bidx: &HashMap<String, usize>, edges: &mut Vec<(usize, usize)>, rt: TyId) -> Result<(), ()> {
        let mut l = Lex::new(t);
        let l = &mut l;
        let mut dname: Option<&str> = None;
        if let T::L(n) = l.peek() { l.next(); l.expect(b'='); dname = Some(n); }
        let op = match l.next() { T::W(w) => w, T::A | T::M => return Ok(()), x => panic!("op {x:?} in {t}") };
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while let T::W("nuw" | "nsw" | "exact" | "disjoint") = l.peek() { l.next(); }
                let ty = self.m.ptype(l);
                if !self.is_int_ok(ty) { return Err(()); }
                let a = self.operand(l, ty); l.expect(b','); let b = self.operand(l, ty);
                let d = self.reg(dname.unwrap(), ty); let w = self.m.width(ty);
                let o = match op { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, _ => Op::AShr };
                if w == 128 { for i in 0..a.len() / 2 { self.code.push(I::Bin128 { op: o, d: d + 2 * i as u32, a: [a[2 * i], a[2 * i + 1]], b: [b[2 * i], b[2 * i + 1]] }); } return Ok(()); }
                for i in 0..a.len() { self.code.push(I::Bin { op: o, w: w as u8, d: d + i as u32, a: a[i], b: b[i] }); }
            }
            "icmp" => {
                if l.peek() == T::W("samesign") { l.next(); }
                let pred = match l.next() { T::W(w) => w, _ => panic!() };
                let ty = self.m.ptype(l);
                if !self.is_int_ok(ty) { return Err(()); }
                let a = self.operand(l, ty); l.expect(b','); let b = self.operand(l, ty);
                let (n, _) = self.m.lanes(ty); let i1 = self.m.ty(Ty::Int(1));
                let dt = if n > 1 || matches!(self.m.tys[ty as usize], Ty::Vec(..)) { self.m.ty(Ty::Vec(n as u64, i1)) } else { i1 };
                let d = self.reg(dname.unwrap(), dt); let w = self.m.width(ty);
                let (o, swap, neg) = match pred { "eq" => (Op::Eq, false, false), "ne" => (Op::Eq, false, true), "ult" => (Op::Ult, false, false), "ule" => (Op::Ule, false, false), "ugt" => (Op::Ult, true, false), "uge" => (Op::Ule, true, false), "slt" => (Op::Slt, false, false), "sle" => (Op::Sle, false, false), "sgt" => (Op::Slt, true, false), "sge" => (Op::Sle, true, false), _ => panic!() };
                let (a, b) = if swap { (b, a) } else { (a, b) };
                if w == 128 { self.code.push(I::Cmp128 { op: o, neg, d, a: [a[0], a[1]], b: [b[0], b[1]] }); return Ok(()); }
                for i in 0..a.len() {
                    self.code.push(I::Bin { op: o, w: w as u8, d: d + i as u32, a: a[i], b: b[i] });
                    if neg { let one = self.k(1); self.code.push(I::Bin { op: Op::Xor, w: 1, d: d + i as u32, a: d + i as u32, b: one }); }
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" => {
                while let T::W("nuw" | "nsw" | "nneg") = l.peek() { l.next(); }
                let (ft, a) = self.typed(l); let to = l.next(); assert_eq!(to, T::W("to")); let tt = self.m.ptype(l);
                let d = self.reg(dname.unwrap(), tt);
                if op == "bitcast" { return self.bitcast(ft, a, tt, d); }
                if !self.is_int_ok(ft) || !self.is_int_ok(tt) { return Err(()); }
                let (fw, tw) = (self.m.width(ft), self.m.width(tt));
                let k = match op { "trunc" => CastK::Trunc, "sext" => CastK::Sext, "zext" => CastK::Zext, _ => if fw > tw { CastK::Trunc } else { CastK::Zext } };
                let n = self.m.lanes(ft).0 as usize;
                let (fs, ts) = (a.len() / n, if tw == 128 { 2 } else { 1 });
                for i in 0..n as u32 {
                    let lo = a[i as usize * fs]; let dd = d + i * ts;
                    if fs == 2 { if ts == 2 { self.code.push(I::Mov { d: dd, a: lo }); self.code.push(I::Mov { d: dd + 1, a: a[i as usize * 2 + 1] }); } else { self.code.push(I::Cast { k: CastK::Trunc, fw: 64, tw: tw as u8, d: dd, a: lo }); } }
                    else if ts == 2 {
                        self.code.push(I::Cast { k, fw: fw as u8, tw: 64, d: dd, a: lo });
                        if k == CastK::Sext { let s = self.k(63); self.code.push(I::Bin { op: Op::AShr, w: 64, d: dd + 1, a: dd, b: s }); }
                        else { let z = self.k(0); self.code.push(I::Mov { d: dd + 1, a: z }); }
                    } else if fw == tw { self.code.push(I::Mov { d: dd, a: lo }); }
                    else { self.code.push(I::Cast { k, fw: fw as u8, tw: tw as u8, d: dd, a: lo }); }
                }
            }
            "freeze" => { let (ty, a) = self.typed(l); let d = self.reg(dname.unwrap(), ty); for i in 0..a.len() { self.code.push(I::Mov { d: d + i as u32, a: a[i] }); } }
            "select" => {
                while let T::W("nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") = l.peek() { l.next(); }
                let (ct, c) = self.typed(l); l.expect(b','); let (ty, a) = self.typed(l); l.expect(b','); let (_, b) = self.typed(l);
                let d = self.reg(dname.unwrap(), ty);
                let mut lv = vec![]; self.m.leaves(ty, 0, &mut lv);
                let isv = matches!(self.m.tys[ct as usize], Ty::Vec(..));
                for i in 0..a.len() { self.code.push(I::Sel { d: d + i as u32, c: if isv { c[i] } else { c[0] }, a: a[i], b: b[i], w: lv[i].w }); }
            }
            "alloca" => {
                if l.peek() == T::W("inalloca") { l.next(); }
                let ty = self.m.ptype(l); let mut n = self.k(1); let mut al = self.m.align(ty);
                while l.is(b',') {
                    if l.word("align") { if let T::N(x) = l.next() { al = x.parse().unwrap(); } }
                    else if let T::M = l.peek() { break; }
                    else { let (_, o) = self.typed(l); n = o[0]; }
                }
                let pt = self.m.ty(Ty::Ptr); let d = self.reg(dname.unwrap(), pt);
                let size = self.m.size(ty);
                self.code.push(I::Alloca { d, size, align: al, n });
            }
            "load" => {
                while let T::W("atomic" | "volatile") = l.peek() { l.next(); }
                let ty = self.m.ptype(l); l.expect(b','); let (_, p) = self.typed(l);
                let d = self.reg(dname.unwrap(), ty);
                if let Ty::Vec(n, e) = self.m.tys[ty as usize].clone() { if let Ty::Int(w) = self.m.tys[e as usize] { if w % 8 != 0 { let _ = n; return Err(()); } } }
                if let Ty::Int(w) = self.m.tys[ty as usize] { if w > 64 && w != 128 { return Err(()); } }
                let mut lv = vec![]; self.m.leaves(ty, 0, &mut lv);
                for (i, f) in lv.iter().enumerate() { self.code.push(I::Ld { w: f.w, size: f.size, d: d + i as u32, p: p[0], off: f.off }); }
                // loading over the pointer register itself cannot happen in SSA
            }
            "store" => {
                while let T::W("atomic" | "volatile") = l.peek() { l.next(); }
                let (ty, v) = self.typed(l); l.expect(b','); let (_, p) = self.typed(l);
                if let Ty::Vec(_, e) = self.m.tys[ty as usize].clone() { if let Ty::Int(w) = self.m.tys[e as usize] { if w % 8 != 0 { return Err(()); } } }
                if let Ty::Int(w) = self.m.tys[ty as usize] { if w > 64 && w != 128 { return Err(()); } }
                let mut lv = vec![]; self.m.leaves(ty, 0, &mut lv);
                for (i, f) in lv.iter().enumerate() { self.code.push(I::St { w: f.w, size: f.size, p: p[0], off: f.off, v: v[i] }); }
            }
            "getelementptr" => {
                while let T::W("inbounds" | "nuw" | "nusw" | "inrange") = l.peek() { l.next(); if l.peek() == T::P(b'(') { l.skip_parens(); } }
                let et = self.m.ptype(l); l.expect(b','); let (bt, base) = self.typed(l);
                if matches!(self.m.tys[bt as usize], Ty::Vec(..)) { return Err(()); }
                let pt = self.m.ty(Ty::Ptr); let d = self.reg(dname.unwrap(), pt);
                let mut off: u64 = 0; let mut terms: Vec<(O, u64, u8)> = vec![]; let mut cur = et; let mut first = true;
                while l.peek() == T::P(b',') {
                    let s = l.p; l.next(); if let T::M = l.peek() { l.p = s; break; }
                    let (it, iv) = self.typed(l); let iw = self.m.width(it) as u8;
                    let cst = if iv[0] & HI != 0 { Some(sx(self.consts[(iv[0] & !HI) as usize], iw)) } else { None };
                    if first { first = false; let s = self.m.size(cur); match cst { Some(c) => off = off.wrapping_add((c as u64).wrapping_mul(s)), None => terms.push((iv[0], s, iw)) } }
                    else { match self.m.tys[cur as usize].clone() {
                        Ty::Struct(..) => { let (o, x) = self.m.field_off(cur, cst.unwrap() as usize); off = off.wrapping_add(o); cur = x; }
                        Ty::Arr(_, e) | Ty::Vec(_, e) => { let s = self.m.size(e); match cst { Some(c) => off = off.wrapping_add((c as u64).wrapping_mul(s)), None => terms.push((iv[0], s, iw)) } cur = e; }
                        _ => return Err(()) } }
                }
                if terms.is_empty() { self.code.push(I::GepC { d, base: base[0], off }); }
                let mut b = base[0]; let mut o = off;
                let n = terms.len();
                for (k, (i, s, w)) in terms.into_iter().enumerate() {
                    let dd = if k + 1 == n { d } else { self.tmp() };
                    self.code.push(I::Gep { d: dd, base: b, off: o, idx: i, scale: s, iw: w }); b = dd; o = 0;
                }
            }
            "extractvalue" => {
                let (ty, a) = self.typed(l); let (s, t) = self.agg_path(l, ty);
                let n = self.m.slots(t); let d = self.reg(dname.unwrap(), t);
                for i in 0..n { self.code.push(I::Mov { d: d + i, a: a[(s + i) as usize] }); }
            }
            "insertvalue" => {
                let (ty, a) = self.typed(l); l.expect(b','); let (_, v) = self.typed(l); let (s, _) = self.agg_path(l, ty);
                let d = self.reg(dname.unwrap(), ty);
                for i in 0..a.len() as u32 { let x = if i >= s && i < s + v.len() as u32 { v[(i - s) as usize] } else { a[i as usize] }; self.code.push(I::Mov { d: d + i, a: x }); }
            }
            "extractelement" => {
                let (ty, a) = self.typed(l); l.expect(b','); let (_, i) = self.typed(l);
                let (n, e) = self.m.lanes(ty); let d = self.reg(dname.unwrap(), e);
                if i[0] & HI == 0 { return Err(()); }
                let ix = self.consts[(i[0] & !HI) as usize] as usize; let s = a.len() / n as usize;
                for k in 0..s { self.code.push(I::Mov { d: d + k as u32, a: a[ix * s + k] }); }
            }
            "insertelement" => {
                let (ty, a) = self.typed(l); l.expect(b','); let (_, v) = self.typed(l); l.expect(b','); let (_, i) = self.typed(l);
                if i[0] & HI == 0 { return Err(()); }
                let ix = self.consts[(i[0] & !HI) as usize] as usize; let d = self.reg(dname.unwrap(), ty); let s = v.len();
                for k in 0..a.len() { let x = if k / s == ix { v[k % s] } else { a[k] }; self.code.push(I::Mov { d: d + k as u32, a: x }); }
            }
            "shufflevector" => {
                let (ty, a) = self.typed(l); l.expect(b','); let (_, b) = self.typed(l); l.expect(b','); 
                let mt = self.m.ptype(l); let mut mv = vec![]; self.m.pconst(l, mt, &mut mv);
                let (n, e) = self.m.lanes(ty); let (rn, _) = self.m.lanes(mt);
                let dt = self.m.ty(Ty::Vec(rn as u64, e)); let d = self.reg(dname.unwrap(), dt); let s = a.len() / n as usize;
                for (i, &x) in mv.iter().enumerate() { for k in 0..s {
                    let x = x as usize; let src = if x < n as usize { a[x * s + k] } else { b[(x - n as usize) * s + k] };
                    self.code.push(I::Mov { d: d + (i * s + k) as u32, a: src }); } }
            }
            "br" => {
                if l.peek() == T::W("label") { let b = self.label(l, bidx); let e = self.edge(edges, bi, b); self.code.push(I::Br(e)); }
                else { let (_, c) = self.typed(l); l.expect(b','); let t1 = self.label(l, bidx); l.expect(b','); let t2 = self.label(l, bidx);
                    let t = self.edge(edges, bi, t1); let f = self.edge(edges, bi, t2); self.code.push(I::CBr { c: c[0], t, f }); }
            }
            "switch" => {
                let (ty, v) = self.typed(l); l.expect(b','); let db = self.label(l, bidx); let def = self.edge(edges, bi, db);
                l.expect(b'['); let mut cases = vec![];
                let mut bye: HashMap<usize, u32> = HashMap::new();
                while !l.is(b']') {
                    let t = self.m.ptype(l); let mut c = vec![]; self.m.pconst(l, t, &mut c); l.expect(b','); let b = self.label(l, bidx);
                    let e = match bye.get(&b) { Some(&e) => e, None => { let e = self.edge(edges, bi, b); bye.insert(b, e); e } };
                    cases.push((c[0], e));
                }
                if v.len() != 1 { return Err(()); }
                let w = self.m.width(ty) as u8;
                self.code.push(I::Sw { v: v[0], w, t: Box::new(SwTable::new(cases, def)) });
            }
            "ret" => {
                if l.peek() == T::W("void") { self.code.push(I::Ret(Box::new([]))); } else { let ty = self.m.ptype(l); let v = self.operand(l, ty); let _ = rt; self.code.push(I::Ret(v.into())); }
            }
            "unreachable" => self.code.push(I::Unreach),
            "fence" => {}
            "tail" | "musttail" | "notail" => { l.next(); return self.call(l, dname, t); }
            "call" => return self.call(l, dname, t),
            "atomicrmw" => {
                if l.peek() == T::W("volatile") { l.next(); }
                let o = match l.next() { T::W(w) => w, _ => panic!() };
                let o = match o { "xchg" => 0, "add" => 1, "sub" => 2, "and" => 3, "or" => 4, "xor" => 5, "umax" => 6, "umin" => 7, _ => return Err(()) };
                let (_, p) = self.typed(l); l.expect(b','); let (ty, v) = self.typed(l);
                let d = self.reg(dname.unwrap_or("$dead"), ty); let w = self.m.width(ty) as u8;
                self.code.push(I::Rmw { op: o, size: (w + 7) / 8, w, d, p: p[0], v: v[0] });
            }
            "cmpxchg" => {
                while let T::W("weak" | "volatile") = l.peek() { l.next(); }
                let (_, p) = self.typed(l); l.expect(b','); let (ty, c) = self.typed(l); l.expect(b','); let (_, n) = self.typed(l);
                let i1 = self.m.ty(Ty::Int(1)); let st = self.m.ty(Ty::Struct(vec![ty, i1], false));
                let d = self.reg(dname.unwrap_or("$dead2"), st); let w = self.m.width(ty) as u8;
                self.code.push(I::Cxg { size: (w + 7) / 8, w, d, p: p[0], c: c[0], n: n[0] });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while let T::W("nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") = l.peek() { l.next(); }
                let ty = self.m.ptype(l); let a = self.operand(l, ty); l.expect(b','); let b = self.operand(l, ty);
                let d = self.reg(dname.unwrap(), ty); let w = self.m.width(ty) as u8;
                let o = match op { "fadd" => FB::Add, "fsub" => FB::Sub, "fmul" => FB::Mul, "fdiv" => FB::Div, _ => FB::Rem };
                for i in 0..a.len() { self.code.push(I::FBin { op: o, w, d: d + i as u32, a: a[i], b: b[i] }); }
            }
            "fneg" => { let (ty, a) = self.typed(l); let d = self.reg(dname.unwrap(), ty); let w = self.m.width(ty) as u8; self.code.push(I::In { k: In::FUn(FU::Neg), w, d, args: a.into() }); }
            "fcmp" => {
                while let T::W("nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") = l.peek() { l.next(); }
                let p = match l.next() { T::W(w) => w, _ => panic!() };
                let ty = self.m.ptype(l); let a = self.operand(l, ty); l.expect(b','); let b = self.operand(l, ty);
                let i1 = self.m.ty(Ty::Int(1)); let d = self.reg(dname.unwrap(), i1); let w = self.m.width(ty) as u8;
                let names = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"];
                let pred = names.iter().position(|x| *x == p).unwrap() as u8;
                self.code.push(I::FCmp { pred, w, d, a: a[0], b: b[0] });
            }
            "sitofp" | "uitofp" | "fptosi" | "fptoui" | "fpext" | "fptrunc" => {
                if l.peek() == T::W("nneg") { l.next(); }
                let (ft, a) = self.typed(l); l.next(); let tt = self.m.ptype(l);
                let d = self.reg(dname.unwrap(), tt);
                let k = match op { "sitofp" => FC::SiToF, "uitofp" => FC::UiToF, "fptosi" => FC::FToSi, "fptoui" => FC::FToUi, _ => FC::FToF };
                let (fw, tw) = (self.m.width(ft) as u8, self.m.width(tt) as u8);
                if fw > 64 || tw > 64 { return Err(()); }
                self.code.push(I::FCast { k, fw, tw, d, a: a[0] });
            }
            _ => { if let Some(n) = dname { // unknown: reserve nothing
                    let _ = n; } return Err(()); }
        }
        Ok(())
    }
    fn agg_path(&mut self, l: &mut Lex, ty: TyId) -> (u32, TyId) {
        let mut s = 0; let mut cur = ty;
        while l.peek() == T::P(b',') {
            let save = l.p; l.next();
            let i = match l.next() { T::N(n) => n.parse::<usize>().unwrap(), _ => { l.p = save; break; } };
            match self.m.tys[cur as usize].clone() {
                Ty::Struct(v, _) => { for x in &v[..i] { s += self.m.slots(*x); } cur = v[i]; }
                Ty::Arr(_, e) => { s += self.m.slots(e) * i as u32; cur = e; }
                _ => panic!("agg"),
            }
        }
        (s, cur)
    }
    fn bitcast(&mut self, ft: TyId, a: Vec<O>, tt: TyId, d: u32) -> Result<(), ()> {
        let mut fl = vec![]; self.m.leaves(ft, 0, &mut fl); let mut tl = vec![]; self.m.leaves(tt, 0, &mut tl);
        if fl.len() == tl.len() && fl.iter().zip(&tl).all(|(x, y)| x.w == y.w) { for i in 0..a.len() { self.code.push(I::Mov { d: d + i as u32, a: a[i] }); } return Ok(()); }
        // generic: pack into 64-bit words then unpack
        let total: u32 = fl.iter().map(|x| x.w as u32).sum();
        let words = (total + 63) / 64;
        let mut wr = vec![];
        let mut bit = 0u32;
        for _ in 0..words { let t = self.tmp(); let z = self.k(0); self.code.push(I::Mov { d: t, a: z }); wr.push(t); }
        for (i, f) in fl.iter().enumerate() {
            let wi = (bit / 64) as usize; let sh = bit % 64;
            if sh + f.w as u32 > 64 { return Err(()); }
            let t = self.tmp();
            if f.w < 64 { self.code.push(I::Cast { k: CastK::Zext, fw: f.w, tw: 64, d: t, a: a[i] }); } else { self.code.push(I::Mov { d: t, a: a[i] }); }
            if sh > 0 { let s = self.k(sh as u64); self.code.push(I::Bin { op: Op::Shl, w: 64, d: t, a: t, b: s }); }
            self.code.push(I::Bin { op: Op::Or, w: 64, d: wr[wi], a: wr[wi], b: t });
            bit += f.w as u32;
        }
        bit = 0;
        for (i, f) in tl.iter().enumerate() {
            let wi = (bit / 64) as usize; let sh = bit % 64;
            if sh + f.w as u32 > 64 { return Err(()); }
            let t = self.tmp();
            let s = self.k(sh as u64);
            self.code.push(I::Bin { op: Op::LShr, w: 64, d: t, a: wr[wi], b: s });
            if f.w < 64 { self.code.push(I::Cast { k: CastK::Trunc, fw: 64, tw: f.w, d: d + i as u32, a: t }); } else { self.code.push(I::Mov { d: d + i as u32, a: t }); }
            bit += f.w as u32;
        }
        Ok(())
    }
    fn call(&mut self, l: &mut Lex, dname: Option<&str>, text: &str) -> Result<(), ()> {
        // skip to return type
        loop { let t = l.peek(); if is_type_start(&t) { break; } match t { T::P(b'(') => l.skip_parens(), T::End => panic!("call {text}"), _ => { l.next(); } } }
        let rt = self.m.ptype(l);
        if l.peek() == T::P(b'(') { l.skip_parens(); }
        let d = dname.map(|n| self.reg(n, rt));
        let nret = self.m.slots(rt);
        let d = match d { Some(d) => d, None => { let r = self.nregs; self.nregs += nret; r } };
        let callee = l.next();
        match callee {
            T::G(n) => {
                if n.starts_with("llvm.") { return self.intrinsic(n, l, d, rt); }
                let args = self.args(l);
                let Some(&f) = self.m.fidx.get(n) else { return Err(()); };
                self.code.push(I::Call { f, d, args: args.into() });
            }
            T::L(n) => { let pt = self.m.ty(Ty::Ptr); let p = self.reg(n, pt); let args = self.args(l); self.code.push(I::CallI { p, d, nret, args: args.into() }); }
            T::W("asm") => {
                while let T::W(_) = l.peek() { l.next(); }
                let a = l.next(); l.next(); l.next();
                let args = self.args(l);
                if let T::S(s) = a {
                    if s.contains("cpuid") || s.contains("xgetbv") { self.code.push(I::CpuId { d, n: nret }); }
                    else if s.is_empty() { for i in 0..nret { let x = args.get(i as usize).copied().unwrap_or_else(|| HI); if x != HI { self.code.push(I::Mov { d: d + i, a: x }); } } }
                    else { return Err(()); }
                }
            }
            _ => return Err(()),
        }
        Ok(())
    }
    fn args(&mut self, l: &mut Lex) -> Vec<O> {
        let mut v = vec![]; l.expect(b'(');
        if l.is(b')') { return v; }
        loop { let (_, o) = self.typed(l); v.extend(o); match l.next() { T::P(b',') => {} T::P(b')') => break, t => panic!("args {t:?} {}", l.near()) } }
        v
    }
    fn intrinsic(&mut self, n: &str, l: &mut Lex, d: u32, rt: TyId) -> Result<(), ()> {
        let base = n.trim_start_matches("llvm.");
        let starts = |p: &str| base.starts_with(p);
        if starts("lifetime") || starts("assume") || starts("experimental.noalias") || starts("dbg") || starts("donothing") || starts("invariant") || starts("prefetch") || starts("sideeffect") || starts("x86.sse2.pause") || starts("va_") || starts("fake.use") { return Ok(()); }
        let args = self.args(l);
        let w = self.m.width(rt); 
        if w > 64 && !starts("mem") { 
            return self.intr128(base, args, d);
        }
        let w8 = w as u8;
        let push = |s: &mut Self, k: In, ar: Vec<O>, w: u8, d: u32| s.code.push(I::In { k, w, d, args: ar.into() });
        let (n_l, _) = self.m.lanes(rt);
        let isvec = matches!(self.m.tys[rt as usize], Ty::Vec(..));
        let lanewise2 = |s: &mut Self, k: In| { let h = args.len() / 2; for i in 0..h { s.code.push(I::In { k, w: w8, d: d + i as u32, args: vec![args[i], args[h + i]].into() }); } };
        let two = [("umin.", In::UMin), ("umax.", In::UMax), ("smin.", In::SMin), ("smax.", In::SMax), ("uadd.sat", In::UAddS), ("usub.sat", In::USubS), ("sadd.sat", In::SAddS), ("ssub.sat", In::SSubS)];
        for (p, k) in two { if starts(p) { lanewise2(self, k); return Ok(()); } }
        let _ = (n_l, isvec);
        let ovf = [("uadd.with.overflow", In::UAddO), ("usub.with.overflow", In::USubO), ("umul.with.overflow", In::UMulO), ("sadd.with.overflow", In::SAddO), ("ssub.with.overflow", In::SSubO), ("smul.with.overflow", In::SMulO)];
        for (p, k) in ovf { if starts(p) {
            let aw: u32 = base.rsplit('.').next().unwrap()[1..].parse().unwrap(); if aw > 64 { return Err(()); }
            push(self, k, args, aw as u8, d); return Ok(()); } }
        let un = [("ctpop", UnOp::Ctpop), ("ctlz", UnOp::Ctlz), ("cttz", UnOp::Cttz), ("bswap", UnOp::Bswap), ("bitreverse", UnOp::BitRev)];
        for (p, k) in un { if starts(p) { let n = self.m.lanes(rt).0; for i in 0..n { push(self, In::Un(k), vec![args[i as usize]], w8, d + i); } return Ok(()); } }
        if starts("abs.") { let n = self.m.lanes(rt).0; for i in 0..n { push(self, In::Abs, vec![args[i as usize]], w8, d + i); } return Ok(()); }
        if starts("fshl") || starts("fshr") { let k = if starts("fshl") { In::FShl } else { In::FShr }; let h = args.len() / 3; for i in 0..h { push(self, k, vec![args[i], args[h + i], args[2 * h + i]], w8, d + i as u32); } return Ok(()); }
        if starts("ucmp") || starts("scmp") {
            let aw: u32 = base.rsplit('.').next().unwrap()[1..].parse().unwrap(); if aw > 64 { return Err(()); }
            let c = self.k(aw as u64); let mut ar = args; ar.push(c);
            push(self, if starts("ucmp") { In::UCmp } else { In::SCmp }, ar, w8, d); return Ok(()); }
        if starts("memcpy") || starts("memmove") { push(self, In::Memcpy, args, 0, d); return Ok(()); }
        if starts("memset") { push(self, In::Memset, args, 0, d); return Ok(()); }
        if starts("trap") || starts("ubsantrap") { push(self, In::Trap, vec![], 0, d); return Ok(()); }
        if starts("expect") || starts("threadlocal.address") || starts("launder") || starts("strip.invariant") || starts("ssa.copy") || starts("protected") { self.code.push(I::Mov { d, a: args[0] }); return Ok(()); }
        if starts("is.constant") { let z = self.k(0); self.code.push(I::Mov { d, a: z }); return Ok(()); }
        if starts("objectsize") { let z = self.k(mask(w8)); self.code.push(I::Mov { d, a: z }); return Ok(()); }
        if starts("ptrmask") { self.code.push(I::Bin { op: Op::And, w: 64, d, a: args[0], b: args[1] }); return Ok(()); }
        if starts("stacksave") { let z = self.k(0); self.code.push(I::Mov { d, a: z }); return Ok(()); }
        if starts("stackrestore") { return Ok(()); }
        if starts("vector.reduce.") {
            let k = base["vector.reduce.".len()..].split('.').next().unwrap();
            let op = match k { "or" => Op::Or, "and" => Op::And, "add" => Op::Add, "xor" => Op::Xor, "umax" | "umin" | "smax" | "smin" => {
                let ik = match k { "umax" => In::UMax, "umin" => In::UMin, "smax" => In::SMax, _ => In::SMin };
                self.code.push(I::Mov { d, a: args[0] }); for &x in &args[1..] { push(self, ik, vec![d, x], w8, d); } return Ok(()); } _ => return Err(()) };
            self.code.push(I::Mov { d, a: args[0] });
            for &x in &args[1..] { self.code.push(I::Bin { op, w: w8, d, a: d, b: x }); }
            return Ok(());
        }
        let fu = [("floor", FU::Floor), ("ceil", FU::Ceil), ("trunc.f", FU::Trunc), ("sqrt", FU::Sqrt), ("fabs", FU::Fabs), ("round.", FU::Round), ("rint", FU::Rint), ("roundeven", FU::Rint)];
        for (p, k) in fu { if starts(p) { push(self, In::FUn(k), args, w8, d); return Ok(()); } }
        let fb = [("minnum", FB::Min), ("maxnum", FB::Max), ("copysign", FB::Copysign)];
        for (p, k) in fb { if starts(p) { push(self, In::FBin2(k), args, w8, d); return Ok(()); } }
        if starts("x86.sse2.pmovmskb") {
            let t = self.tmp(); let z = self.k(0); self.code.push(I::Mov { d, a: z });
            for (i, &x) in args.iter().enumerate() {
                let c7 = self.k(7);
                self.code.push(I::Bin { op: Op::LShr, w: 8, d: t, a: x, b: c7 });
                self.code.push(I::Cast { k: CastK::Zext, fw: 8, tw: 32, d: t, a: t });
                let s = self.k(i as u64); self.code.push(I::Bin { op: Op::Shl, w: 32, d: t, a: t, b: s });
                self.code.push(I::Bin { op: Op::Or, w: 32, d, a: d, b: t });
            }
            return Ok(());
        }
        if starts("fptoui.sat") || starts("fptosi.sat") {
            let fw = if base.ends_with("f32") { 32 } else { 64 };
            self.code.push(I::FCast { k: if starts("fptoui") { FC::FToUi } else { FC::FToSi }, fw, tw: w8, d, a: args[0] }); return Ok(());
        }
        Err(())
    }
    fn intr128(&mut self, base: &str, args: Vec<O>, d: u32) -> Result<(), ()> {
        if base.starts_with("bswap") {
            self.code.push(I::In { k: In::Un(UnOp::Bswap), w: 64, d, args: vec![args[1]].into() });
            self.code.push(I::In { k: In::Un(UnOp::Bswap), w: 64, d: d + 1, args: vec![args[0]].into() }); return Ok(());
        }
        Err(())
    }
}
