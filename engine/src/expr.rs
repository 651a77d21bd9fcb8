//! Hash-consed bit-vector expressions over 8-bit symbolic variables.
//! Expressions over a single variable carry a complete value table (256 entries), which makes
//! feasibility of single-variable conditions a set intersection; every such table that decides a
//! branch is certified once against the SMT solver (see z3.rs / Eng::certify).
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Concat, MulHi,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum UnOp { Ctpop, Ctlz, Cttz, Bswap, BitRev }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u64),
    Var(u8),
    Bin(Op, E, E),
    Ite(E, E, E),
    Zext(E),
    Sext(E),
    Extract(E, u8),
    Un(UnOp, E),
    /// value of a table indexed by the value of an expression; first entry is the default
    Read(E, Rc<[(u64, u64)]>),
}

pub type Bits = [u64; 4];
pub enum Tab { B(Bits), U8(Box<[u8; 256]>), U64(Box<[u64; 256]>) }
impl Tab {
    #[inline] pub fn get(&self, i: usize) -> u64 {
        match self { Tab::B(b) => (b[i >> 6] >> (i & 63)) & 1, Tab::U8(t) => t[i] as u64, Tab::U64(t) => t[i] }
    }
}
pub struct Info { pub node: Node, pub w: u8, pub vars: u64, pub tab: Option<Tab> }

pub struct Exprs {
    pub v: Vec<Info>,
    map: HashMap<(u8, Node), E>,
    pub dom: Vec<Bits>, // declared domains
    pub names: Vec<String>,
    pub varmap: Vec<(u8, E)>,
    // conditional equality chains built by memory reads must not depend on declared domains
}

#[inline] pub fn mask(w: u8) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
#[inline] pub fn sx(v: u64, w: u8) -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } }

pub fn apply(op: Op, w: u8, a: u64, b: u64, wb: u8) -> u64 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u64) & m } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u64) & m } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u64 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u64 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u64 { w as u64 - 1 } else { b }; ((sx(a, w) >> s) as u64) & m }
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Ule => (a <= b) as u64,
        Op::Slt => (sx(a, w) < sx(b, w)) as u64,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u64,
        Op::Concat => (a << wb) | b,
        Op::MulHi => ((a as u128 * b as u128) >> 64) as u64,
    }
}
pub fn apply_un(op: UnOp, w: u8, a: u64) -> u64 {
    match op {
        UnOp::Ctpop => a.count_ones() as u64,
        UnOp::Ctlz => if a == 0 { w as u64 } else { (a.leading_zeros() as u64) - (64 - w as u64) },
        UnOp::Cttz => if a == 0 { w as u64 } else { a.trailing_zeros() as u64 },
        UnOp::Bswap => a.swap_bytes() >> (64 - w as u64),
        UnOp::BitRev => a.reverse_bits() >> (64 - w as u64),
    }
}

impl Exprs {
    pub fn new() -> Self {
        let mut x = Exprs { v: vec![], map: HashMap::new(), dom: vec![], names: vec![], varmap: vec![] };
        // index 0 is reserved (0 = concrete)
        x.v.push(Info { node: Node::Const(0), w: 0, vars: 0, tab: None });
        x
    }
    #[inline] pub fn w(&self, e: E) -> u8 { self.v[e as usize].w }
    #[inline] pub fn vars(&self, e: E) -> u64 { self.v[e as usize].vars }
    #[inline] pub fn as_const(&self, e: E) -> Option<u64> { if let Node::Const(c) = self.v[e as usize].node { Some(c) } else { None } }
    pub fn new_var(&mut self, name: String, dom: Bits) -> E {
        let id = self.dom.len();
        assert!(id < 64, "too many symbolic bytes");
        self.dom.push(dom);
        self.names.push(name);
        let mut t = Box::new([0u8; 256]);
        for i in 0..256 { t[i] = i as u8; }
        let e = self.v.len() as E;
        self.v.push(Info { node: Node::Var(id as u8), w: 8, vars: 1 << id, tab: Some(Tab::U8(t)) });
        e
    }
    pub fn cst(&mut self, w: u8, c: u64) -> E {
        let c = c & mask(w);
        self.intern(w, Node::Const(c))
    }
    fn intern(&mut self, w: u8, n: Node) -> E {
        if let Some(&e) = self.map.get(&(w, n.clone())) { return e; }
        let vars = match &n {
            Node::Const(_) => 0,
            Node::Var(_) => unreachable!(),
            Node::Bin(_, a, b) => self.vars(*a) | self.vars(*b),
            Node::Ite(a, b, c) => self.vars(*a) | self.vars(*b) | self.vars(*c),
            Node::Zext(a) | Node::Sext(a) | Node::Extract(a, _) | Node::Un(_, a) | Node::Read(a, _) => self.vars(*a),
        };
        let mut tab = None;
        if vars != 0 && vars & (vars - 1) == 0 {
            let var = vars.trailing_zeros() as usize;
            let mut t = [0u64; 256];
            self.fill(&n, w, &mut t);
            // constant over the declared domain?
            let d = self.dom[var];
            let mut first = None; let mut constant = true;
            for i in 0..256 {
                if (d[i >> 6] >> (i & 63)) & 1 == 1 {
                    match first { None => first = Some(t[i]), Some(f) => if f != t[i] { constant = false; break; } }
                }
            }
            if constant {
                let e = self.cst(w, first.unwrap_or(0));
                self.map.insert((w, n), e);
                return e;
            }
            tab = Some(if w == 1 {
                let mut b = [0u64; 4];
                for i in 0..256 { if t[i] & 1 == 1 { b[i >> 6] |= 1 << (i & 63); } }
                Tab::B(b)
            } else if w <= 8 {
                let mut b = Box::new([0u8; 256]);
                for i in 0..256 { b[i] = t[i] as u8; }
                Tab::U8(b)
            } else { Tab::U64(Box::new(t)) });
        }
        let e = self.v.len() as E;
        self.v.push(Info { node: n.clone(), w, vars, tab });
        self.map.insert((w, n), e);
        e
    }
    #[inline] fn tv(&self, e: E, i: usize) -> u64 {
        let inf = &self.v[e as usize];
        match (&inf.node, &inf.tab) { (Node::Const(c), _) => *c, (_, Some(t)) => t.get(i), _ => unreachable!() }
    }
    fn fill(&self, n: &Node, w: u8, t: &mut [u64; 256]) {
        match n {
            Node::Bin(op, a, b) => { let wa = self.w(*a); let wb = self.w(*b);
                for i in 0..256 { t[i] = apply(*op, wa, self.tv(*a, i), self.tv(*b, i), wb); } }
            Node::Ite(c, a, b) => for i in 0..256 { t[i] = if self.tv(*c, i) & 1 == 1 { self.tv(*a, i) } else { self.tv(*b, i) } },
            Node::Zext(a) => for i in 0..256 { t[i] = self.tv(*a, i) },
            Node::Sext(a) => { let wa = self.w(*a); for i in 0..256 { t[i] = (sx(self.tv(*a, i), wa) as u64) & mask(w) } }
            Node::Extract(a, lo) => for i in 0..256 { t[i] = (self.tv(*a, i) >> lo) & mask(w) },
            Node::Un(op, a) => { let wa = self.w(*a); for i in 0..256 { t[i] = apply_un(*op, wa, self.tv(*a, i)) } }
            Node::Read(a, ents) => {
                let m: HashMap<u64, u64> = ents.iter().rev().cloned().collect();
                let d = ents[0].1;
                for i in 0..256 { t[i] = *m.get(&self.tv(*a, i)).unwrap_or(&d) }
            }
            _ => unreachable!(),
        }
    }
    pub fn bits(&self, e: E) -> Option<Bits> {
        match &self.v[e as usize].tab { Some(Tab::B(b)) => Some(*b), _ => None }
    }
    pub fn single(&self, e: E) -> Option<usize> {
        let v = self.vars(e);
        if v != 0 && v & (v - 1) == 0 { Some(v.trailing_zeros() as usize) } else { None }
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let (wa, wb) = (self.w(a), self.w(b));
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1, Op::Concat => wa + wb, _ => wa };
        if let (Some(x), Some(y)) = (ca, cb) { let r = apply(op, wa, x, y, wb); return self.cst(rw, r); }
        // canonical order: constants on the right for commutative operators
        let (a, b, ca, cb) = match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::MulHi
                if ca.is_some() || (cb.is_none() && a > b) => (b, a, cb, ca),
            _ => (a, b, ca, cb),
        };
        let m = mask(wa);
        match op {
            Op::Add | Op::Sub | Op::Shl | Op::LShr | Op::AShr if cb == Some(0) => return a,
            Op::Or | Op::Xor if cb == Some(0) => return a,
            Op::And if cb == Some(0) => return b,
            Op::And if cb == Some(m) => return a,
            Op::Or if cb == Some(m) => return b,
            Op::Mul if cb == Some(1) => return a,
            Op::Mul if cb == Some(0) => return b,
            Op::MulHi if cb == Some(0) || cb == Some(1) => return self.cst(64, 0),
            Op::UDiv if cb == Some(1) => return a,
            Op::Sub | Op::Xor if a == b => return self.cst(wa, 0),
            Op::And | Op::Or if a == b => return a,
            Op::Eq | Op::Ule | Op::Sle if a == b => return self.cst(1, 1),
            Op::Ult | Op::Slt if a == b => return self.cst(1, 0),
            Op::Ult if cb == Some(0) => return self.cst(1, 0),
            _ => {}
        }
        if op == Op::Concat {
            if ca == Some(0) { return self.zext(b, rw); }
            if let (Node::Extract(x, lo1), Node::Extract(y, lo2)) = (self.v[a as usize].node.clone(), self.v[b as usize].node.clone()) {
                if x == y && lo1 == lo2 + wb { return self.extract(x, lo2, rw); }
            }
        }
        let multi = { let v = self.vars(a) | self.vars(b); v & (v.wrapping_sub(1)) != 0 };
        if multi { if let Some(r) = self.simp(op, a, b, ca, cb, wa) { return r; } }
        self.intern(rw, Node::Bin(op, a, b))
    }
    fn simp(&mut self, op: Op, a: E, b: E, _ca: Option<u64>, cb: Option<u64>, wa: u8) -> Option<E> {
        match op {
            Op::Xor if wa == 1 && cb == Some(1) => {
                // double negation
                if let Node::Bin(Op::Xor, x, y) = self.v[a as usize].node { if self.as_const(y) == Some(1) { return Some(x); } }
                None
            }
            Op::Eq => {
                let c = match cb { Some(c) => c, None => return None };
                if wa == 1 { return Some(if c == 1 { a } else { self.not(a) }); }
                match self.v[a as usize].node.clone() {
                    Node::Zext(x) => { let wx = self.w(x); if c > mask(wx) { return Some(self.cst(1, 0)); } let k = self.cst(wx, c); Some(self.bin(Op::Eq, x, k)) }
                    Node::Bin(Op::Concat, h, l) => {
                        let wl = self.w(l); let wh = self.w(h);
                        let kh = self.cst(wh, c >> wl); let kl = self.cst(wl, c & mask(wl));
                        let x = self.bin(Op::Eq, h, kh); let y = self.bin(Op::Eq, l, kl);
                        Some(self.bin(Op::And, x, y))
                    }
                    Node::Ite(g, x, y) => {
                        match (self.as_const(x), self.as_const(y)) {
                            (Some(p), Some(q)) => Some(if p == c && q == c { self.cst(1, 1) } else if p == c { g } else if q == c { self.not(g) } else { self.cst(1, 0) }),
                            (Some(p), None) => { let k = self.cst(wa, c); let r = self.bin(Op::Eq, y, k); Some(if p == c { self.bin(Op::Or, g, r) } else { let ng = self.not(g); self.bin(Op::And, ng, r) }) }
                            (None, Some(q)) => { let k = self.cst(wa, c); let r = self.bin(Op::Eq, x, k); Some(if q == c { let ng = self.not(g); self.bin(Op::Or, ng, r) } else { self.bin(Op::And, g, r) }) }
                            _ => None,
                        }
                    }
                    Node::Bin(Op::Or, x, y) if c == 0 => { let z = self.cst(wa, 0); let p = self.bin(Op::Eq, x, z); let q = self.bin(Op::Eq, y, z); Some(self.bin(Op::And, p, q)) }
                    Node::Bin(Op::Xor, x, y) if c == 0 => Some(self.bin(Op::Eq, x, y)),
                    Node::Bin(Op::Xor, x, y) if self.as_const(y).is_some() => { let k = self.as_const(y).unwrap() ^ c; let k = self.cst(wa, k); Some(self.bin(Op::Eq, x, k)) }
                    Node::Bin(Op::Shl, x, y) if c == 0 => {
                        // shl without lost bits
                        let s = self.as_const(y)?;
                        if let Node::Zext(z) = self.v[x as usize].node { if self.w(z) as u64 + s <= wa as u64 { let k = self.cst(self.w(z), 0); return Some(self.bin(Op::Eq, z, k)); } }
                        None
                    }
                    _ => None,
                }
            }
            Op::Ult if cb == Some(1) => { let z = self.cst(wa, 0); Some(self.bin(Op::Eq, a, z)) }
            Op::Concat => {
                // concat(extract(x,k..), extract(x,0..k))
                if let (Node::Extract(x, lo1), Node::Extract(y, lo2)) = (self.v[a as usize].node.clone(), self.v[b as usize].node.clone()) {
                    let wb = self.w(b);
                    if x == y && lo1 == lo2 + wb { return Some(self.extract(x, lo2, wa + wb)); }
                }
                None
            }
            Op::And if wa == 1 => {
                if let Node::Bin(Op::Xor, x, y) = self.v[a as usize].node { if x == b && self.as_const(y) == Some(1) { return Some(self.cst(1, 0)); } }
                if let Node::Bin(Op::Xor, x, y) = self.v[b as usize].node { if x == a && self.as_const(y) == Some(1) { return Some(self.cst(1, 0)); } }
                None
            }
            _ => None,
        }
    }
    pub fn not(&mut self, a: E) -> E { let o = self.cst(1, 1); self.bin(Op::Xor, a, o) }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) { return if k == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        self.intern(w, Node::Ite(c, a, b))
    }
    pub fn zext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(c) = self.as_const(a) { return self.cst(w, c); }
        if let Node::Zext(x) = self.v[a as usize].node { return self.zext(x, w); }
        self.intern(w, Node::Zext(a))
    }
    pub fn sext(&mut self, a: E, w: u8) -> E {
        let wa = self.w(a);
        if wa == w { return a; }
        if let Some(c) = self.as_const(a) { return self.cst(w, sx(c, wa) as u64); }
        if let Node::Zext(x) = self.v[a as usize].node { return self.zext(x, w); }
        self.intern(w, Node::Sext(a))
    }
    pub fn extract(&mut self, a: E, lo: u8, w: u8) -> E {
        let wa = self.w(a);
        if lo == 0 && wa == w { return a; }
        if let Some(c) = self.as_const(a) { return self.cst(w, c >> lo); }
        match self.v[a as usize].node.clone() {
            Node::Zext(x) => {
                let wx = self.w(x);
                if lo >= wx { return self.cst(w, 0); }
                if lo + w <= wx { return self.extract(x, lo, w); }
                if lo == 0 { return self.zext(x, w); }
            }
            Node::Extract(x, l2) => return self.extract(x, lo + l2, w),
            Node::Bin(Op::Concat, h, l) => {
                let wl = self.w(l);
                if lo >= wl { return self.extract(h, lo - wl, w); }
                if lo + w <= wl { return self.extract(l, lo, w); }
            }
            Node::Sext(x) => { let wx = self.w(x); if lo + w <= wx { return self.extract(x, lo, w); } }
            _ => {}
        }
        self.intern(w, Node::Extract(a, lo))
    }
    pub fn un(&mut self, op: UnOp, a: E) -> E {
        let w = self.w(a);
        if let Some(c) = self.as_const(a) { return self.cst(w, apply_un(op, w, c)); }
        self.intern(w, Node::Un(op, a))
    }
    pub fn read(&mut self, a: E, ents: Vec<(u64, u64)>, w: u8) -> E {
        if ents.iter().all(|x| x.1 == ents[0].1) { return self.cst(w, ents[0].1); }
        self.intern(w, Node::Read(a, ents.into()))
    }
    pub fn eval(&self, e: E, m: &[u8]) -> u64 {
        let inf = &self.v[e as usize];
        if let Some(t) = &inf.tab { return t.get(m[inf.vars.trailing_zeros() as usize] as usize); }
        match &inf.node {
            Node::Const(c) => *c,
            Node::Var(v) => m[*v as usize] as u64,
            Node::Bin(op, a, b) => {
                let x = self.eval(*a, m);
                if inf.w == 1 { // short circuit
                    if *op == Op::And && x == 0 { return 0; }
                    if *op == Op::Or && x == 1 && self.w(*a) == 1 { return 1; }
                }
                let y = self.eval(*b, m); apply(*op, self.w(*a), x, y, self.w(*b)) }
            Node::Ite(c, a, b) => if self.eval(*c, m) & 1 == 1 { self.eval(*a, m) } else { self.eval(*b, m) },
            Node::Zext(a) => self.eval(*a, m),
            Node::Sext(a) => (sx(self.eval(*a, m), self.w(*a)) as u64) & mask(inf.w),
            Node::Extract(a, lo) => (self.eval(*a, m) >> lo) & mask(inf.w),
            Node::Un(op, a) => apply_un(*op, self.w(*a), self.eval(*a, m)),
            Node::Read(a, ents) => { let k = self.eval(*a, m); ents.iter().find(|x| x.0 == k).map_or(ents[0].1, |x| x.1) }
        }
    }
}
