//! Symbolic executor over the register code of ll.rs.
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::z3::Z3;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug)]
pub struct Val { pub c: u64, pub e: E }
#[inline] fn cv(c: u64) -> Val { Val { c, e: 0 } }
#[derive(Clone, Copy)]
struct Frame { f: u32, pc: u32, base: u32, d: u32, sp: u64 }
struct Pc { e: E, next: Option<Rc<Pc>> }
impl Drop for Pc { fn drop(&mut self) { let mut n = self.next.take(); while let Some(p) = n { match Rc::try_unwrap(p) { Ok(mut q) => n = q.next.take(), Err(_) => break } } } }

const STACK: u64 = 0x0800_0000;
const STACK_END: u64 = 0x0A00_0000;
const HEAP: u64 = 0x0A00_0000;
const NCLS: usize = 96;

pub struct St {
    pub mem: Mem, regs: Vec<Val>, frames: Vec<Frame>, sp: u64, hp: u64, fl: [u64; NCLS],
    dom: Vec<Bits>, multi: Vec<E>, mvars: u64, model: Vec<u8>, order: Vec<u8>, pc: Option<Rc<Pc>>, known: Vec<(E, u64)>,
    digest: Vec<Val>, reach: Vec<u32>, steps: u64, forks: u32,
}
impl St {
    pub fn new() -> St { St { mem: Mem::new(), regs: vec![], frames: vec![], sp: STACK, hp: HEAP, fl: [0; NCLS], dom: vec![], multi: vec![], mvars: 0, model: vec![], order: vec![], pc: None, known: vec![], digest: vec![], reach: vec![], steps: 0, forks: 0 } }
    pub fn fork(&mut self) -> St {
        St { mem: self.mem.fork(), regs: self.regs.clone(), frames: self.frames.clone(), sp: self.sp, hp: self.hp, fl: self.fl, dom: self.dom.clone(), multi: self.multi.clone(), mvars: self.mvars, model: self.model.clone(), order: self.order.clone(), pc: self.pc.clone(), known: self.known.clone(), digest: self.digest.clone(), reach: self.reach.clone(), steps: self.steps, forks: self.forks }
    }
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum End { Ok, Fail(String), Known(u32), Pruned, Incomplete(String), Forked }
enum Stop { End(End) }
type R<T> = Result<T, Stop>;
fn inc<T>(s: impl Into<String>) -> R<T> { Err(Stop::End(End::Incomplete(s.into()))) }

macro_rules! builtins { ($($n:ident),*) => { #[allow(non_camel_case_types)] #[repr(u32)] #[derive(Clone, Copy)] enum B { none, $($n),* } } }
builtins!(memcpy, memset, memcmp, bcmp, strlen, malloc, calloc, realloc, posix_memalign, aligned_alloc, free, mi_malloc_aligned, mi_zalloc_aligned, mi_realloc_aligned, getrandom, zero, zero2, write, abort, panic_fmt, v_sym, v_assume, v_fail, v_known, v_reach, v_digest, v_print, errno, minus1, strerror, v_choice, v_done);
pub fn builtin_id(n: &str, decl: bool) -> u32 {
    let b = match n {
        "memcpy" | "memmove" => B::memcpy, "memset" => B::memset, "memcmp" => B::memcmp, "bcmp" => B::bcmp, "strlen" => B::strlen,
        "malloc" | "mi_malloc" => B::malloc, "calloc" => B::calloc, "realloc" | "mi_realloc" => B::realloc, "posix_memalign" => B::posix_memalign, "aligned_alloc" => B::aligned_alloc,
        "free" | "mi_free" => B::free, "mi_malloc_aligned" => B::mi_malloc_aligned, "mi_zalloc_aligned" => B::mi_zalloc_aligned, "mi_realloc_aligned" => B::mi_realloc_aligned,
        "getrandom" => B::getrandom, "getenv" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" | "sched_yield" | "__cxa_thread_atexit_impl" => B::zero,
        // the harness may bring its own files
        "open64" | "write" | "statx" if !decl => B::none,
        "write" | "writev" => B::write, "abort" => B::abort, "__errno_location" => B::errno, "getcwd" => B::zero, "__xpg_strerror_r" => B::strerror, "open" | "open64" | "stat" | "stat64" | "fstat64" | "statx" | "lstat64" | "access" | "readlink" => B::minus1,
        "v_sym" => B::v_sym, "v_assume" => B::v_assume, "v_fail" => B::v_fail, "v_known" => B::v_known, "v_reach" => B::v_reach, "v_digest" => B::v_digest, "v_print" => B::v_print, "v_choice" => B::v_choice, "v_done" => B::v_done,
        _ => if n.contains("9panicking9panic_fmt") || n.contains("9panicking18panic_nounwind_fmt") { B::panic_fmt }
             else if n.contains("rust_begin_unwind") || n.contains("9panicking13panic_nounwind") || n.contains("12handle_alloc_error") || n.contains("7process5abort") { B::abort }
             else if n.contains("detect_and_initialize") { B::zero2 }
             else { let _ = decl; B::none },
    };
    b as u32
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub forks: u64, pub steps: u64, pub ends: BTreeMap<String, u64>, pub reach: BTreeMap<u32, u64>, pub max_steps: u64,
    pub certified: u64, pub table_branches: u64, pub max_depth: u32, pub enumerated: u64,
}
pub struct Sample { pub cfg: u32, pub inputs: Vec<u8>, pub end: String, pub digest: u64, pub reach: Vec<u32> }

pub struct Eng<'m> {
    pub m: &'m Module, pub x: Exprs, pub z: Z3, pub st: Stats,
    work: Vec<St>, cert: HashSet<E>, pending: Vec<(E, usize, Bits, Bits)>, qcache: HashMap<(E, Vec<E>, Vec<Bits>), Option<Vec<(usize, u8)>>>,
    vars: HashMap<(usize, Bits), u8>, pub seen: Vec<bool>, pub max_steps: u64, pub deadline: Instant, pub max_depth: usize,
    pub stop_on_fork: bool, pub samples: Vec<Sample>, pub fails: Vec<Sample>, pub fail_count: BTreeMap<String, u64>, pub max_samples: usize, rng: u64, pub verbose: bool, pub print: bool,
    pub cfg: u32, pub confirmed: u64, pub done_exprs: u64, pub prof: Option<HashMap<(u32, u32), u64>>,
}

fn has(b: &Bits, i: usize) -> bool { (b[i >> 6] >> (i & 63)) & 1 == 1 }
fn band(a: &Bits, b: &Bits) -> Bits { [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]] }
fn bnot(a: &Bits) -> Bits { [!a[0], !a[1], !a[2], !a[3]] }
fn bempty(a: &Bits) -> bool { a[0] | a[1] | a[2] | a[3] == 0 }
fn bfirst(a: &Bits) -> u8 { for i in 0..4 { if a[i] != 0 { return (i * 64 + a[i].trailing_zeros() as usize) as u8; } } 0 }

impl<'m> Eng<'m> {
    pub fn new(m: &'m Module, max_steps: u64, deadline: Instant) -> Self {
        Eng { m, x: Exprs::new(), z: Z3::new(20_000), st: Stats::default(), work: vec![], cert: HashSet::new(), pending: vec![], qcache: HashMap::new(), vars: HashMap::new(), seen: vec![false; m.funcs.len()], max_steps, deadline, max_depth: 6000, stop_on_fork: false, samples: vec![], fails: vec![], fail_count: BTreeMap::new(), max_samples: 8, rng: 0x9E3779B97F4A7C15, verbose: false, print: false, cfg: 0, confirmed: 0, done_exprs: 0, prof: None }
    }
    pub fn init_globals(st: &mut St, m: &mut Module, src: &str) {
        for i in 0..m.globals.len() {
            let a = m.globals[i].addr; let n = m.globals[i].size;
            st.mem.fill(a, 0, n.max(1));
            if let Some(v) = m.global_init(src, i) { st.mem.write(a, &v); }
        }
        // page for errno
        st.mem.fill(STACK - 64, 0, 64);
    }

    // ---------- values
    fn ex(&mut self, v: Val, w: u8) -> E { if v.e != 0 { v.e } else { self.x.cst(w, v.c) } }
    #[inline] fn wrap(&self, e: E) -> Val { match self.x.as_const(e) { Some(c) => cv(c), None => Val { c: 0, e } } }
    fn bin(&mut self, op: Op, w: u8, a: Val, b: Val) -> Val {
        let (p, q) = (self.ex(a, w), self.ex(b, w));
        let e = self.x.bin(op, p, q); self.wrap(e)
    }
    fn cbin(&mut self, op: Op, w: u8, a: Val, b: Val) -> Val { if a.e | b.e == 0 { cv(apply(op, w, a.c, b.c, w)) } else { self.bin(op, w, a, b) } }
    fn cast(&mut self, k: CastK, fw: u8, tw: u8, a: Val) -> Val {
        if a.e == 0 { return cv(match k { CastK::Trunc => a.c & mask(tw), CastK::Zext => a.c, CastK::Sext => sx(a.c, fw) as u64 & mask(tw) }); }
        let e = match k { CastK::Trunc => self.x.extract(a.e, 0, tw), CastK::Zext => self.x.zext(a.e, tw), CastK::Sext => self.x.sext(a.e, tw) };
        self.wrap(e)
    }
    fn sel(&mut self, c: Val, a: Val, b: Val, w: u8) -> Val {
        if c.e == 0 { return if c.c & 1 == 1 { a } else { b }; }
        let (p, q) = (self.ex(a, w), self.ex(b, w));
        let e = self.x.ite(c.e, p, q); self.wrap(e)
    }

    // ---------- constraints
    fn certify(&mut self, e: E) {
        if self.cert.contains(&e) { return; }
        self.cert.insert(e);
        if let (Some(v), Some(b)) = (self.x.single(e), self.x.bits(e)) {
            let d = self.x.dom[v];
            self.pending.push((e, v, b, d));
            self.st.certified += 1;
            if self.pending.len() >= 256 { self.flush_cert(); }
        }
    }
    /// one solver query for all pending tables: is there a value on which a table and its formula differ?
    /// forget every expression: only between configurations, when no state other than the concrete root is alive
    pub fn reset(&mut self) {
        if self.x.dom.len() <= 40 && self.x.v.len() < 2_000_000 { return; }
        self.flush_cert();
        self.done_exprs += self.x.v.len() as u64;
        self.x = Exprs::new(); self.z.reset();
        self.cert.clear(); self.pending.clear(); self.qcache.clear(); self.vars.clear();
    }
    pub fn flush_cert(&mut self) {
        let p = std::mem::take(&mut self.pending);
        if p.is_empty() { return; }
        let r = self.z.certify(&self.x, &p);
        if r == 1 { panic!("engine error: value table disagrees with the SMT semantics"); }
        if r < 0 { for q in &p { let r = self.z.certify(&self.x, std::slice::from_ref(q)); if r != 0 { panic!("engine error: certification gave {r}"); } } }
    }
    /// model under which e holds together with the state's constraints, if any
    fn feasible(&mut self, st: &St, e: E) -> R<Option<Vec<u8>>> {
        if let Some(c) = self.x.as_const(e) { return Ok(if c == 1 { Some(st.model.clone()) } else { None }); }
        let vars = self.x.vars(e);
        if let Some(v) = self.x.single(e) {
            let b = self.x.bits(e).unwrap();
            self.certify(e);
            let i = band(&b, &st.dom[v]);
            if bempty(&i) { return Ok(None); }
            if st.mvars >> v & 1 == 0 {
                self.st.table_branches += 1;
                let mut m = st.model.clone();
                if !has(&i, m[v] as usize) { m[v] = bfirst(&i); }
                return Ok(Some(m));
            }
        }
        if self.x.eval(e, &st.model) == 1 { return Ok(Some(st.model.clone())); }
        // slice
        let mut rel = vars; let mut cs: BTreeSet<E> = BTreeSet::new();
        loop {
            let mut ch = false;
            for &c in &st.multi { if !cs.contains(&c) { let cv = self.x.vars(c); if cv & rel != 0 { cs.insert(c); rel |= cv; ch = true; } } }
            if !ch { break; }
        }
        let mut doms = vec![]; for v in 0..64 { if rel >> v & 1 == 1 { doms.push((v, st.dom[v])); } }
        let csv: Vec<E> = cs.into_iter().collect();
        let key = (e, csv.clone(), doms.iter().map(|x| x.1).collect::<Vec<_>>());
        let r = match self.qcache.get(&key) { Some(r) => r.clone(), None => {
            let mut q = csv; q.push(e);
            match self.z.solve(&self.x, &doms, &q) { Ok(r) => { self.qcache.insert(key, r.clone()); r } Err(()) => return inc("solver timeout") }
        } };
        Ok(r.map(|a| { let mut m = st.model.clone(); for (v, k) in a { m[v] = k; } m }))
    }
    fn add(&mut self, st: &mut St, e: E) {
        if self.x.as_const(e).is_some() { return; }
        st.pc = Some(Rc::new(Pc { e, next: st.pc.take() }));
        self.add2(st, e);
    }
    fn add2(&mut self, st: &mut St, e: E) {
        if self.x.as_const(e).is_some() { return; }
        if let Some(v) = self.x.single(e) { let b = self.x.bits(e).unwrap(); st.dom[v] = band(&st.dom[v], &b); return; }
        match self.x.v[e as usize].node.clone() {
            Node::Bin(Op::And, a, b) => { self.add2(st, a); self.add2(st, b); return; }
            Node::Bin(Op::Xor, a, k) if self.x.as_const(k) == Some(1) => if let Node::Bin(Op::Or, p, q) = self.x.v[a as usize].node.clone() { let np = self.x.not(p); let nq = self.x.not(q); self.add2(st, np); self.add2(st, nq); return; }
            _ => {}
        }
        if !st.multi.contains(&e) { st.multi.push(e); st.mvars |= self.x.vars(e); }
    }
    fn push_fork(&mut self, st: &mut St, e: E, model: Vec<u8>) {
        let mut n = st.fork();
        n.model = model; n.forks += 1;
        self.add(&mut n, e);
        self.st.forks += 1;
        if let Some(p) = &mut self.prof { let f = st.frames.last().unwrap(); *p.entry((f.f, f.pc)).or_insert(0) += 1; }
        self.work.push(n);
    }
    /// decide a 1-bit condition; forks when both outcomes are possible. The frame's pc must be that of the instruction.
    fn branch(&mut self, st: &mut St, e: E, other_pc: Option<(u32, Option<u32>)>) -> R<bool> {
        let _ = other_pc;
        let multi = self.x.single(e).is_none();
        if multi {
            if let Some(k) = st.known.iter().rev().find(|k| k.0 == e) { return Ok(k.1 == 1); }
            // a conjunction or disjunction over different bytes is decided part by part: no relational constraints arise
            match self.x.v[e as usize].node.clone() {
                Node::Bin(Op::And, a, b) if self.x.vars(a) & self.x.vars(b) == 0 => { if !self.branch(st, a, None)? { return Ok(false); } return self.branch(st, b, None); }
                Node::Bin(Op::Or, a, b) if self.x.vars(a) & self.x.vars(b) == 0 => { if self.branch(st, a, None)? { return Ok(true); } return self.branch(st, b, None); }
                Node::Bin(Op::Xor, a, k) if self.x.as_const(k) == Some(1) => return Ok(!self.branch(st, a, None)?),
                _ => {}
            }
        }
        let ne = self.x.not(e);
        let cur = if st.order.is_empty() { false } else { self.x.eval(e, &st.model) == 1 };
        let (me, mo) = if cur { (e, ne) } else { (ne, e) };
        // me holds under the model
        if let Some(v) = self.x.single(e) { let b = self.x.bits(me).unwrap_or_else(|| bnot(&self.x.bits(e).unwrap())); self.certify(e); let i = band(&b, &st.dom[v]); if bempty(&band(&bnot(&b), &st.dom[v])) { debug_assert!(!bempty(&i)); return Ok(cur); } }
        if let Some(m2) = self.feasible(st, mo)? {
            self.push_fork(st, mo, m2); self.add(st, me); st.forks += 1;
            if multi { self.work.last_mut().unwrap().known.push((e, !cur as u64)); }
        }
        if multi { st.known.push((e, cur as u64)); }
        Ok(cur)
    }
    fn concretize(&mut self, st: &mut St, v: Val) -> R<u64> {
        if v.e == 0 { return Ok(v.c); }
        let e = v.e; let w = self.x.w(e);
        if let Some(k) = st.known.iter().rev().find(|k| k.0 == e) { return Ok(k.1); }
        let k0 = self.x.eval(e, &st.model);
        if let Some(var) = self.x.single(e) {
            let mut vals: Vec<u64> = vec![];
            { let t = self.x.v[e as usize].tab.as_ref().unwrap(); for i in 0..256 { if has(&st.dom[var], i) { let k = t.get(i); if !vals.contains(&k) { vals.push(k); } } } }
            self.st.enumerated += vals.len() as u64;
            if vals.len() == 1 { return Ok(vals[0]); }
            let mut took = false;
            let mut others = vec![];
            for k in vals { let ke = self.x.cst(w, k); let c = self.x.bin(Op::Eq, e, ke);
                if k == k0 { took = true; let _ = self.feasible(st, c)?; continue; }
                if let Some(m) = self.feasible(st, c)? { others.push((c, m)); } }
            debug_assert!(took);
            for (c, m) in others { self.push_fork(st, c, m); }
        } else {
            let mut ks = vec![k0];
            let ke = self.x.cst(w, k0); let eq = self.x.bin(Op::Eq, e, ke); let mut ex = self.x.not(eq);
            let mut others = vec![];
            loop {
                match self.feasible(st, ex)? { None => break, Some(m) => {
                    let k = self.x.eval(e, &m); 
                    if ks.contains(&k) { return inc("value enumeration"); }
                    ks.push(k); if ks.len() > 300 { return inc("too many values for an address"); }
                    let ke = self.x.cst(w, k); let eq = self.x.bin(Op::Eq, e, ke); others.push((eq, m, k));
                    let ne = self.x.not(eq); ex = self.x.bin(Op::And, ex, ne);
                } }
            }
            self.st.enumerated += ks.len() as u64;
            for (c, m, k) in others { self.push_fork(st, c, m); self.work.last_mut().unwrap().known.push((e, k)); }
            st.known.push((e, k0));
        }
        let ke = self.x.cst(w, k0); let c = self.x.bin(Op::Eq, e, ke); self.add(st, c);
        Ok(k0)
    }

    // ---------- memory
    #[inline] fn ld(&mut self, st: &mut St, a: u64, size: u8, w: u8) -> R<Val> {
        let o = a as usize & (PS - 1);
        if o + size as usize <= PS {
            if let Some(p) = st.mem.rd(a >> PB) {
                let sym = match &p.s { None => false, Some(s) => s[o..o + size as usize].iter().any(|e| *e != 0) };
                if !sym {
                    let c = match size { 1 => p.b[o] as u64, 2 => u16::from_le_bytes([p.b[o], p.b[o + 1]]) as u64, 4 => u32::from_le_bytes(p.b[o..o + 4].try_into().unwrap()) as u64, 8 => u64::from_le_bytes(p.b[o..o + 8].try_into().unwrap()), n => { let mut c = 0; for i in 0..n as usize { c |= (p.b[o + i] as u64) << (8 * i); } c } };
                    return Ok(cv(c & mask(w)));
                }
            } else { return Err(Stop::End(End::Fail(format!("mem:load of unmapped address {a:#x}")))); }
        }
        self.ld_slow(st, a, size, w)
    }
    fn ld_slow(&mut self, st: &mut St, a: u64, size: u8, w: u8) -> R<Val> {
        let mut bs: Vec<(u8, E)> = vec![];
        for i in 0..size as u64 { match st.mem.byte(a + i) { Some(x) => bs.push(x), None => return Err(Stop::End(End::Fail(format!("mem:load of unmapped address {:#x}", a + i)))) } }
        let mut acc = { let (c, e) = bs[size as usize - 1]; if e != 0 { e } else { self.x.cst(8, c as u64) } };
        for i in (0..size as usize - 1).rev() { let (c, e) = bs[i]; let l = if e != 0 { e } else { self.x.cst(8, c as u64) }; acc = self.x.bin(Op::Concat, acc, l); }
        let r = self.x.extract(acc, 0, w);
        Ok(self.wrap(r))
    }
    fn ldp(&mut self, st: &mut St, p: Val, off: u64, size: u8, w: u8) -> R<Val> {
        if p.e == 0 { return self.ld(st, p.c.wrapping_add(off), size, w); }
        if let Some(var) = self.x.single(p.e) {
            let mut addrs: Vec<u64> = vec![];
            { let t = self.x.v[p.e as usize].tab.as_ref().unwrap(); for i in 0..256 { if has(&st.dom[var], i) { let k = t.get(i); if !addrs.contains(&k) { addrs.push(k); } } } }
            if addrs.len() == 1 { return self.ld(st, addrs[0].wrapping_add(off), size, w); }
            let mut vals = vec![]; let mut sym = false; let mut bad = false;
            for &a in &addrs { match self.ld(st, a.wrapping_add(off), size, w) { Ok(v) => { if v.e != 0 { sym = true; } vals.push(v); } Err(_) => { bad = true; break; } } }
            if !bad {
                if !sym { let e = self.x.read(p.e, addrs.iter().cloned().zip(vals.iter().map(|v| v.c)).collect(), w); return Ok(self.wrap(e)); }
                let mut acc = vals[0];
                for i in 1..addrs.len() { let k = self.x.cst(64, addrs[i]); let c = self.x.bin(Op::Eq, p.e, k); let c = self.wrap(c); acc = self.sel(c, vals[i], acc, w); }
                return Ok(acc);
            }
        }
        let a = self.concretize(st, p)?;
        self.ld(st, a.wrapping_add(off), size, w)
    }
    #[inline] fn stv(&mut self, st: &mut St, a: u64, size: u8, w: u8, v: Val) -> R<()> {
        if v.e == 0 {
            let o = a as usize & (PS - 1);
            if o + size as usize <= PS {
                let Some(p) = st.mem.wr(a >> PB) else { return Err(Stop::End(End::Fail(format!("mem:store to unmapped address {a:#x}")))) };
                p.b[o..o + size as usize].copy_from_slice(&v.c.to_le_bytes()[..size as usize]);
                if let Some(s) = &mut p.s { s[o..o + size as usize].fill(0); }
                return Ok(());
            }
            if !st.mem.write(a, &v.c.to_le_bytes()[..size as usize]) { return Err(Stop::End(End::Fail(format!("mem:store to unmapped address {a:#x}")))); }
            return Ok(());
        }
        let e = if w != size * 8 { self.x.zext(v.e, size * 8) } else { v.e };
        for i in 0..size { let b = self.x.extract(e, i * 8, 8); let b = self.wrap(b); if !st.mem.set_byte(a + i as u64, b.c as u8, b.e) { return Err(Stop::End(End::Fail(format!("mem:store to unmapped address {a:#x}")))); } }
        Ok(())
    }
    fn cls(n: u64) -> (usize, u64) {
        let n = n.max(1);
        if n <= 1024 { let c = (n as usize + 15) / 16 - 1; (c, (c as u64 + 1) * 16) } else { let p = n.next_power_of_two(); (64 + p.trailing_zeros() as usize - 10, p) }
    }
    fn alloc(&mut self, st: &mut St, n: u64, align: u64) -> R<u64> {
        if n > 64 << 20 { return inc(format!("allocation of {n} bytes")); }
        let (c, sz) = Self::cls(n);
        if align <= 16 && st.fl[c] != 0 {
            let p = st.fl[c]; let nx = self.ld(st, p, 8, 64)?; st.fl[c] = nx.c; return Ok(p);
        }
        let mut p = st.hp + 16;
        if align > 16 { p = (p + align - 1) / align * align; }
        if p + sz + 16 > LIMIT { return inc("heap exhausted"); }
        st.hp = p + sz;
        if !st.mem.fill(p - 16, 0, 16 + sz) { return inc("heap"); }
        st.mem.write(p - 16, &n.to_le_bytes());
        st.mem.write(p - 8, &[(align > 16) as u8, 0, 0, 0, 0, 0, 0, 0]);
        // remember the usable size class
        st.mem.write(p - 16, &sz.to_le_bytes());
        Ok(p)
    }
    fn dealloc(&mut self, st: &mut St, p: u64) -> R<()> {
        if p == 0 { return Ok(()); }
        let sz = self.ld(st, p - 16, 8, 64)?.c; let fl = self.ld(st, p - 8, 1, 8)?.c;
        if sz == 0 { return Err(Stop::End(End::Fail("mem:bad free".into()))); }
        if fl == 1 { return Ok(()); }
        let (c, _) = Self::cls(sz);
        let nx = st.fl[c]; self.stv(st, p, 8, 64, cv(nx))?; st.fl[c] = p;
        Ok(())
    }
    fn memcmp(&mut self, st: &mut St, a: u64, b: u64, n: u64, ord: bool) -> R<Val> {
        let mut ps: Vec<((u8, E), (u8, E))> = vec![];
        for i in 0..n {
            let (x, y) = match (st.mem.byte(a + i), st.mem.byte(b + i)) { (Some(x), Some(y)) => (x, y), _ => return Err(Stop::End(End::Fail("mem:memcmp out of mapped memory".into()))) };
            if x.1 == 0 && y.1 == 0 {
                if x.0 == y.0 { continue; }
                if ps.is_empty() { return Ok(cv(if x.0 < y.0 { 0xffff_ffff } else { 1 })); }
                ps.push((x, y));
                if ord { break; }
                if !ord { return Ok(cv(1)); }
            } else if x.1 == y.1 && x.1 != 0 { continue; }
            else { ps.push((x, y)); }
        }
        let tb = |s: &mut Self, v: (u8, E)| if v.1 != 0 { v.1 } else { s.x.cst(8, v.0 as u64) };
        if ord {
            let mut acc = self.x.cst(32, 0);
            for (x, y) in ps.into_iter().rev() {
                let (p, q) = (tb(self, x), tb(self, y));
                let eq = self.x.bin(Op::Eq, p, q); let lt = self.x.bin(Op::Ult, p, q);
                let m = self.x.cst(32, 0xffff_ffff); let o = self.x.cst(32, 1);
                let ne = self.x.ite(lt, m, o); acc = self.x.ite(eq, acc, ne);
            }
            Ok(self.wrap(acc))
        } else {
            let mut acc = self.x.cst(1, 1);
            for (x, y) in ps { let (p, q) = (tb(self, x), tb(self, y)); let eq = self.x.bin(Op::Eq, p, q); acc = self.x.bin(Op::And, acc, eq); }
            let ne = self.x.not(acc); let r = self.x.zext(ne, 32);
            Ok(self.wrap(r))
        }
    }

    // ---------- builtins
    fn loc(&mut self, st: &mut St, a: Val) -> String {
        let mut f = || -> Option<String> {
            if a.e != 0 || a.c < GLOB_BASE { return None; }
            let p = self.ld(st, a.c, 8, 64).ok()?; let n = self.ld(st, a.c + 8, 8, 64).ok()?; let ln = self.ld(st, a.c + 16, 4, 32).ok()?; let col = self.ld(st, a.c + 20, 4, 32).ok()?;
            if p.e | n.e | ln.e != 0 || n.c > 400 { return None; }
            let s = String::from_utf8(st.mem.read_vec(p.c, n.c)?).ok()?;
            let s = match s.rfind("/src/") { Some(i) => { let j = s[..i].rfind('/').map_or(0, |j| j + 1); s[j..].to_string() } None => s };
            Some(format!("{}:{}:{}", s.trim_end_matches('\0'), ln.c, col.c))
        };
        f().unwrap_or_else(|| "?".into())
    }
    fn backtrace(&self, st: &St) -> String {
        let mut v = vec![];
        for f in st.frames.iter().rev() { let n = short(&self.m.funcs[f.f as usize].name); v.push(n); if v.len() >= 8 { break; } }
        v.join(" < ")
    }
    fn builtin(&mut self, st: &mut St, b: u32, a: &[Val], d: u32, base: u32) -> R<()> {
        macro_rules! k { ($i:expr) => { { let v = a[$i]; if v.e == 0 { v.c } else { self.concretize(st, v)? } } } }
        macro_rules! ret { ($v:expr) => { { let v = $v; st.regs[(base + d) as usize] = v; } } }
        let b: B = unsafe { std::mem::transmute(b) };
        match b {
            B::none => unreachable!(),
            B::memcpy => { let (x, y, n) = (k!(0), k!(1), k!(2)); if !st.mem.copy(x, y, n) { return Err(Stop::End(End::Fail("mem:memcpy".into()))); } ret!(cv(x)) }
            B::memset => { let (x, n) = (k!(0), k!(2)); let v = self.cast(CastK::Trunc, 32, 8, a[1]); self.memset(st, x, v, n)?; ret!(cv(x)) }
            B::memcmp => { let (x, y, n) = (k!(0), k!(1), k!(2)); let v = self.memcmp(st, x, y, n, true)?; ret!(v) }
            B::bcmp => { let (x, y, n) = (k!(0), k!(1), k!(2)); let v = self.memcmp(st, x, y, n, false)?; ret!(v) }
            B::strlen => { let x = k!(0); let mut n = 0; loop { let v = self.ld(st, x + n, 1, 8)?; if v.e != 0 { let z = self.x.cst(8, 0); let e = self.x.bin(Op::Eq, v.e, z); if self.feasible(st, e)?.is_some() { return inc("strlen of symbolic"); } } else if v.c == 0 { break; } n += 1; } ret!(cv(n)) }
            B::malloc => { let n = k!(0); let p = self.alloc(st, n, 16)?; ret!(cv(p)) }
            B::calloc => { let n = k!(0) * k!(1); let p = self.alloc(st, n, 16)?; st.mem.fill(p, 0, n); ret!(cv(p)) }
            B::aligned_alloc => { let (al, n) = (k!(0), k!(1)); let p = self.alloc(st, n, al)?; ret!(cv(p)) }
            B::mi_malloc_aligned | B::mi_zalloc_aligned => { let (n, al) = (k!(0), k!(1)); let p = self.alloc(st, n, al)?; if matches!(b, B::mi_zalloc_aligned) { st.mem.fill(p, 0, n); } ret!(cv(p)) }
            B::posix_memalign => { let (o, al, n) = (k!(0), k!(1), k!(2)); let p = self.alloc(st, n, al)?; self.stv(st, o, 8, 64, cv(p))?; ret!(cv(0)) }
            B::realloc | B::mi_realloc_aligned => {
                let (p, n) = (k!(0), k!(1)); let al = if matches!(b, B::mi_realloc_aligned) { k!(2) } else { 16 };
                if p == 0 { let q = self.alloc(st, n, al)?; ret!(cv(q)); return Ok(()); }
                let old = self.ld(st, p - 16, 8, 64)?.c;
                if n <= old && Self::cls(n).1 == old { ret!(cv(p)); return Ok(()); }
                let q = self.alloc(st, n, al)?;
                if !st.mem.copy(q, p, old.min(n)) { return inc("realloc"); }
                self.dealloc(st, p)?; ret!(cv(q))
            }
            B::free => { let p = k!(0); self.dealloc(st, p)? }
            B::getrandom => { let (p, n) = (k!(0), k!(1)); st.mem.fill(p, 0x5a, n); ret!(cv(n)) }
            B::zero2 => { ret!(cv(0)); st.regs[(base + d + 1) as usize] = cv(0); }
            B::zero => { if d != u32::MAX { ret!(cv(0)) } }
            B::strerror => { let p = k!(1); self.stv(st, p, 1, 8, cv(0))?; ret!(cv(0)) }
            B::minus1 => ret!(cv(mask(32))),
            B::errno => ret!(cv(STACK - 64)),
            B::write => { let n = k!(2); if self.print { let p = k!(1); if let Some(v) = st.mem.read_vec(p, n) { eprint!("{}", String::from_utf8_lossy(&v)); } } ret!(cv(n)) }
            B::abort => return Err(Stop::End(End::Fail(format!("abort:{}", self.backtrace(st))))),
            B::panic_fmt => { let l = self.loc(st, *a.last().unwrap()); return Err(Stop::End(End::Fail(format!("panic:{l}")))); }
            B::v_sym => {
                let (p, n, dp, dn) = (k!(0), k!(1), k!(2), k!(3));
                let dv = match st.mem.read_vec(dp, dn) { Some(v) => v, None => return inc("v_sym") };
                let mut dom = [0u64; 4]; for c in dv { dom[c as usize >> 6] |= 1 << (c & 63); }
                for i in 0..n {
                    let key = (st.order.len(), dom);
                    let v = match self.vars.get(&key) { Some(&v) => v, None => {
                        if self.x.dom.len() >= 64 { return inc("more than 64 symbolic bytes"); }
                        let v = self.x.dom.len() as u8; let e = self.x.new_var(String::new(), dom); self.vars.insert(key, v); self.vare(v, Some(e)); v } };
                    while st.dom.len() <= v as usize { let q = st.dom.len(); st.dom.push(self.x.dom[q]); st.model.push(bfirst(&self.x.dom[q])); }
                    st.order.push(v);
                    let e = self.vare(v, None);
                    let single = dom.iter().map(|x| x.count_ones()).sum::<u32>() == 1;
                    st.mem.set_byte(p + i, if single { bfirst(&dom) } else { 0 }, if single { 0 } else { e });
                }
            }
            B::v_choice => { let v = k!(0); ret!(cv(v)) }
            B::v_assume => {
                let c = a[0];
                if c.e == 0 { if c.c & 1 == 0 { return Err(Stop::End(End::Pruned)); } return Ok(()); }
                let w = self.x.w(c.e); let e = if w == 1 { c.e } else { let z = self.x.cst(w, 0); let q = self.x.bin(Op::Eq, c.e, z); self.x.not(q) };
                match self.feasible(st, e)? { None => return Err(Stop::End(End::Pruned)), Some(m) => { st.model = m; self.add(st, e); } }
            }
            B::v_fail => { let c = k!(0); return Err(Stop::End(End::Fail(format!("check:{c}")))); }
            B::v_done => return Err(Stop::End(End::Ok)),
            B::v_known => { let c = k!(0); return Err(Stop::End(End::Known(c as u32))); }
            B::v_reach => { let c = k!(0) as u32; if !st.reach.contains(&c) { st.reach.push(c); } }
            B::v_digest => st.digest.push(a[0]),
            B::v_print => { if self.print { let (p, n) = (k!(0), k!(1)); 
                let mut s = vec![]; for i in 0..n { if let Some((c, e)) = st.mem.byte(p + i) { s.push(if e != 0 { self.x.eval(e, &st.model) as u8 } else { c }); } }
                eprintln!("[print] {}", String::from_utf8_lossy(&s)); } }
        }
        Ok(())
    }
    fn vare(&mut self, v: u8, set: Option<E>) -> E {
        // variables are interned in order of creation; find by scanning a small cache
        if let Some(e) = set { self.varmap().push((v, e)); return e; }
        self.varmap().iter().find(|x| x.0 == v).unwrap().1
    }
    fn varmap(&mut self) -> &mut Vec<(u8, E)> { &mut self.x.varmap }
    fn memset(&mut self, st: &mut St, p: u64, v: Val, n: u64) -> R<()> {
        if v.e == 0 { if !st.mem.fill(p, v.c as u8, n) { return Err(Stop::End(End::Fail("mem:memset".into()))); } }
        else { for i in 0..n { if !st.mem.set_byte(p + i, 0, v.e) { return Err(Stop::End(End::Fail("mem:memset".into()))); } } }
        Ok(())
    }

    // ---------- running
    pub fn call_entry(&mut self, st: &mut St, f: u32, args: &[Val]) {
        let fun = &self.m.funcs[f as usize];
        let base = st.regs.len() as u32;
        st.regs.resize(base as usize + fun.nregs as usize + 2, cv(0));
        for (i, a) in args.iter().enumerate() { st.regs[base as usize + i] = *a; }
        st.frames.push(Frame { f, pc: 0, base, d: 0, sp: st.sp });
        self.seen[f as usize] = true;
    }
    pub fn put_bytes(&mut self, st: &mut St, b: &[u8]) -> u64 { let Ok(p) = self.alloc(st, b.len() as u64 + 1, 16) else { panic!() }; st.mem.write(p, b); p }

    pub fn run(&mut self, st: &mut St) -> End {
        match self.run2(st) { Ok(()) => End::Ok, Err(Stop::End(e)) => e }
    }
    fn run2(&mut self, st: &mut St) -> R<()> {
        let m = self.m;
        let stop_depth = 0usize;
        let mut fr = *st.frames.last().unwrap();
        let mut fun = &m.funcs[fr.f as usize];
        let mut pc = fr.pc as usize;
        let mut base = fr.base as usize;
        let mut tmp: Vec<Val> = Vec::with_capacity(64);
        let forks0 = self.st.forks;
        let mut next_check = st.steps + 2_000_000;
        macro_rules! g { ($o:expr) => { { let o = $o; if o & HI != 0 { cv(unsafe { *fun.consts.get_unchecked((o & !HI) as usize) }) } else { unsafe { *st.regs.get_unchecked(base + o as usize) } } } } }
        macro_rules! set { ($d:expr, $v:expr) => { { let v = $v; unsafe { *st.regs.get_unchecked_mut(base + $d as usize) = v; } } } }
        macro_rules! sync { () => { st.frames.last_mut().unwrap().pc = pc as u32; } }
        macro_rules! edge { ($e:expr) => { {
            let e = unsafe { fun.edges.get_unchecked($e as usize) };
            let n = e.copies.len();
            if n == 1 { let (d, o) = e.copies[0]; set!(d, g!(o)); }
            else if n > 0 { tmp.clear(); for &(_, o) in e.copies.iter() { tmp.push(g!(o)); } for (i, &(d, _)) in e.copies.iter().enumerate() { set!(d, tmp[i]); } }
            pc = e.pc as usize;
        } } }
        loop {
            let ins = unsafe { fun.code.get_unchecked(pc) };
            st.steps += 1;
            if st.steps > next_check {
                next_check = st.steps + 2_000_000;
                if st.steps > self.max_steps { sync!(); return Err(Stop::End(End::Incomplete(format!("steps:{}", self.backtrace(st))))); }
                if Instant::now() > self.deadline { return inc("time limit"); }
            }
            match ins {
                I::Bin { op, w, d, a, b } => {
                    let (x, y) = (g!(*a), g!(*b));
                    if x.e | y.e == 0 {
                        let m = mask(*w);
                        let r = match op {
                            Op::Add => x.c.wrapping_add(y.c) & m, Op::Sub => x.c.wrapping_sub(y.c) & m, Op::And => x.c & y.c, Op::Or => x.c | y.c, Op::Xor => x.c ^ y.c,
                            Op::Eq => (x.c == y.c) as u64, Op::Ult => (x.c < y.c) as u64, Op::Ule => (x.c <= y.c) as u64,
                            _ => apply(*op, *w, x.c, y.c, *w) };
                        set!(*d, cv(r));
                    } else { let r = self.bin(*op, *w, x, y); set!(*d, r); }
                    pc += 1;
                }
                I::Mov { d, a } => { set!(*d, g!(*a)); pc += 1; }
                I::Ld { w, size, d, p, off } => {
                    let v = g!(*p);
                    let r = if v.e == 0 { self.ld(st, v.c.wrapping_add(*off), *size, *w) } else { sync!(); self.ldp(st, v, *off, *size, *w) };
                    match r { Ok(r) => set!(*d, r), Err(Stop::End(End::Fail(s))) => { sync!(); return Err(Stop::End(End::Fail(format!("{s} in {}", self.backtrace(st))))); } Err(e) => return Err(e) }
                    pc += 1;
                }
                I::St { w, size, p, off, v } => {
                    let a = g!(*p); let x = g!(*v);
                    let a = if a.e == 0 { a.c } else { sync!(); self.concretize(st, a)? };
                    match self.stv(st, a.wrapping_add(*off), *size, *w, x) { Ok(()) => {} Err(Stop::End(End::Fail(s))) => { sync!(); return Err(Stop::End(End::Fail(format!("{s} in {}", self.backtrace(st))))); } Err(e) => return Err(e) }
                    pc += 1;
                }
                I::GepC { d, base: b, off } => {
                    let v = g!(*b);
                    if v.e == 0 { set!(*d, cv(v.c.wrapping_add(*off))); } else { let r = self.bin(Op::Add, 64, v, cv(*off)); set!(*d, r); }
                    pc += 1;
                }
                I::Gep { d, base: b, off, idx, scale, iw } => {
                    let v = g!(*b); let i = g!(*idx);
                    if v.e | i.e == 0 { set!(*d, cv(v.c.wrapping_add(*off).wrapping_add((sx(i.c, *iw) as u64).wrapping_mul(*scale)))); }
                    else {
                        let i = if *iw < 64 { self.cast(CastK::Sext, *iw, 64, i) } else { i };
                        let t = self.cbin(Op::Mul, 64, i, cv(*scale)); let t = self.cbin(Op::Add, 64, t, cv(*off)); let r = self.cbin(Op::Add, 64, v, t); set!(*d, r);
                    }
                    pc += 1;
                }
                I::Br(e) => { edge!(*e); }
                I::CBr { c, t, f } => {
                    let v = g!(*c);
                    if v.e == 0 { if v.c & 1 == 1 { edge!(*t) } else { edge!(*f) } }
                    else { sync!(); let r = self.branch(st, v.e, None)?; if r { edge!(*t) } else { edge!(*f) }
                        if self.stop_on_fork && self.st.forks != forks0 { sync!(); return Err(Stop::End(End::Forked)); } }
                }
                I::Cast { k, fw, tw, d, a } => { let v = g!(*a); let r = if v.e == 0 { cv(match k { CastK::Trunc => v.c & mask(*tw), CastK::Zext => v.c, CastK::Sext => sx(v.c, *fw) as u64 & mask(*tw) }) } else { self.cast(*k, *fw, *tw, v) }; set!(*d, r); pc += 1; }
                I::Sel { d, c, a, b, w } => { let cc = g!(*c); let r = if cc.e == 0 { if cc.c & 1 == 1 { g!(*a) } else { g!(*b) } } else { let (x, y) = (g!(*a), g!(*b)); self.sel(cc, x, y, *w) }; set!(*d, r); pc += 1; }
                I::Alloca { d, size, align, n } => {
                    let nn = g!(*n); let nn = if nn.e == 0 { nn.c } else { sync!(); self.concretize(st, nn)? };
                    let al = (*align).max(16);
                    let p = (st.sp + al - 1) / al * al; let sz = size * nn;
                    st.sp = p + sz.max(1);
                    if st.sp > STACK_END { return Err(Stop::End(End::Fail("stack overflow".into()))); }
                    // make the pages exist (no clearing: stack memory is uninitialised, not zero)
                    let mut q = p >> PB; while q <= (p + sz) >> PB { if st.mem.rd(q).is_none() { st.mem.wr(q); } q += 1; }
                    set!(*d, cv(p)); pc += 1;
                }
                I::Sw { v, w, t } => {
                    let x = g!(*v);
                    if x.e == 0 { let e = t.get(x.c); edge!(e); }
                    else { sync!(); let e = self.switch(st, x.e, *w, t)?; edge!(e); if self.stop_on_fork && self.st.forks != forks0 { sync!(); return Err(Stop::End(End::Forked)); } }
                }
                I::Call { f, d, args } => {
                    let cal = unsafe { m.funcs.get_unchecked(*f as usize) };
                    if cal.builtin != 0 {
                        sync!(); let av: Vec<Val> = args.iter().map(|o| g!(*o)).collect();
                        self.builtin(st, cal.builtin, &av, *d, base as u32)?;
                        pc += 1;
                        if self.stop_on_fork && self.st.forks != forks0 { sync!(); return Err(Stop::End(End::Forked)); }
                    } else if cal.is_decl {
                        if cal.name == "syscall" || cal.name == "sysconf" { set!(*d, cv(if cal.name == "sysconf" { 4096 } else { !0 })); pc += 1; continue; }
                        return inc(format!("extern {}", cal.name));
                    } else {
                        pc += 1; sync!();
                        if st.frames.len() >= self.max_depth { return Err(Stop::End(End::Fail(format!("recursion depth in {}", self.backtrace(st))))); }
                        let nb = st.regs.len();
                        st.regs.resize(nb + cal.nregs as usize, cv(0));
                        for (i, o) in args.iter().enumerate() { let v = g!(*o); unsafe { *st.regs.get_unchecked_mut(nb + i) = v; } }
                        st.frames.push(Frame { f: *f, pc: 0, base: nb as u32, d: *d, sp: st.sp });
                        if st.frames.len() as u32 > self.st.max_depth { self.st.max_depth = st.frames.len() as u32; }
                        self.seen[*f as usize] = true;
                        fr = *st.frames.last().unwrap(); fun = cal; pc = 0; base = nb;
                    }
                }
                I::CallI { p, d, nret, args } => {
                    let v = g!(*p); sync!(); let a = if v.e == 0 { v.c } else { self.concretize(st, v)? };
                    if self.stop_on_fork && self.st.forks != forks0 && v.e != 0 { /* value fixed by constraint; re-execution is idempotent */ return Err(Stop::End(End::Forked)); }
                    let fi = a.wrapping_sub(FUNC_BASE) / 16;
                    if a < FUNC_BASE || a % 16 != 0 || fi as usize >= m.funcs.len() { return Err(Stop::End(End::Fail(format!("mem:call of bad pointer {a:#x} in {}", self.backtrace(st))))); }
                    let cal = &m.funcs[fi as usize];
                    if cal.builtin != 0 {
                        let av: Vec<Val> = args.iter().map(|o| g!(*o)).collect();
                        self.builtin(st, cal.builtin, &av, *d, base as u32)?; pc += 1;
                    } else if cal.is_decl { return inc(format!("extern {}", cal.name)); }
                    else {
                        if cal.nargs as usize != args.len() || cal.nret != *nret { return inc(format!("indirect call signature of {}", cal.name)); }
                        pc += 1; sync!();
                        if st.frames.len() >= self.max_depth { return Err(Stop::End(End::Fail(format!("recursion depth in {}", self.backtrace(st))))); }
                        let nb = st.regs.len();
                        st.regs.resize(nb + cal.nregs as usize, cv(0));
                        for (i, o) in args.iter().enumerate() { let v = g!(*o); unsafe { *st.regs.get_unchecked_mut(nb + i) = v; } }
                        st.frames.push(Frame { f: fi as u32, pc: 0, base: nb as u32, d: *d, sp: st.sp });
                        self.seen[fi as usize] = true;
                        fr = *st.frames.last().unwrap(); fun = cal; pc = 0; base = nb;
                    }
                }
                I::Ret(vs) => {
                    tmp.clear(); for o in vs.iter() { tmp.push(g!(*o)); }
                    st.frames.pop();
                    st.sp = fr.sp;
                    st.regs.truncate(base);
                    if st.frames.len() == stop_depth { return Ok(()); }
                    let d = fr.d;
                    fr = *st.frames.last().unwrap(); fun = &m.funcs[fr.f as usize]; pc = fr.pc as usize; base = fr.base as usize;
                    for i in 0..tmp.len() { set!(d + i as u32, tmp[i]); }
                }
                I::Unreach => { sync!(); return Err(Stop::End(End::Fail(format!("unreachable in {}", self.backtrace(st))))); }
                I::CpuId { d, n } => { for i in 0..*n { set!(*d + i, cv(0)); } pc += 1; }
                I::In { k, w, d, args } => {
                    match k {
                        In::Memcpy => { sync!(); let (x, y, n) = (g!(args[0]), g!(args[1]), g!(args[2])); let (x, y, n) = (self.concretize(st, x)?, self.concretize(st, y)?, self.concretize(st, n)?); if !st.mem.copy(x, y, n) { return Err(Stop::End(End::Fail(format!("mem:copy in {}", self.backtrace(st))))); } }
                        In::Memset => { sync!(); let (x, y, n) = (g!(args[0]), g!(args[1]), g!(args[2])); let (x, n) = (self.concretize(st, x)?, self.concretize(st, n)?); self.memset(st, x, y, n)?; }
                        In::Trap => { sync!(); return Err(Stop::End(End::Fail(format!("trap in {}", self.backtrace(st))))); }
                        _ => { let av: [Val; 4] = std::array::from_fn(|i| if i < args.len() { g!(args[i]) } else { cv(0) }); let (r, r2) = self.intrin(*k, *w, &av)?; set!(*d, r); if let Some(r2) = r2 { set!(*d + 1, r2); } }
                    }
                    pc += 1;
                }
                I::Rmw { op, size, w, d, p, v } => {
                    let a = g!(*p); sync!(); let a = self.concretize(st, a)?; let x = g!(*v);
                    let old = self.ld(st, a, *size, *w)?;
                    let n = match op { 0 => x, 1 => self.cbin(Op::Add, *w, old, x), 2 => self.cbin(Op::Sub, *w, old, x), 3 => self.cbin(Op::And, *w, old, x), 4 => self.cbin(Op::Or, *w, old, x), 5 => self.cbin(Op::Xor, *w, old, x),
                        _ => { if old.e | x.e != 0 { return inc("atomic min/max"); } cv(if *op == 6 { old.c.max(x.c) } else { old.c.min(x.c) }) } };
                    self.stv(st, a, *size, *w, n)?; set!(*d, old); pc += 1;
                }
                I::Cxg { size, w, d, p, c, n } => {
                    let a = g!(*p); sync!(); let a = self.concretize(st, a)?; let (cc, nn) = (g!(*c), g!(*n));
                    let old = self.ld(st, a, *size, *w)?; if old.e | cc.e != 0 { return inc("symbolic cmpxchg"); }
                    if old.c == cc.c { self.stv(st, a, *size, *w, nn)?; }
                    set!(*d, old); set!(*d + 1, cv((old.c == cc.c) as u64)); pc += 1;
                }
                I::Bin128 { op, d, a, b } => {
                    let (a0, a1, b0, b1) = (g!(a[0]), g!(a[1]), g!(b[0]), g!(b[1]));
                    if a0.e | a1.e | b0.e | b1.e == 0 {
                        let x = a0.c as u128 | (a1.c as u128) << 64; let y = b0.c as u128 | (b1.c as u128) << 64;
                        let r = match op { Op::Add => x.wrapping_add(y), Op::Sub => x.wrapping_sub(y), Op::Mul => x.wrapping_mul(y), Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                            Op::Shl => if y > 127 { 0 } else { x << y }, Op::LShr => if y > 127 { 0 } else { x >> y }, Op::AShr => ((x as i128) >> y.min(127)) as u128,
                            Op::UDiv => if y == 0 { 0 } else { x / y }, Op::URem => if y == 0 { 0 } else { x % y }, Op::SDiv => if y == 0 { 0 } else { ((x as i128).wrapping_div(y as i128)) as u128 }, Op::SRem => if y == 0 { 0 } else { ((x as i128).wrapping_rem(y as i128)) as u128 }, _ => return inc("i128 op") };
                        set!(*d, cv(r as u64)); set!(*d + 1, cv((r >> 64) as u64));
                    } else {
                        let (lo, hi) = match op {
                            Op::And | Op::Or | Op::Xor => (self.cbin(*op, 64, a0, b0), self.cbin(*op, 64, a1, b1)),
                            Op::Add => { let lo = self.cbin(Op::Add, 64, a0, b0); let c = self.cbin(Op::Ult, 64, lo, a0); let c = self.cast(CastK::Zext, 1, 64, c); let h = self.cbin(Op::Add, 64, a1, b1); (lo, self.cbin(Op::Add, 64, h, c)) }
                            Op::Sub => { let lo = self.cbin(Op::Sub, 64, a0, b0); let c = self.cbin(Op::Ult, 64, a0, b0); let c = self.cast(CastK::Zext, 1, 64, c); let h = self.cbin(Op::Sub, 64, a1, b1); (lo, self.cbin(Op::Sub, 64, h, c)) }
                            Op::Mul => { let lo = self.cbin(Op::Mul, 64, a0, b0); let h = self.cbin(Op::MulHi, 64, a0, b0); let p = self.cbin(Op::Mul, 64, a0, b1); let q = self.cbin(Op::Mul, 64, a1, b0); let h = self.cbin(Op::Add, 64, h, p); (lo, self.cbin(Op::Add, 64, h, q)) }
                            Op::LShr | Op::Shl if b0.e == 0 => {
                                let s = b0.c; 
                                if *op == Op::LShr { if s == 0 { (a0, a1) } else if s >= 64 { (self.cbin(Op::LShr, 64, a1, cv(s - 64)), cv(0)) } else { let x = self.cbin(Op::LShr, 64, a0, cv(s)); let y = self.cbin(Op::Shl, 64, a1, cv(64 - s)); (self.cbin(Op::Or, 64, x, y), self.cbin(Op::LShr, 64, a1, cv(s))) } }
                                else if s == 0 { (a0, a1) } else if s >= 64 { (cv(0), self.cbin(Op::Shl, 64, a0, cv(s - 64))) } else { let x = self.cbin(Op::Shl, 64, a1, cv(s)); let y = self.cbin(Op::LShr, 64, a0, cv(64 - s)); (self.cbin(Op::Shl, 64, a0, cv(s)), self.cbin(Op::Or, 64, x, y)) }
                            }
                            _ => return inc("symbolic i128 op"),
                        };
                        set!(*d, lo); set!(*d + 1, hi);
                    }
                    pc += 1;
                }
                I::Cmp128 { op, neg, d, a, b } => {
                    let (a0, a1, b0, b1) = (g!(a[0]), g!(a[1]), g!(b[0]), g!(b[1]));
                    let eqh = self.cbin(Op::Eq, 64, a1, b1);
                    let r = match op { Op::Eq => { let l = self.cbin(Op::Eq, 64, a0, b0); self.cbin(Op::And, 1, eqh, l) }
                        Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let hop = if matches!(op, Op::Ult | Op::Ule) { Op::Ult } else { Op::Slt }; let lop = if matches!(op, Op::Ult | Op::Slt) { Op::Ult } else { Op::Ule };
                            let h = self.cbin(hop, 64, a1, b1); let l = self.cbin(lop, 64, a0, b0); let l = self.cbin(Op::And, 1, eqh, l); self.cbin(Op::Or, 1, h, l) }
                        _ => return inc("i128 cmp") };
                    let r = if *neg { self.cbin(Op::Xor, 1, r, cv(1)) } else { r };
                    set!(*d, r); pc += 1;
                }
                I::FBin { op, w, d, a, b } => { let (x, y) = (g!(*a), g!(*b)); if x.e | y.e != 0 { return inc("symbolic float"); } set!(*d, cv(fbin(*op, *w, x.c, y.c))); pc += 1; }
                I::FCmp { pred, w, d, a, b } => { let (x, y) = (g!(*a), g!(*b)); if x.e | y.e != 0 { return inc("symbolic float"); } set!(*d, cv(fcmp(*pred, *w, x.c, y.c))); pc += 1; }
                I::FCast { k, fw, tw, d, a } => { let x = g!(*a); if x.e != 0 { return inc("symbolic float"); } set!(*d, cv(fcast(*k, *fw, *tw, x.c))); pc += 1; }
                I::Unsup(s) => return inc(format!("unsupported instruction {s} in {}", short(&fun.name))),
            }
        }
    }
    fn switch(&mut self, st: &mut St, e: E, w: u8, t: &SwTable) -> R<u32> {
        let mut groups: BTreeMap<u32, Vec<u64>> = BTreeMap::new();
        for &(k, d) in &t.cases { groups.entry(d).or_default().push(k); }
        let k0 = self.x.eval(e, &st.model); let cur = t.get(k0);
        // membership expression of a destination
        let mut conds: Vec<(u32, E)> = vec![];
        let mut all = self.x.cst(1, 0);
        let single = self.x.single(e).is_some();
        for (d, ks) in &groups {
            let c = if single {
                // one table node: is e in ks
                let mut ents = vec![]; 
                for &(k, dd) in &t.cases { ents.push((k, (dd == *d) as u64)); }
                // default entry must come first: pick an entry that is 0 for keys outside the cases
                let mut absent = 0u64; while t.cases.binary_search_by_key(&absent, |x| x.0).is_ok() { absent += 1; }
                if absent <= mask(w) { ents.insert(0, (absent, 0)); self.x.read(e, ents, 1) } else { self.x.read(e, ents, 1) }
            } else {
                let mut c = self.x.cst(1, 0);
                for &k in ks { let kc = self.x.cst(w, k); let q = self.x.bin(Op::Eq, e, kc); c = self.x.bin(Op::Or, c, q); }
                c
            };
            all = self.x.bin(Op::Or, all, c);
            if *d != t.def { conds.push((*d, c)); } else { /* merged with default below */ }
        }
        let mut nd = self.x.not(all);
        for (d, ks) in &groups { if *d == t.def { let _ = ks; let mut c = self.x.cst(1, 0); for &k in ks { let kc = self.x.cst(w, k); let q = self.x.bin(Op::Eq, e, kc); c = self.x.bin(Op::Or, c, q); } nd = self.x.bin(Op::Or, nd, c); } }
        conds.push((t.def, nd));
        let mut others = vec![]; let mut mine = None;
        for (d, c) in conds { if d == cur { mine = Some(c); if single { let _ = self.feasible(st, c)?; } continue; } if let Some(m) = self.feasible(st, c)? { others.push((c, m)); } }
        if others.is_empty() { return Ok(cur); }
        for (c, m) in others { self.push_fork(st, c, m); }
        self.add(st, mine.unwrap()); st.forks += 1;
        Ok(cur)
    }
    fn intrin(&mut self, k: In, w: u8, a: &[Val; 4]) -> R<(Val, Option<Val>)> {
        let sym = a[0].e | a[1].e | a[2].e != 0;
        let m = mask(w);
        let (x, y) = (a[0].c, a[1].c);
        if !sym {
            return Ok(match k {
                In::UAddO => { let (r, o) = (x.wrapping_add(y) & m, (x as u128 + y as u128) > m as u128); (cv(r), Some(cv(o as u64))) }
                In::USubO => (cv(x.wrapping_sub(y) & m), Some(cv((x < y) as u64))),
                In::UMulO => (cv(x.wrapping_mul(y) & m), Some(cv(((x as u128 * y as u128) > m as u128) as u64))),
                In::SAddO | In::SSubO | In::SMulO => { let (p, q) = (sx(x, w) as i128, sx(y, w) as i128); let r = match k { In::SAddO => p + q, In::SSubO => p - q, _ => p * q }; let t = r as u64 & m; (cv(t), Some(cv((sx(t, w) as i128 != r) as u64))) }
                In::UAddS => (cv(((x as u128 + y as u128).min(m as u128)) as u64), None),
                In::USubS => (cv(x.saturating_sub(y)), None),
                In::SAddS | In::SSubS => { let (p, q) = (sx(x, w) as i128, sx(y, w) as i128); let r = if k == In::SAddS { p + q } else { p - q }; let hi = (m >> 1) as i128; let lo = -hi - 1; (cv(r.clamp(lo, hi) as u64 & m), None) }
                In::UMin => (cv(x.min(y)), None), In::UMax => (cv(x.max(y)), None),
                In::SMin => (cv(if sx(x, w) < sx(y, w) { x } else { y }), None), In::SMax => (cv(if sx(x, w) > sx(y, w) { x } else { y }), None),
                In::Abs => (cv(sx(x, w).wrapping_abs() as u64 & m), None),
                In::Un(u) => (cv(apply_un(u, w, x)), None),
                In::FShl | In::FShr => { let s = a[2].c % w as u64; let r = if s == 0 { if k == In::FShl { x } else { y } } else if k == In::FShl { (x << s) | (y >> (w as u64 - s)) } else { (x << (w as u64 - s)) | (y >> s) }; (cv(r & m), None) }
                In::UCmp => (cv(match x.cmp(&y) { std::cmp::Ordering::Less => m, std::cmp::Ordering::Equal => 0, _ => 1 }), None),
                In::SCmp => { let aw = a[2].c as u8; (cv(match sx(x, aw).cmp(&sx(y, aw)) { std::cmp::Ordering::Less => m, std::cmp::Ordering::Equal => 0, _ => 1 }), None) }
                In::FUn(u) => (cv(fun1(u, w, x)), None), In::FBin2(b) => (cv(fbin(b, w, x, y)), None),
                _ => return inc("intrinsic"),
            });
        }
        let (p, q) = (a[0], a[1]);
        Ok(match k {
            In::UAddO => { let r = self.cbin(Op::Add, w, p, q); let o = self.cbin(Op::Ult, w, r, p); (r, Some(o)) }
            In::USubO => { let r = self.cbin(Op::Sub, w, p, q); let o = self.cbin(Op::Ult, w, p, q); (r, Some(o)) }
            In::UMulO => { let r = self.cbin(Op::Mul, w, p, q);
                let o = if w == 64 { let h = self.cbin(Op::MulHi, 64, p, q); let z = self.cbin(Op::Eq, 64, h, cv(0)); self.cbin(Op::Xor, 1, z, cv(1)) }
                    else if w <= 32 { let (pp, qq) = (self.cast(CastK::Zext, w, 64, p), self.cast(CastK::Zext, w, 64, q)); let t = self.cbin(Op::Mul, 64, pp, qq); self.cbin(Op::Ult, 64, cv(m), t) } else { return inc("umul overflow width") };
                (r, Some(o)) }
            In::SAddO | In::SSubO => {
                let r = self.cbin(if k == In::SAddO { Op::Add } else { Op::Sub }, w, p, q);
                let s1 = self.cbin(Op::Xor, w, p, if k == In::SAddO { r } else { q }); let s2 = if k == In::SAddO { self.cbin(Op::Xor, w, q, r) } else { self.cbin(Op::Xor, w, p, r) };
                let t = self.cbin(Op::And, w, s1, s2); let o = self.cbin(Op::Slt, w, t, cv(0)); (r, Some(o)) }
            In::SMulO if w <= 32 => { let (pp, qq) = (self.cast(CastK::Sext, w, 64, p), self.cast(CastK::Sext, w, 64, q)); let t = self.cbin(Op::Mul, 64, pp, qq); let r = self.cast(CastK::Trunc, 64, w, t); let b = self.cast(CastK::Sext, w, 64, r); let e = self.cbin(Op::Eq, 64, b, t); let o = self.cbin(Op::Xor, 1, e, cv(1)); (r, Some(o)) }
            In::UAddS => { let r = self.cbin(Op::Add, w, p, q); let o = self.cbin(Op::Ult, w, r, p); (self.sel(o, cv(m), r, w), None) }
            In::USubS => { let r = self.cbin(Op::Sub, w, p, q); let o = self.cbin(Op::Ult, w, p, q); (self.sel(o, cv(0), r, w), None) }
            In::UMin | In::UMax | In::SMin | In::SMax => { let op = if matches!(k, In::UMin | In::UMax) { Op::Ult } else { Op::Slt }; let c = self.cbin(op, w, p, q); (if matches!(k, In::UMin | In::SMin) { self.sel(c, p, q, w) } else { self.sel(c, q, p, w) }, None) }
            In::Abs => { let c = self.cbin(Op::Slt, w, p, cv(0)); let n = self.cbin(Op::Sub, w, cv(0), p); (self.sel(c, n, p, w), None) }
            In::Un(u) => { let e = self.x.un(u, p.e); (self.wrap(e), None) }
            In::FShl | In::FShr if a[2].e == 0 => { let s = a[2].c % w as u64; if s == 0 { (if k == In::FShl { p } else { q }, None) } else { let (l, r) = if k == In::FShl { (s, w as u64 - s) } else { (w as u64 - s, s) }; let x1 = self.cbin(Op::Shl, w, p, cv(l)); let x2 = self.cbin(Op::LShr, w, q, cv(r)); (self.cbin(Op::Or, w, x1, x2), None) } }
            In::UCmp | In::SCmp => { let aw = a[2].c as u8; let lt = self.cbin(if k == In::UCmp { Op::Ult } else { Op::Slt }, aw, p, q); let eq = self.cbin(Op::Eq, aw, p, q); let t = self.sel(eq, cv(0), cv(1), w); (self.sel(lt, cv(m), t, w), None) }
            _ => return inc(format!("symbolic intrinsic {k:?}")),
        })
    }

    // ---------- exploration
    fn finish(&mut self, st: &mut St, end: End) {
        self.st.steps += 0; self.st.max_steps = self.st.max_steps.max(st.steps);
        for r in &st.reach { *self.st.reach.entry(*r).or_insert(0) += 1; }
        let name = match &end { End::Ok => "ok".to_string(), End::Fail(s) => format!("fail:{s}"), End::Known(k) => format!("known:{k}"), End::Pruned => "assumed-away".into(), End::Incomplete(s) => format!("incomplete:{s}"), End::Forked => unreachable!() };
        *self.st.ends.entry(name.clone()).or_insert(0) += 1;
        if end != End::Pruned { self.st.paths += 1; }
        let inputs: Vec<u8> = st.order.iter().map(|v| st.model[*v as usize]).collect();
        match end {
            End::Fail(_) | End::Incomplete(_) => {
                let is_fail = matches!(end, End::Fail(_));
                let n = self.fail_count.entry(name.clone()).or_insert(0); *n += 1;
                if *n <= 12 {
                    // full path condition, once more, to the solver
                    let mut es = vec![]; let mut p = st.pc.clone(); while let Some(q) = p { es.push(q.e); p = q.next.clone(); }
                    let doms: Vec<(usize, Bits)> = st.order.iter().map(|v| (*v as usize, self.x.dom[*v as usize])).collect();
                    let mut inputs = inputs;
                    if is_fail { if let Ok(Some(a)) = self.z.solve(&self.x, &doms, &es) { let mm: HashMap<usize, u8> = a.into_iter().collect(); inputs = st.order.iter().map(|v| mm[&(*v as usize)]).collect(); self.confirmed += 1; } else if is_fail { panic!("engine error: path condition of a failing path not satisfiable"); } }
                    self.fails.push(Sample { cfg: self.cfg, inputs, end: name, digest: 0, reach: st.reach.clone() });
                }
            }
            End::Ok | End::Known(_) => {
                self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
                let slot = if self.samples.len() < self.max_samples { Some(self.samples.len()) } else { let k = (self.rng % self.st.paths.max(1)) as usize; if k < self.max_samples { Some(k) } else { None } };
                if let Some(k) = slot {
                    let mut h = 0xcbf29ce484222325u64;
                    for v in &st.digest { let x = if v.e == 0 { v.c } else { self.x.eval(v.e, &st.model) }; for b in x.to_le_bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } }
                    let s = Sample { cfg: self.cfg, inputs, end: name, digest: h, reach: st.reach.clone() };
                    if k == self.samples.len() { self.samples.push(s); } else { self.samples[k] = s; }
                }
            }
            _ => {}
        }
    }
    fn go(&mut self, mut s: St) -> Option<St> {
        let s0 = s.steps;
        let e = self.run(&mut s);
        self.st.steps += s.steps - s0;
        if e == End::Forked { return Some(s); }
        self.finish(&mut s, e); None
    }
    /// explore everything reachable from st; `share` = (i, n): only the i-th of n parts of a deterministic split
    pub fn explore(&mut self, st: St, share: (usize, usize)) -> u64 {
        self.work.clear();
        let mut init = vec![st];
        if share.1 > 1 {
            self.stop_on_fork = true;
            let target = share.1 * 24;
            let mut q: std::collections::VecDeque<St> = init.drain(..).collect();
            while q.len() < target {
                let Some(s) = q.pop_front() else { break };
                if let Some(s) = self.go(s) { q.push_back(s); }
                q.extend(self.work.drain(..));
            }
            self.stop_on_fork = false;
            if share.0 != 0 { self.st.ends.clear(); self.st.paths = 0; self.fails.clear(); self.fail_count.clear(); self.samples.clear(); self.st.reach.clear(); self.st.forks = 0; self.st.steps = 0; }
            init = q.into_iter().enumerate().filter(|(i, _)| i % share.1 == share.0).map(|x| x.1).collect();
        }
        self.work.extend(init);
        while let Some(s) = self.work.pop() {
            if Instant::now() > self.deadline { let left = self.work.len() as u64 + 1; self.work.clear(); return left; }
            self.go(s);
            if self.fail_count.values().sum::<u64>() >= 500 || self.x.v.len() > 3_000_000 { let left = self.work.len() as u64; self.work.clear(); return left; }
        }
        0
    }
}
pub fn short(n: &str) -> String {
    // crude demangling of v0 names: the identifier parts
    let b = n.as_bytes(); let mut out: Vec<&str> = vec![]; let mut i = 0;
    if !n.starts_with("_R") { return n.to_string(); }
    i += 2;
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() { // disambiguator s<base62>_
            if let Some(j) = n[i + 1..].find('_') { if n[i + 1..i + 1 + j].bytes().all(|c| c.is_ascii_alphanumeric()) && j < 14 && i > 0 && b[i - 1] == b'C' { i += j + 2; continue; } }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i; while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            let l: usize = n[i..j].parse().unwrap_or(0);
            let k = if j < b.len() && b[j] == b'_' { j + 1 } else { j };
            if l > 0 && k + l <= b.len() && n.is_char_boundary(k + l) { out.push(&n[k..k + l]); i = k + l; continue; }
        }
        i += 1;
    }
    out.join("::")
}
fn f(w: u8, x: u64) -> f64 { if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) } }
fn uf(w: u8, x: f64) -> u64 { if w == 32 { (x as f32).to_bits() as u64 } else { x.to_bits() } }
fn fbin(op: FB, w: u8, a: u64, b: u64) -> u64 {
    let (x, y) = (f(w, a), f(w, b));
    uf(w, match op { FB::Add => x + y, FB::Sub => x - y, FB::Mul => x * y, FB::Div => x / y, FB::Rem => x % y, FB::Min => x.min(y), FB::Max => x.max(y), FB::Copysign => x.copysign(y) })
}
fn fun1(u: FU, w: u8, a: u64) -> u64 { let x = f(w, a); uf(w, match u { FU::Floor => x.floor(), FU::Ceil => x.ceil(), FU::Trunc => x.trunc(), FU::Sqrt => x.sqrt(), FU::Fabs => x.abs(), FU::Neg => -x, FU::Round => x.round(), FU::Rint => x.round_ties_even() }) }
fn fcmp(p: u8, w: u8, a: u64, b: u64) -> u64 {
    let (x, y) = (f(w, a), f(w, b)); let un = x.is_nan() || y.is_nan();
    (match p { 0 => false, 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => !un && x != y, 7 => !un, 8 => un || x == y, 9 => un || x > y, 10 => un || x >= y, 11 => un || x < y, 12 => un || x <= y, 13 => x != y, 14 => un, _ => true }) as u64
}
fn fcast(k: FC, fw: u8, tw: u8, a: u64) -> u64 {
    match k {
        FC::SiToF => { let x = sx(a, fw); if tw == 32 { (x as f32).to_bits() as u64 } else { (x as f64).to_bits() } }
        FC::UiToF => if tw == 32 { (a as f32).to_bits() as u64 } else { (a as f64).to_bits() },
        FC::FToSi => { let x = f(fw, a); let r = if tw == 64 { x as i64 } else { let h = (mask(tw) >> 1) as f64; x.clamp(-h - 1.0, h) as i64 }; r as u64 & mask(tw) }
        FC::FToUi => { let x = f(fw, a); let r = if tw == 64 { x as u64 } else { x.clamp(0.0, mask(tw) as f64) as u64 }; r & mask(tw) }
        FC::FToF => uf(tw, f(fw, a)),
    }
}
