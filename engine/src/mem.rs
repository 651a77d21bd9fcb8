//! Flat, paged, copy-on-write memory with an optional symbolic byte overlay per page.
use crate::expr::E;
use std::rc::Rc;
pub const PB: u64 = 10;
pub const PS: usize = 1 << PB;
#[derive(Clone)]
pub struct Page { pub b: [u8; PS], pub s: Option<Box<[E; PS]>> }
#[derive(Clone)]
struct L0([Option<Rc<Page>>; 128]);
#[derive(Clone)]
struct L1([Option<Rc<L0>>; 64]);
#[derive(Clone)]
struct L2([Option<Rc<L1>>; 64]);
pub const LIMIT: u64 = 1 << (PB + 7 + 6 + 6);

pub struct Mem { root: Rc<L2>, rp: u64, rptr: *const Page, wp: u64, wptr: *mut Page }
impl Mem {
    pub fn new() -> Mem { Mem { root: Rc::new(L2([const { None }; 64])), rp: u64::MAX, rptr: std::ptr::null(), wp: u64::MAX, wptr: std::ptr::null_mut() } }
    pub fn fork(&mut self) -> Mem {
        self.rp = u64::MAX; self.wp = u64::MAX;
        Mem { root: self.root.clone(), rp: u64::MAX, rptr: std::ptr::null(), wp: u64::MAX, wptr: std::ptr::null_mut() }
    }
    #[inline] pub fn rd(&mut self, pg: u64) -> Option<&Page> {
        if pg == self.rp { return Some(unsafe { &*self.rptr }); }
        self.rd_slow(pg)
    }
    fn rd_slow(&mut self, pg: u64) -> Option<&Page> {
        if pg >= LIMIT >> PB { return None; }
        let l1 = self.root.0[(pg >> 13) as usize].as_ref()?;
        let l0 = l1.0[(pg >> 7) as usize & 63].as_ref()?;
        let p = l0.0[pg as usize & 127].as_ref()?;
        self.rp = pg; self.rptr = Rc::as_ptr(p);
        Some(unsafe { &*self.rptr })
    }
    #[inline] pub fn wr(&mut self, pg: u64) -> Option<&mut Page> {
        if pg == self.wp { return Some(unsafe { &mut *self.wptr }); }
        self.wr_slow(pg)
    }
    fn wr_slow(&mut self, pg: u64) -> Option<&mut Page> {
        if pg >= LIMIT >> PB || pg < 4 { return None; }
        let r = Rc::make_mut(&mut self.root);
        let l1 = Rc::make_mut(r.0[(pg >> 13) as usize].get_or_insert_with(|| Rc::new(L1([const { None }; 64]))));
        let l0 = Rc::make_mut(l1.0[(pg >> 7) as usize & 63].get_or_insert_with(|| Rc::new(L0([const { None }; 128]))));
        let p = Rc::make_mut(l0.0[pg as usize & 127].get_or_insert_with(|| Rc::new(Page { b: [0; PS], s: None })));
        self.wp = pg; self.wptr = p as *mut Page;
        if self.rp == pg { self.rptr = self.wptr; }
        // making an upper level unique never moves other pages, so a cached read pointer stays valid
        Some(unsafe { &mut *self.wptr })
    }
    /// concrete part of one byte and its symbolic expression (0 = none)
    #[inline] pub fn byte(&mut self, a: u64) -> Option<(u8, E)> {
        let p = self.rd(a >> PB)?; let o = a as usize & (PS - 1);
        Some((p.b[o], p.s.as_ref().map_or(0, |s| s[o])))
    }
    #[inline] pub fn set_byte(&mut self, a: u64, c: u8, e: E) -> bool {
        let Some(p) = self.wr(a >> PB) else { return false };
        let o = a as usize & (PS - 1);
        p.b[o] = c;
        if e != 0 { p.s.get_or_insert_with(|| Box::new([0; PS]))[o] = e; } else if let Some(s) = &mut p.s { s[o] = 0; }
        true
    }
    pub fn write(&mut self, mut a: u64, mut d: &[u8]) -> bool {
        while !d.is_empty() {
            let o = a as usize & (PS - 1); let n = d.len().min(PS - o);
            let Some(p) = self.wr(a >> PB) else { return false };
            p.b[o..o + n].copy_from_slice(&d[..n]);
            if let Some(s) = &mut p.s { s[o..o + n].fill(0); }
            a += n as u64; d = &d[n..];
        }
        true
    }
    pub fn fill(&mut self, mut a: u64, v: u8, mut len: u64) -> bool {
        while len > 0 {
            let o = a as usize & (PS - 1); let n = (len as usize).min(PS - o);
            let Some(p) = self.wr(a >> PB) else { return false };
            p.b[o..o + n].fill(v);
            if let Some(s) = &mut p.s { s[o..o + n].fill(0); }
            a += n as u64; len -= n as u64;
        }
        true
    }
    pub fn copy(&mut self, dst: u64, src: u64, len: u64) -> bool {
        if len == 0 || dst == src { return true; }
        if dst > src && dst < src + len {
            // overlapping: go through a buffer
            let mut b = Vec::with_capacity(len as usize);
            for i in 0..len { match self.byte(src + i) { Some(x) => b.push(x), None => return false } }
            for (i, (c, e)) in b.into_iter().enumerate() { if !self.set_byte(dst + i as u64, c, e) { return false; } }
            return true;
        }
        let (mut d, mut s, mut l) = (dst, src, len);
        while l > 0 {
            let so = s as usize & (PS - 1); let d0 = d as usize & (PS - 1);
            let n = (l as usize).min(PS - so).min(PS - d0);
            let same = s >> PB == d >> PB;
            let (sb, ss): ([u8; PS], Option<Vec<E>>);
            {
                let Some(p) = self.rd(s >> PB) else { return false };
                let mut t = [0u8; PS]; t[..n].copy_from_slice(&p.b[so..so + n]); sb = t;
                ss = p.s.as_ref().and_then(|x| { let x = &x[so..so + n]; if x.iter().any(|e| *e != 0) { Some(x.to_vec()) } else { None } });
            }
            let _ = same;
            let Some(q) = self.wr(d >> PB) else { return false };
            q.b[d0..d0 + n].copy_from_slice(&sb[..n]);
            match ss {
                Some(v) => { let o = q.s.get_or_insert_with(|| Box::new([0; PS])); o[d0..d0 + n].copy_from_slice(&v); }
                None => if let Some(o) = &mut q.s { o[d0..d0 + n].fill(0); }
            }
            d += n as u64; s += n as u64; l -= n as u64;
        }
        true
    }
    pub fn read_vec(&mut self, a: u64, n: u64) -> Option<Vec<u8>> {
        let mut v = Vec::with_capacity(n as usize);
        for i in 0..n { v.push(self.byte(a + i)?.0); }
        Some(v)
    }
}
