// Runtime shared by the harness crates.
//
// Without cfg(feature = "native") the `v_*` functions are left undefined: the symbolic executor provides them.
// With cfg(feature = "native") they are implemented below: the same harness runs natively on one concrete
// assignment of the symbolic bytes (replay of counterexamples, validation of sampled paths).
#![allow(dead_code, unsafe_op_in_unsafe_fn, static_mut_refs)]

#[cfg(not(feature = "native"))]
mod imp {
    unsafe extern "C" {
        pub fn v_sym(p: *mut u8, n: usize, dom: *const u8, dn: usize);
        pub fn v_assume(c: bool);
        pub fn v_fail(code: u32) -> !;
        pub fn v_known(code: u32) -> !;
        pub fn v_reach(code: u32);
        pub fn v_digest(x: u64);
        pub fn v_print(p: *const u8, n: usize);
        pub fn v_choice(x: u64) -> u64;
        pub fn v_done() -> !;
    }
}
#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    pub struct Nat { pub inputs: Vec<u8>, pub pos: usize, pub digest: u64, pub reach: Vec<u32> }
    thread_local! { pub static NAT: RefCell<Nat> = RefCell::new(Nat { inputs: vec![], pos: 0, digest: 0xcbf29ce484222325, reach: vec![] }); }
    pub unsafe fn v_sym(p: *mut u8, n: usize, dom: *const u8, dn: usize) {
        NAT.with(|s| { let mut s = s.borrow_mut(); for i in 0..n {
            let d = std::slice::from_raw_parts(dom, dn);
            let c = s.inputs.get(s.pos).copied().unwrap_or(d[0]); s.pos += 1;
            *p.add(i) = c;
        } })
    }
    fn done(kind: &str) -> ! { NAT.with(|s| { let s = s.borrow(); println!("{kind} digest={:016x} reach={:?}", s.digest, s.reach); }); let _ = std::io::Write::flush(&mut std::io::stdout()); unsafe { _exit(0) } }
    unsafe extern "C" { fn _exit(c: i32) -> !; }
    pub unsafe fn v_assume(c: bool) { if !c { done("PRUNED") } }
    pub unsafe fn v_fail(code: u32) -> ! { done(&format!("FAIL check:{code}")) }
    pub unsafe fn v_known(code: u32) -> ! { done(&format!("KNOWN {code}")) }
    pub unsafe fn v_reach(code: u32) { NAT.with(|s| { let mut s = s.borrow_mut(); if !s.reach.contains(&code) { s.reach.push(code); } }) }
    pub unsafe fn v_digest(x: u64) { NAT.with(|s| { let mut s = s.borrow_mut(); for b in x.to_le_bytes() { s.digest ^= b as u64; s.digest = s.digest.wrapping_mul(0x100000001b3); } }) }
    pub unsafe fn v_print(p: *const u8, n: usize) { println!("| {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).replace('\n', "\\n").replace('\r', "\\r")); }
    pub unsafe fn v_choice(x: u64) -> u64 { x }
    pub fn finish() -> ! { done("OK") }
    pub unsafe fn v_done() -> ! { done("OK") }
}

pub fn assume(c: bool) { unsafe { imp::v_assume(c) } }
pub fn known(c: u32) -> ! { unsafe { imp::v_known(c) } }
/// End the path here.
pub fn done() -> ! { unsafe { imp::v_done() } }
pub fn reach(c: u32) { unsafe { imp::v_reach(c) } }
pub fn digest(c: u64) { unsafe { imp::v_digest(c) } }
pub fn print(s: &str) { unsafe { imp::v_print(s.as_ptr(), s.len()) } }
/// End the path as a violation. The message is only built natively.
pub fn fail(code: u32, msg: impl FnOnce() -> String) -> ! {
    if cfg!(feature = "native") { print(&msg()); }
    unsafe { imp::v_fail(code) }
}
pub fn check(ok: bool, code: u32, msg: impl FnOnce() -> String) { if !ok { fail(code, msg) } }
pub fn sym(p: &mut [u8], dom: &[u8]) { unsafe { imp::v_sym(p.as_mut_ptr(), p.len(), dom.as_ptr(), dom.len()) } }

/// Job configuration: options, character classes, groups of text pieces, then templates.
/// `[n options][options..][n classes]([len][bytes..])*[n groups]([n pieces]([len][piece..])*)*[template 0x0F]*`
/// In a template (or piece)
///   0x0E X  one symbolic byte of class X ('A'..); lower case: the byte drawn last for X again
///   0x11 G  one piece of group G ('A'..), the index is symbolic; lower case: the text produced last for G again
///   0x0F    ends the template.
pub struct Cfg<'a> { pub opts: &'a [u8], classes: Vec<&'a [u8]>, groups: Vec<Vec<&'a [u8]>>, rest: &'a [u8], names: [u8; 26], last: Vec<Vec<u8>>, pub picks: Vec<u8> }
impl<'a> Cfg<'a> {
    pub unsafe fn new(p: *const u8, n: usize) -> Cfg<'a> {
        let b: &'a [u8] = std::slice::from_raw_parts(p, n);
        let (no, b) = (b[0] as usize, &b[1..]);
        let (opts, b) = b.split_at(no);
        fn lists(b: &[u8]) -> (Vec<&[u8]>, &[u8]) {
            let mut o = vec![];
            let mut r = &b[1..];
            for _ in 0..b[0] { let l = r[0] as usize; o.push(&r[1..1 + l]); r = &r[1 + l..]; }
            (o, r)
        }
        let (classes, mut b) = lists(b);
        let mut groups = vec![];
        let ng = b[0]; b = &b[1..];
        for _ in 0..ng { let (g, r) = lists(b); groups.push(g); b = r; }
        let k = groups.len();
        Cfg { opts, classes, groups, rest: b, names: [b'?'; 26], last: vec![vec![]; k], picks: vec![] }
    }
    pub fn opt(&self, i: usize) -> u8 { self.opts.get(i).copied().unwrap_or(0) }
    pub fn done(&self) -> bool { self.rest.is_empty() }
    /// the next template as bytes
    pub fn bytes(&mut self) -> Vec<u8> {
        let e = self.rest.iter().position(|c| *c == 0x0F).unwrap_or(self.rest.len());
        let t = &self.rest[..e];
        self.rest = &self.rest[(e + 1).min(self.rest.len())..];
        let mut o = Vec::with_capacity(t.len() + 16);
        self.expand(t, &mut o);
        o
    }
    fn expand(&mut self, t: &'a [u8], o: &mut Vec<u8>) {
        let mut i = 0;
        while i < t.len() {
            let c = t[i];
            if c == 0x0E {
                let x = t[i + 1];
                if x.is_ascii_lowercase() { o.push(self.names[(x - b'a') as usize]); }
                else {
                    let k = (x - b'A') as usize;
                    let mut b = [0u8; 1]; sym(&mut b, self.classes[k]);
                    self.names[k] = b[0];
                    o.push(b[0]);
                }
                i += 2;
            } else if c == 0x11 {
                let x = t[i + 1];
                if x.is_ascii_lowercase() { let l = self.last[(x - b'a') as usize].clone(); o.extend_from_slice(&l); }
                else {
                    let g = (x - b'A') as usize;
                    let k = self.choose(self.groups[g].len() as u8);
                    self.picks.push(k);
                    let from = o.len();
                    let piece: &'a [u8] = self.groups[g][k as usize];
                    self.expand(piece, o);
                    self.last[g] = o[from..].to_vec();
                }
                i += 2;
            } else { o.push(c); i += 1; }
        }
    }
    /// a symbolic number below n; the executor forks over the feasible values
    pub fn choose(&mut self, n: u8) -> u8 {
        let d: Vec<u8> = (0..n).collect();
        let mut b = [0u8; 1]; sym(&mut b, &d);
        unsafe { imp::v_choice(b[0].into()) as u8 }
    }
    pub fn text(&mut self) -> String { let b = self.bytes(); unsafe { String::from_utf8_unchecked(b) } }
    pub fn word(&mut self) -> usize { self.bytes().iter().fold(0, |a, c| a * 10 + (*c - b'0') as usize) }
}
/// comparison that never branches inside (the symbolic executor turns it into one formula)
pub fn same(a: &[u8], b: &[u8]) -> bool { a.len() == b.len() && a == b }


macro_rules! entries {
    ($($name:ident => $f:path),* $(,)?) => {
        $( #[unsafe(no_mangle)] pub unsafe extern "C" fn $name(p: *const u8, n: usize) { let mut c = unsafe { rt::Cfg::new(p, n) }; $f(&mut c); } )*
        #[cfg(feature = "native")]
        pub fn native_main() {
            let a: Vec<String> = std::env::args().collect();
            let unhex = |s: &str| -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() };
            let cfg = unhex(&a[2]); let inp = unhex(a.get(3).map_or("", |s| s));
            rt::imp::NAT.with(|s| s.borrow_mut().inputs = inp);
            let mut c = unsafe { rt::Cfg::new(cfg.as_ptr(), cfg.len()) };
            h_warmup_impl();
            match a[1].as_str() { $( stringify!($name) => $f(&mut c), )* x => { eprintln!("unknown entry {x}"); std::process::exit(3) } }
            rt::imp::finish();
        }
    };
}
