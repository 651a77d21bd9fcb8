//! C46: what happens to the file on disk. The file system is this one file: its content and the failures of the
//! system calls are symbolic; the real `process_file` (and the standard library below it) runs on top of it.
use super::oracles::{Finding, finding, sev};
use super::rt::*;
use super::*;

const TWIG: &[u8] = b"/verif-file.twig\0";
const TOML: &[u8] = b"/verif-config.toml\0";
const RD: i32 = 7001;
const WR: i32 = 7002;
/// rfault: 1 cannot be opened, 2 cannot be read, 3 interrupted once, 4 short reads, 5 breaks off behind the first bytes
/// wfault: 1 cannot be opened, 2 disk full, 3 interrupted once, 4 short writes, 5 breaks off behind the first bytes, 6 nothing is written
struct Disk { on: bool, name: &'static [u8], exists: bool, content: Vec<u8>, pos: usize, rfault: u8, wfault: u8, hit: bool, reads: u32, writes: u32, closed: u32, other: u32 }
static mut DISK: Disk = Disk { on: false, name: TWIG, exists: true, content: vec![], pos: 0, rfault: 0, wfault: 0, hit: false, reads: 0, writes: 0, closed: 0, other: 0 };
fn disk() -> &'static mut Disk { unsafe { &mut *std::ptr::addr_of_mut!(DISK) } }
unsafe extern "C" { fn __errno_location() -> *mut i32; }
#[cfg(feature = "native")]
unsafe extern "C" { fn syscall(n: i64, ...) -> i64; }
unsafe fn failed(e: i32) -> isize { unsafe { *__errno_location() = e; } -1 }
unsafe fn is_file(mut p: *const u8) -> bool { unsafe { for c in disk().name { if *p != *c { return false; } p = p.add(1); } } true }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 { unsafe {
    let d = disk();
    if !d.on || !is_file(path) {
        if d.on && flags & 3 != 0 { d.other += 1; }
        #[cfg(feature = "native")]
        return syscall(257, -100i64, path, i64::from(flags), i64::from(mode)) as i32;
        #[cfg(not(feature = "native"))]
        { let _ = mode; return failed(2) as i32; }
    }
    d.pos = 0;
    if flags & 3 == 0 { d.reads += 1; if d.rfault == 1 { return failed(2) as i32; } return RD; }
    d.writes += 1;
    if d.wfault == 1 { return failed(13) as i32; }
    if flags & 0o1000 != 0 { d.content.clear(); }
    WR
} }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize { unsafe {
    if fd != RD {
        #[cfg(feature = "native")]
        return syscall(0, i64::from(fd), buf, n as i64) as isize;
        #[cfg(not(feature = "native"))]
        return failed(9);
    }
    let d = disk();
    let mut k = n.min(d.content.len() - d.pos);
    match d.rfault {
        2 => return failed(5),
        3 if !d.hit => { d.hit = true; return failed(4); }
        4 => k = k.min(3),
        5 if d.hit => return failed(5),
        5 => { d.hit = true; k = k.min(2); }
        _ => {}
    }
    std::ptr::copy_nonoverlapping(d.content.as_ptr().add(d.pos), buf, k);
    d.pos += k;
    k as isize
} }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize { unsafe {
    if fd != WR {
        if RECORD && fd <= 2 { for i in 0..n { (*std::ptr::addr_of_mut!(PRINTED)).push(*buf.add(i)); } }
        #[cfg(feature = "native")]
        return syscall(1, i64::from(fd), buf, n as i64) as isize;
        #[cfg(not(feature = "native"))]
        return n as isize;
    }
    let d = disk();
    let mut k = n;
    match d.wfault {
        2 => return failed(28),
        3 if !d.hit => { d.hit = true; return failed(4); }
        4 => k = k.min(5),
        5 if d.hit => return failed(5),
        5 => { d.hit = true; k = k.min(4); }
        6 => return 0,
        _ => {}
    }
    for i in 0..k { let c = *buf.add(i); if d.pos < d.content.len() { d.content[d.pos] = c; } else { d.content.push(c); } d.pos += 1; }
    k as isize
} }
#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: i32) -> i32 { unsafe {
    if fd == RD || fd == WR { disk().closed += 1; return 0; }
    #[cfg(feature = "native")]
    return syscall(3, i64::from(fd)) as i32;
    #[cfg(not(feature = "native"))]
    return 0;
} }

/// what is printed while RECORD is set
pub static mut RECORD: bool = false;
pub static mut PRINTED: Vec<u8> = vec![];

/// the beginning of struct statx: what the standard library reads of it is the kind of the file and its size
#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, buf: *mut u8) -> i32 { unsafe {
    let d = disk();
    if path.is_null() || !d.on || dir == RD || dir == WR || *path == 0 || !is_file(path) {
        #[cfg(feature = "native")]
        if dir != RD && dir != WR { let r = syscall(332, i64::from(dir), path, i64::from(flags), i64::from(mask), buf) as i32; return r; }
        let _ = (flags, mask);
        return failed(if path.is_null() { 14 } else { 2 }) as i32;
    }
    if !d.exists { return failed(2) as i32; }
    std::ptr::write_bytes(buf, 0, 256);
    (buf as *mut u32).write(0x7ff);
    (buf.add(28) as *mut u16).write(0o100_644);
    (buf.add(40) as *mut u64).write(d.content.len() as u64);
    0
} }

/// opts: bit 0: failures of reading, bit 1: failures of writing, bit 2: with --fix only
pub fn run_file(c: &mut Cfg) {
    let o = c.opt(0);
    let bytes = c.bytes();
    let fix = o & 4 != 0 || c.choose(2) == 1;
    let rfault = if o & 1 != 0 { c.choose(6) } else { 0 };
    let wfault = if o & 2 != 0 { c.choose(7) } else { 0 };
    let show = || String::from_utf8_lossy(&bytes).into_owned();
    // what has to come of it
    let text = if matches!(rfault, 1 | 2) || rfault == 5 && !bytes.is_empty() { None } else { std::str::from_utf8(&bytes).ok() };
    let mut want: Option<(String, Vec<Finding>, usize, bool)> = None;
    let mut refused = false;
    if let Some(t) = text {
        let (cl, _rx) = cli(default_config(), all_rules(), false);
        let f = file(t, &cl);
        let r = run_rules(&f);
        if fix {
            match iteratively_apply_suggestions(f, r) {
                Ok((g, r, dirty, _)) => want = Some((g.source_code.clone(), r.iter().map(finding).collect(), g.parse_errors.len(), dirty)),
                Err(_) => refused = true,
            }
        } else { want = Some((t.to_string(), r.iter().map(finding).collect(), f.parse_errors.len(), false)); }
    }
    let (cl, rx) = cli(default_config(), all_rules(), fix);
    *disk() = Disk { on: true, name: TWIG, exists: true, content: bytes.clone(), pos: 0, rfault, wfault, hit: false, reads: 0, writes: 0, closed: 0, other: 0 };
    let r = crate::process::process_file(PathBuf::from("/verif-file.twig"), cl);
    let d = disk();
    d.on = false;
    digest(d.content.len() as u64); digest(d.writes.into()); digest(r.is_ok().into());
    let (mut files, mut messages, mut have) = (0, 0, [0usize; 4]);
    while let Ok(e) = rx.try_recv() { match e { ProcessingEvent::FileProcessed => files += 1, ProcessingEvent::Report(s) => have[sev(s) as usize] += 1, ProcessingEvent::OutputStderrMessage(_) => messages += 1 } }
    check(files == 1, 46, || format!("a file with {:?} is counted {files} times", show()));
    check(d.other == 0, 46, || format!("processing a file with {:?} opens another file for writing", show()));
    let dirty = want.as_ref().is_some_and(|w| w.3);
    if !dirty {
        reach(if text.is_none() { 460 } else if refused { 461 } else { 462 });
        check(d.writes == 0 && d.content == bytes, 46, || format!("a file with {:?} is written {} (fault {rfault}) although there is nothing to write: {:?}", show(), if fix { "with --fix" } else { "without --fix" }, String::from_utf8_lossy(&d.content)));
        check(r.is_ok() == want.is_some(), 46, || format!("processing a file with {:?} (fault {rfault}) {}", show(), if r.is_ok() { "succeeds although it could not be read or fixed" } else { "fails" }));
    } else if matches!(wfault, 1 | 2 | 5 | 6) && !(wfault == 5 && want.as_ref().is_some_and(|w| w.0.len() <= 4)) && !(wfault != 1 && want.as_ref().is_some_and(|w| w.0.is_empty())) {
        reach(463);
        check(r.is_err(), 46, || format!("a file with {:?} could not be written (fault {wfault}) but no error is returned", show()));
    } else {
        reach(464);
        let w = want.as_ref().map_or("", |w| w.0.as_str());
        check(r.is_ok() && d.content == w.as_bytes(), 46, || format!("a file with {:?} contains {:?} after fixing it, expected {w:?}", show(), String::from_utf8_lossy(&d.content)));
    }
    if r.is_ok() {
        let mut n = [0usize; 4];
        if let Some((_, fs, e, _)) = &want { for f in fs { n[f.sev as usize] += 1; } n[0] += e; }
        reach(465);
        check(have == n && messages == 1, 46, || format!("a file with {:?} leads to {have:?} events (error, warning, help, info) and {messages} messages, expected {n:?} and 1", show()));
    } else { check(have == [0; 4] && messages == 0, 46, || format!("a file with {:?} could not be processed but findings are reported", show())); }
}

// ------------------------------------------------------------------------------------------------ configuration
unsafe extern "C" { static mut environ: *const *const u8; }
fn strings(v: &str) -> Option<Vec<String>> {
    let v = v.strip_prefix('[')?.strip_suffix(']')?;
    let mut o = vec![]; let mut v = v.trim();
    while !v.is_empty() {
        let x = v.strip_prefix('"')?; let i = x.find('"')?;
        o.push(x[..i].to_string());
        v = x[i + 1..].trim();
        if !v.is_empty() { v = v.strip_prefix(',')?.trim(); }
    }
    Some(o)
}
/// the value of one source; false: it is no value of this field
fn set(k: &mut Config, key: &str, v: &str, env: bool) -> bool {
    // strings of the environment need no quotes
    let text = || v.strip_prefix('"').and_then(|v| v.strip_suffix('"')).or(if env { Some(v) } else { None });
    let f = &mut k.format;
    // what looks like another type is of that type
    if env && (v.starts_with(['[', '{']) || v == "true" || v == "false" || !v.is_empty() && v.bytes().all(|b| b.is_ascii_digit())) && matches!(key, "version") { return false; }
    match key {
        "version" => match text() { Some(t) => k.version = t.to_string(), None => return false },
        "format.line-ending" => f.line_ending = match text() { Some("unix_LF") => LineEnding::UnixLF, Some("windows_CRLF") => LineEnding::WindowsCRLF, _ => return false },
        "format.indentation-mode" => f.indentation_mode = match text() { Some("space") => IndentationMode::Space, Some("tab") => IndentationMode::Tab, _ => return false },
        "format.twig-quotation" | "format.html-quotation" => *(if key == "format.twig-quotation" { &mut f.twig_quotation } else { &mut f.html_quotation }) = match text() { Some("single") => Quotation::Single, Some("double") => Quotation::Double, _ => return false },
        "format.indentation-count" => match v.bytes().all(|b| b.is_ascii_digit()).then(|| v.bytes().fold(0u32, |a, b| a * 10 + u32::from(b - b'0'))) { Some(n) if n <= 255 && !v.is_empty() => f.indentation_count = n as u8, _ => return false },
        "format.indent-children-of-blocks" | "format.linebreaks-around-blocks" => *(if key == "format.indent-children-of-blocks" { &mut f.indent_children_of_blocks } else { &mut f.linebreaks_around_blocks }) = match v { "true" => true, "false" => false, _ => return false },
        "general.active-rules" | "twig.valid-filters" | "twig.valid-tests" | "twig.valid-functions" => {
            let Some(l) = strings(v) else { return false };
            *(match key { "general.active-rules" => &mut k.general.active_rules, "twig.valid-filters" => &mut k.twig.valid_filters, "twig.valid-tests" => &mut k.twig.valid_tests, "twig.valid-functions" => &mut k.twig.valid_functions, _ => return true }) = l;
        }
        _ => {}
    }
    true
}
/// opts: bit 0: the file cannot be read or does not exist; templates: the file (lines `key = value`, sections, comments; a line with
/// '!' in front is no TOML), then the environment
pub fn run_config(c: &mut Cfg) {
    let bytes = c.bytes();
    let mut env: Vec<Vec<u8>> = vec![];
    while !c.done() { let mut e = c.bytes(); e.push(0); env.push(e); }
    let rfault = if c.opt(0) & 1 != 0 { c.choose(7) } else { 0 };
    let def = default_config();
    let mut ptrs: Vec<*const u8> = env.iter().map(|e| e.as_ptr()).collect();
    ptrs.push(std::ptr::null());
    unsafe { environ = ptrs.as_ptr(); }
    *disk() = Disk { on: true, name: TOML, exists: rfault != 6, content: bytes.clone(), pos: 0, rfault, wfault: 0, hit: false, reads: 0, writes: 0, closed: 0, other: 0 };
    let r = Config::new("/verif-config.toml");
    let d = disk();
    d.on = false;
    unsafe { static NONE: usize = 0; environ = std::ptr::addr_of!(NONE) as *const *const u8; }
    let show = || format!("{:?} and the environment {:?}", String::from_utf8_lossy(&bytes), env.iter().map(|e| String::from_utf8_lossy(&e[..e.len() - 1]).into_owned()).collect::<Vec<_>>());
    check(d.writes == 0 && d.other == 0, 35, || format!("reading the configuration {} writes files", show()));
    // every value by its source: the environment before the file before the default
    let mut ok = !matches!(rfault, 1 | 2 | 5) || rfault == 5 && bytes.is_empty();
    let mut from: Vec<(String, String, bool)> = vec![];
    if rfault != 6 && ok {
        let text = unsafe { String::from_utf8_unchecked(bytes.clone()) };
        let mut section = String::new();
        for l in text.lines() {
            let l = l.trim();
            if l.is_empty() || l.starts_with('#') { continue; }
            if l.starts_with('!') { ok = false; break; }
            if let Some(x) = l.strip_prefix('[').and_then(|l| l.strip_suffix(']')) { section = format!("{x}."); continue; }
            let Some((k, v)) = l.split_once(" = ") else { ok = false; break };
            // numbers without quotes have no leading zero and consist of digits
            let q = v.starts_with(['"', '[', 't', 'f']);
            if !q && !(v == "0" || !v.is_empty() && !v.starts_with('0') && v.bytes().all(|b| b.is_ascii_digit())) || (v.starts_with(['t', 'f']) && v != "true" && v != "false") { ok = false; break; }
            let key = format!("{section}{k}");
            from.retain(|x| x.0 != key);
            from.push((key, v.to_string(), false));
        }
    }
    for e in &env {
        let e = unsafe { std::str::from_utf8_unchecked(&e[..e.len() - 1]) };
        let Some((n, v)) = e.split_once('=') else { continue };
        // names of variables count in any case
        let n = n.to_ascii_lowercase();
        let Some(n) = n.strip_prefix("ludtwig_") else { continue };
        let key = n.replace("__", ".").replace('_', "-");
        from.retain(|x| x.0 != key);
        from.push((key, v.trim().to_string(), true));
    }
    let mut want = def.clone();
    for (k, v, e) in &from { reach(if *e { 350 } else { 351 }); ok &= set(&mut want, k, v, *e); }
    if from.is_empty() { reach(352); }
    match r {
        Err(_) => { reach(353); check(!ok, 35, || format!("the configuration {} (fault {rfault}) is rejected: expected {want:?}", show())); }
        Ok(k) => {
            reach(354);
            digest(k.format.indentation_count.into());
            check(ok, 35, || format!("the configuration {} (fault {rfault}) is accepted: {k:?}", show()));
            check(k == want, 35, || format!("the configuration {} yields {k:?}, expected {want:?}", show()));
        }
    }
}

// ------------------------------------------------------------------------------------------------ creating the configuration
struct Create { create: bool, existed: bool, before: Vec<u8>, valid: bool }
static mut CREATE: Option<Create> = None;
/// the process ends: by `std::process::exit` of the code under test, or (natively) by that of the harness
#[unsafe(no_mangle)]
pub unsafe extern "C" fn exit(code: i32) -> ! { unsafe {
    if let Some(c) = (*std::ptr::addr_of_mut!(CREATE)).take() { created(&c, Some(code)); done(); }
    #[cfg(feature = "native")]
    { let _ = std::io::Write::flush(&mut std::io::stdout()); syscall(231, i64::from(code)); }
    fail(99, || "the process ends".into())
} }
fn created(c: &Create, code: Option<i32>) {
    let d = disk();
    d.on = false;
    let text = || String::from_utf8_lossy(&d.content).into_owned();
    digest(d.content.len() as u64); digest(d.writes.into());
    check(d.other == 0, 47, || "another file than the configuration is opened for writing".into());
    if c.create && !c.existed {
        reach(470);
        check(code == Some(0), 47, || format!("creating the configuration ends with {code:?}"));
        // what was written is the default
        use figment::providers::Format as _;
        let k: Option<Config> = std::str::from_utf8(&d.content).ok().and_then(|t| figment::Figment::from(figment::providers::Toml::string(t)).extract().ok());
        check(k.as_ref() == Some(&default_config()), 47, || format!("the created configuration {:?} is not the default", text()));
    } else {
        reach(if !c.create { 471 } else { 472 });
        check(d.writes == 0 && d.content == c.before, 47, || format!("an existing configuration {:?} is overwritten by {:?}", String::from_utf8_lossy(&c.before), text()));
        if let (false, Some(n)) = (c.create, code) { reach(474); check(n & 0xff != 0 && !c.valid, 47, || format!("with the configuration {:?} the run ends with {n}", text())); }
        check(!c.create || code.is_some_and(|c| c & 0xff != 0), 47, || format!("the configuration is not created but the run ends with {code:?}"));
    }
}
/// opts: 1: the path is given; one template: the file
pub fn run_create(c: &mut Cfg) {
    let given = c.opt(0) == 1;
    let bytes = c.bytes();
    let create = c.choose(2) == 1;
    // without a path and without -C the configuration is searched upwards
    assume(given || create);
    let existed = c.choose(2) == 1;
    let wfault = [0, 3, 4][c.choose(3) as usize];
    let valid = !existed || { use figment::providers::Format as _; std::str::from_utf8(&bytes).is_ok_and(|t| figment::Figment::from(figment::providers::Toml::string(&DEFAULT_RAW_CONFIG.replace("{{LUDTWIG_VERSION}}", LUDTWIG_VERSION))).merge(figment::providers::Toml::string(t)).extract::<Config>().is_ok()) };
    let content = if existed { bytes.clone() } else { vec![] };
    unsafe { static NONE: usize = 0; environ = std::ptr::addr_of!(NONE) as *const *const u8; }
    *disk() = Disk { on: true, name: if given { TOML } else { b"./ludtwig-config.toml\0" }, exists: existed, content: content.clone(), pos: 0, rfault: 0, wfault, hit: false, reads: 0, writes: 0, closed: 0, other: 0 };
    unsafe { CREATE = Some(Create { create, existed, before: content, valid }); }
    let opts = crate::Opts { files: vec![], fix: false, config_path: if given { Some(PathBuf::from("/verif-config.toml")) } else { None }, create_config: create, verbose: false, inspect: false };
    let k = handle_config_or_exit(&opts);
    let Some(x) = (unsafe { (*std::ptr::addr_of_mut!(CREATE)).take() }) else { return };
    created(&x, None);
    reach(473);
    check(valid && !create, 47, || format!("the run goes on with {k:?}"));
}
