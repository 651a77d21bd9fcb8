//! symex: symbolic execution of LLVM IR (generated from /repo's Rust sources) with Z3 as decision procedure.
//! usage: symex <module.ll> <jobs file> <out dir> [--par N] [--time SECONDS] [--steps N] [--warm ENTRY] [--print] [--prof]
//! a job line is: id TAB entry TAB hex of the configuration bytes TAB part/parts
mod exec; mod expr; mod ll; mod mem; mod z3;
use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::time::{Duration, Instant};
extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }

fn esc(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o.push('"'); o }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn samples(v: &[Sample]) -> String { v.iter().map(|s| format!("{{\"cfg\":{},\"inputs\":\"{}\",\"end\":{},\"digest\":\"{:016x}\",\"reach\":{:?}}}", s.cfg, hex(&s.inputs), esc(&s.end), s.digest, s.reach)).collect::<Vec<_>>().join(",") }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let par: usize = opt("--par").map_or(8, |x| x.parse().unwrap());
    let time: f64 = opt("--time").map_or(60.0, |x| x.parse().unwrap());
    let total: f64 = opt("--total").map_or(1e9, |x| x.parse().unwrap());
    let steps: u64 = opt("--steps").map_or(400_000_000, |x| x.parse().unwrap());
    let print = a.iter().any(|x| x == "--print"); let prof = a.iter().any(|x| x == "--prof");
    let nsamples: usize = opt("--samples").map_or(6, |x| x.parse().unwrap());
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let mut m = ll::Module::parse(&src);
    let mut st = St::new();
    Eng::init_globals(&mut st, &mut m, &src);
    let t1 = t0.elapsed();
    // concrete warm-up: statics, regexes, configuration
    if let Some(w) = opt("--warm") {
        let mut e = Eng::new(&m, 4_000_000_000, Instant::now() + Duration::from_secs(120));
        e.print = print;
        if let Some(&f) = m.fidx.get(&w) {
            e.call_entry(&mut st, f, &[]);
            let r = e.run(&mut st);
            if r != End::Ok { eprintln!("warm-up failed: {r:?}"); std::process::exit(4); }
        } else { eprintln!("no warm-up entry {w}"); std::process::exit(4); }
    }
    let t2 = t0.elapsed();
    eprintln!("symex: parsed in {:.1}s ({} functions), warmed up at {:.1}s", t1.as_secs_f64(), m.funcs.iter().filter(|f| !f.is_decl).count(), t2.as_secs_f64());
    let jobs: Vec<Vec<String>> = std::fs::read_to_string(&a[2]).unwrap().lines().filter(|l| !l.is_empty()).map(|l| l.split('\t').map(String::from).collect()).collect();
    let out = a[3].clone(); std::fs::create_dir_all(&out).unwrap();
    let mut running: BTreeMap<i32, usize> = BTreeMap::new();
    let reap = |running: &mut BTreeMap<i32, usize>| {
        let mut s = 0; let p = unsafe { waitpid(-1, &mut s, 0) };
        if let Some(i) = running.remove(&p) { if s != 0 { let _ = std::fs::write(format!("{out}/{}.json", jobs[i][0]), format!("{{\"id\":{},\"crash\":{s}}}", esc(&jobs[i][0]))); } }
    };
    for (ji, j) in jobs.iter().enumerate() {
        while par > 0 && running.len() >= par { reap(&mut running); }
        let pid = if par == 0 { 0 } else { unsafe { fork() } };
        if pid != 0 { running.insert(pid, ji); continue; }
        // ---- child
        let (i, n) = j[3].split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())).unwrap();
        let limit = f64::min(j.get(4).and_then(|x| x.parse().ok()).unwrap_or(time), total - t0.elapsed().as_secs_f64()).max(0.0);
        let start = Instant::now();
        let mut e = Eng::new(&m, steps, start + Duration::from_secs_f64(limit));
        e.print = print; e.max_samples = nsamples; if prof { e.prof = Some(Default::default()); }
        let Some(&f) = m.fidx.get(&j[1]) else { eprintln!("no entry {}", j[1]); unsafe { _exit(5) } };
        let mut left = 0; let mut open_cfgs: Vec<usize> = vec![];
        for (ci, cfg) in j[2].split(',').enumerate() {
            let cfg = unhex(cfg);
            let mut root = st.fork();
            e.cfg = ci as u32; e.reset();
            let p = e.put_bytes(&mut root, &cfg);
            e.call_entry(&mut root, f, &[Val { c: p, e: 0 }, Val { c: cfg.len() as u64, e: 0 }]);
            let l = e.explore(root, (i, n));
            if l > 0 { left += l; open_cfgs.push(ci); }
        }
        e.flush_cert();
        let mut o = String::new();
        let s = &e.st;
        let _ = write!(o, "{{\"id\":{},\"entry\":{},\"part\":{},\"seconds\":{:.3},\"paths\":{},\"forks\":{},\"steps\":{},\"max_path_steps\":{},\"unexplored\":{},\"open_configs\":{:?},\"ends\":{{", esc(&j[0]), esc(&j[1]), esc(&j[3]), start.elapsed().as_secs_f64(), s.paths, s.forks, s.steps, s.max_steps, left, open_cfgs);
        o.push_str(&s.ends.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect::<Vec<_>>().join(","));
        let _ = write!(o, "}},\"reach\":{{{}}}", s.reach.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"solver\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"seconds\":{:.3},\"max_seconds\":{:.3},\"certified_tables\":{},\"table_decisions\":{},\"confirmed_failures\":{}}}", e.z.queries, e.z.sat, e.z.unsat, e.z.unknown, e.z.ns as f64 / 1e9, e.z.max_ns as f64 / 1e9, s.certified, s.table_branches, e.confirmed);
        let _ = write!(o, ",\"exprs\":{},\"max_depth\":{},\"samples\":[{}],\"failures\":[{}]", e.done_exprs + e.x.v.len() as u64, s.max_depth, samples(&e.samples), samples(&e.fails));
        let fs: Vec<String> = e.seen.iter().enumerate().filter(|x| *x.1).map(|(i, _)| short(&m.funcs[i].name)).filter(|n| n.contains("ludtwig")).map(|n| esc(&n)).collect();
        let nf = e.seen.iter().filter(|x| **x).count();
        let _ = write!(o, ",\"functions_executed\":{nf},\"functions\":[{}]}}", fs.join(","));
        std::fs::write(format!("{out}/{}.json", j[0]), o).unwrap();
        if let Some(p) = &e.prof { let mut v: Vec<_> = p.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for ((f, pc), c) in v.into_iter().take(25) { eprintln!("{c:8} {} @{pc}: {:?}", short(&m.funcs[*f as usize].name), m.funcs[*f as usize].code[*pc as usize]); } }
        unsafe { _exit(0) }
    }
    while !running.is_empty() { reap(&mut running); }
}
