mod exec;
mod expr;
mod norm;
mod ir;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn getpid() -> i32;
    fn _exit(c: i32) -> !;
    fn kill(pid: i32, sig: i32) -> i32;
}
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
#[repr(C)]
struct Shared { active: AtomicI64, stop: AtomicI64, fails: AtomicI64, paths: AtomicI64, abort: AtomicI64 }

struct Args { ll: String, harness: String, out: String, workers: i64, time: f64, max_steps: u64, max_fail: i64, samples: usize, trace: bool, alloc_limit: u64, fast_ms: u32, slow_ms: u32, max_paths: i64, params: std::collections::HashMap<String, u64>, replace: Vec<(String, String)> }

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}

fn main() {
    let mut a = Args { ll: String::new(), harness: String::new(), out: String::new(), workers: 8, time: 600.0, max_steps: 30_000_000, max_fail: 3, samples: 8, trace: false, alloc_limit: 256 << 20, fast_ms: 3000, slow_ms: 60000, max_paths: i64::MAX, params: Default::default(), replace: vec![] };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("arg");
        match x.as_str() {
            "--ll" => a.ll = v(),
            "--harness" => a.harness = v(),
            "--out" => a.out = v(),
            "--workers" => a.workers = v().parse().unwrap(),
            "--time" => a.time = v().parse().unwrap(),
            "--max-steps" => a.max_steps = v().parse().unwrap(),
            "--max-fail" => a.max_fail = v().parse().unwrap(),
            "--samples" => a.samples = v().parse().unwrap(),
            "--alloc-limit" => a.alloc_limit = v().parse().unwrap(),
            "--fast-ms" => a.fast_ms = v().parse().unwrap(),
            "--slow-ms" => a.slow_ms = v().parse().unwrap(),
            "--max-paths" => a.max_paths = v().parse().unwrap(),
            "--param" => { let s = v(); let (k, x) = s.split_once('=').expect("param"); a.params.insert(k.into(), x.parse().unwrap()); }
            "--replace" => { let s = v(); let (k, x) = s.split_once('=').expect("replace"); a.replace.push((k.into(), x.into())); }
            "--trace" => a.trace = true,
            _ => { eprintln!("unknown arg {}", x); std::process::exit(3) }
        }
    }
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || run(a)).unwrap();
    let c = h.join().unwrap();
    std::process::exit(c);
}

fn run(a: Args) -> i32 {
    let t0 = Instant::now();
    let sh: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    sh.active.store(1, SeqCst);
    let dir = format!("{}.d", a.out);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let mut m = ir::Module::load(&a.ll);
    for (f, t) in &a.replace { m.replace(f, t); }
    let t_load = t0.elapsed().as_secs_f64();
    let root = unsafe { getpid() };
    // the solver must be created per process before forking is fine: single-threaded use
    let sv = z3::Solver::new(a.fast_ms, a.slow_ms);
    let mut en = Engine::new(m, sv, Opts { max_steps: a.max_steps, alloc_limit: a.alloc_limit, trace: a.trace, params: a.params.clone() });
    let st = en.start(&a.harness);
    en.work.push(st);
    let mut kids: Vec<i32> = vec![];
    let mut out: Vec<String> = vec![];
    let mut counts: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = 0usize;
    let mut dropped = 0u64;
    let mut seen_fail: BTreeSet<String> = BTreeSet::new();
    let mut last_progress = Instant::now();
    while let Some(mut st) = en.work.pop() {
        loop {
            if sh.stop.load(SeqCst) != 0 || t0.elapsed().as_secs_f64() > a.time {
                dropped += 1 + en.work.len() as u64;
                en.work.clear();
                break;
            }
            let r = en.run(&mut st, 20_000);
            let mut child = false;
            // share work
            while !en.work.is_empty() && sh.active.load(SeqCst) < a.workers {
                let n = sh.active.fetch_add(1, SeqCst);
                if n >= a.workers { sh.active.fetch_sub(1, SeqCst); break; }
                let give = (en.work.len() + 1) / 2;
                let pid = unsafe { fork() };
                if pid < 0 { sh.active.fetch_sub(1, SeqCst); break; }
                if pid == 0 {
                    en.work.truncate(give);
                    kids.clear(); out.clear(); counts.clear(); labels.clear(); samples = 0; dropped = 0;
                    en.steps = 0; en.forks = 0; en.asserts_folded = 0; en.asserts_proved = 0; en.called.clear();
                    en.sv.queries = 0; en.sv.cache_hits = 0; en.sv.sat = 0; en.sv.unsat = 0; en.sv.unknown = 0; en.sv.time = 0.0; en.sv.max_time = 0.0; en.sv.tabled = 0;
                    // continue with our own share: abandon the current state
                    st = en.work.pop().unwrap();
                    child = true;
                    break;
                } else {
                    kids.push(pid);
                    en.work.drain(..give);
                }
            }
            if child { continue; }
            let ev = match r { None => continue, Some(e) => e };
            if st.steps > en.max_steps_seen { en.max_steps_seen = st.steps; }
            *counts.entry(ev.kind()).or_default() += 1;
            let np = sh.paths.fetch_add(1, SeqCst) + 1;
            if np > a.max_paths { sh.stop.store(1, SeqCst); }
            for l in st.labels.iter() { *labels.entry(l.clone()).or_default() += 1; }
            let mut model = (*st.model).clone();
            model.resize(st.nvars as usize, 0);
            match &ev {
                Ev::Killed => {}
                Ev::Ok => {
                    if samples < a.samples {
                        samples += 1;
                        let ob = en.observed_bytes(&st);
                        out.push(format!("{{\"kind\":\"ok\",\"model\":\"{}\",\"labels\":[{}],\"observed\":\"{}\",\"steps\":{}}}", hex(&model), st.labels.iter().map(|l| js(l)).collect::<Vec<_>>().join(","), hex(&ob), st.steps));
                    }
                }
                _ => {
                    let tr = en.trace_of(&st);
                    let key = format!("{}|{}", ev.kind(), ev.msg());
                    if seen_fail.insert(key) || seen_fail.len() < 3 {
                        let ob = en.observed_bytes(&st);
                        out.push(format!("{{\"kind\":{},\"msg\":{},\"model\":\"{}\",\"labels\":[{}],\"observed\":\"{}\",\"trace\":{},\"steps\":{}}}", js(ev.kind()), js(&ev.msg()), hex(&model), st.labels.iter().map(|l| js(l)).collect::<Vec<_>>().join(","), hex(&ob), js(&tr), st.steps));
                        let n = sh.fails.fetch_add(1, SeqCst) + 1;
                        if n >= a.max_fail { sh.stop.store(1, SeqCst); }
                    }
                }
            }
            if unsafe { getpid() } == root && last_progress.elapsed().as_secs() > 20 {
                eprintln!("llsym: {} {:.0}s paths={} fails={} work={} q={} st={:.1}s", a.harness, t0.elapsed().as_secs_f64(), sh.paths.load(SeqCst), sh.fails.load(SeqCst), en.work.len(), en.sv.queries, en.sv.time);
                last_progress = Instant::now();
            }
            break;
        }
    }
    // write own record
    {
        let pid = unsafe { getpid() };
        let mut f = std::fs::File::create(format!("{}/{}", dir, pid)).unwrap();
        for l in &out { writeln!(f, "P\t{}", l).unwrap(); }
        for (k, v) in &counts { writeln!(f, "C\t{}\t{}", k, v).unwrap(); }
        for (k, v) in &labels { writeln!(f, "L\t{}\t{}", k.replace(['\t', '\n'], " "), v).unwrap(); }
        for id in &en.called { writeln!(f, "F\t{}", en.m.fnames[*id as usize]).unwrap(); }
        writeln!(f, "S\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", en.steps, en.forks, en.sv.queries, en.sv.cache_hits, en.sv.sat, en.sv.unsat, en.sv.unknown, en.sv.time, en.sv.max_time, dropped, en.max_steps_seen, en.asserts_folded, en.asserts_proved, en.sv.tabled).unwrap();
    }
    sh.active.fetch_sub(1, SeqCst);
    for k in kids {
        let mut s = 0;
        unsafe { waitpid(k, &mut s, 0) };
        if s != 0 { sh.abort.store(1, SeqCst); eprintln!("llsym: worker {} died with status {}", k, s); }
    }
    if unsafe { getpid() } != root { unsafe { _exit(0) } }
    let _ = unsafe { kill(0, 0) };
    // aggregate
    let mut paths = vec![];
    let mut cnt: BTreeMap<String, u64> = BTreeMap::new();
    let mut lab: BTreeMap<String, u64> = BTreeMap::new();
    let mut fns: BTreeSet<String> = BTreeSet::new();
    let mut s = [0f64; 14];
    for e in std::fs::read_dir(&dir).unwrap() {
        let t = std::fs::read_to_string(e.unwrap().path()).unwrap();
        for l in t.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "P" => paths.push(l[2..].to_string()),
                "C" => *cnt.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap(),
                "L" => *lab.entry(p[1].into()).or_default() += p[2].parse::<u64>().unwrap(),
                "F" => { fns.insert(p[1].into()); }
                "S" => for i in 0..14 { let v: f64 = p[i + 1].parse().unwrap(); if i == 8 || i == 10 { s[i] = s[i].max(v) } else { s[i] += v } },
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let worker_died = sh.abort.load(SeqCst) != 0;
    let mut j = String::new();
    j.push_str(&format!("{{\"harness\":{},\"load_s\":{:.3},\"wall_s\":{:.3},\"instructions\":{},\"forks\":{},\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"dropped\":{},\"max_path_steps\":{},\"worker_died\":{},\"asserts_folded\":{},\"asserts_proved\":{},\"byte_tables\":{},\n", js(&a.harness), t_load, t0.elapsed().as_secs_f64(), s[0] as u64, s[1] as u64, s[2] as u64, s[3] as u64, s[4] as u64, s[5] as u64, s[6] as u64, s[7], s[8], s[9] as u64, s[10] as u64, worker_died, s[11] as u64, s[12] as u64, s[13] as u64));
    j.push_str(&format!("\"counts\":{{{}}},\n", cnt.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    j.push_str(&format!("\"labels\":{{{}}},\n", lab.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")));
    j.push_str(&format!("\"functions\":[{}],\n", fns.iter().map(|k| js(k)).collect::<Vec<_>>().join(",")));
    j.push_str(&format!("\"paths\":[{}]}}\n", paths.join(",\n")));
    std::fs::write(&a.out, j).unwrap();
    0
}
