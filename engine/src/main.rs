//! symx: symbolic execution of Rust code through its LLVM IR.
//!
//!   symx --ll FILE.ll --out REPORT.json [--jobs N] [--time SECS] [--paths N] [--steps N]
//!        [--samples N] [--crosscheck DIR] ENTRY[:arg,arg...]...
//!
//! Every ENTRY is a `#[no_mangle] extern "C" fn` of the module. All paths of all entries are
//! explored; infeasible branches and violated assertions are decided by the solver.

mod exec;
mod expr;
mod ir;
mod solver;

use exec::*;
use std::fmt::Write as _;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Length-prefixed token stream used between the workers and the parent.
#[derive(Default)]
struct Ser(Vec<u8>);
impl Ser {
    fn n(&mut self, v: u64) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn w(&mut self, v: u128) {
        self.0.extend_from_slice(&v.to_le_bytes());
    }
    fn s(&mut self, v: &str) {
        self.n(v.len() as u64);
        self.0.extend_from_slice(v.as_bytes());
    }
}
struct De<'a>(&'a [u8]);
impl De<'_> {
    fn n(&mut self) -> u64 {
        let (a, b) = self.0.split_at(8);
        self.0 = b;
        u64::from_le_bytes(a.try_into().unwrap())
    }
    fn w(&mut self) -> u128 {
        let (a, b) = self.0.split_at(16);
        self.0 = b;
        u128::from_le_bytes(a.try_into().unwrap())
    }
    fn s(&mut self) -> String {
        let n = self.n() as usize;
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        String::from_utf8_lossy(a).into_owned()
    }
}

fn ser(r: &Report) -> Vec<u8> {
    let mut s = Ser::default();
    for v in [r.paths_ok, r.paths_assume, r.paths_rejected, r.instrs, r.forks, r.asserts_checked, r.asserts_symbolic, r.max_path_steps, r.n_vars as u64] {
        s.n(v);
    }
    s.n(r.violations.len() as u64);
    for v in &r.violations {
        s.s(&v.kind);
        s.s(&v.id);
        s.n(v.stack.len() as u64);
        v.stack.iter().for_each(|x| s.s(x));
        s.n(v.inputs.len() as u64);
        v.inputs.iter().for_each(|x| s.w(*x));
        s.n(v.notes.len() as u64);
        v.notes.iter().for_each(|x| s.s(x));
    }
    s.n(r.errors.len() as u64);
    r.errors.iter().for_each(|x| s.s(x));
    s.n(r.incomplete.is_some() as u64);
    s.s(r.incomplete.as_deref().unwrap_or(""));
    s.n(r.reach.len() as u64);
    for (k, v) in &r.reach {
        s.n(*k as u64);
        s.n(*v);
    }
    s.n(r.funcs.len() as u64);
    r.funcs.iter().for_each(|x| s.s(x));
    s.n(r.samples.len() as u64);
    for (i, re) in &r.samples {
        s.n(i.len() as u64);
        i.iter().for_each(|x| s.w(*x));
        s.n(re.len() as u64);
        re.iter().for_each(|x| s.n(*x as u64));
    }
    let t = &r.stats;
    for v in [t.queries, t.sat, t.unsat, t.unknown, t.cache_hits, t.model_hits, t.secs.to_bits(), t.max_secs.to_bits()] {
        s.n(v);
    }
    s.n(r.dump.len() as u64);
    for (q, sat) in &r.dump {
        s.s(q);
        s.n(*sat as u64);
    }
    s.0
}

fn de(b: &[u8]) -> Report {
    let mut d = De(b);
    let mut r = Report::default();
    r.paths_ok = d.n();
    r.paths_assume = d.n();
    r.paths_rejected = d.n();
    r.instrs = d.n();
    r.forks = d.n();
    r.asserts_checked = d.n();
    r.asserts_symbolic = d.n();
    r.max_path_steps = d.n();
    r.n_vars = d.n() as usize;
    for _ in 0..d.n() {
        let kind = d.s();
        let id = d.s();
        let stack = (0..d.n()).map(|_| d.s()).collect();
        let inputs = (0..d.n()).map(|_| d.w()).collect();
        let notes = (0..d.n()).map(|_| d.s()).collect();
        r.violations.push(Violation { kind, id, stack, inputs, notes });
    }
    r.errors = (0..d.n()).map(|_| d.s()).collect();
    let inc = d.n();
    let s = d.s();
    r.incomplete = if inc != 0 { Some(s) } else { None };
    for _ in 0..d.n() {
        let k = d.n() as u32;
        let v = d.n();
        r.reach.insert(k, v);
    }
    r.funcs = (0..d.n()).map(|_| d.s()).collect();
    for _ in 0..d.n() {
        let i = (0..d.n()).map(|_| d.w()).collect();
        let re = (0..d.n()).map(|_| d.n() as u32).collect();
        r.samples.push((i, re));
    }
    r.stats.queries = d.n();
    r.stats.sat = d.n();
    r.stats.unsat = d.n();
    r.stats.unknown = d.n();
    r.stats.cache_hits = d.n();
    r.stats.model_hits = d.n();
    r.stats.secs = f64::from_bits(d.n());
    r.stats.max_secs = f64::from_bits(d.n());
    for _ in 0..d.n() {
        let q = d.s();
        let s = d.n() != 0;
        r.dump.push((q, s));
    }
    r
}

fn merge(a: &mut Report, b: Report) {
    a.paths_ok += b.paths_ok;
    a.paths_assume += b.paths_assume;
    a.paths_rejected += b.paths_rejected;
    a.instrs += b.instrs;
    a.forks += b.forks;
    a.asserts_checked += b.asserts_checked;
    a.asserts_symbolic += b.asserts_symbolic;
    a.max_path_steps = a.max_path_steps.max(b.max_path_steps);
    a.n_vars = a.n_vars.max(b.n_vars);
    for v in b.violations {
        if !a.violations.iter().any(|x| x.kind == v.kind && x.id == v.id) {
            a.violations.push(v);
        }
    }
    for e in b.errors {
        if a.errors.len() < 40 && !a.errors.contains(&e) {
            a.errors.push(e);
        }
    }
    if a.incomplete.is_none() {
        a.incomplete = b.incomplete;
    }
    for (k, v) in b.reach {
        *a.reach.entry(k).or_default() += v;
    }
    a.funcs.extend(b.funcs);
    if a.samples.len() < 300 {
        a.samples.extend(b.samples);
    }
    a.stats.queries += b.stats.queries;
    a.stats.sat += b.stats.sat;
    a.stats.unsat += b.stats.unsat;
    a.stats.unknown += b.stats.unknown;
    a.stats.cache_hits += b.stats.cache_hits;
    a.stats.model_hits += b.stats.model_hits;
    a.stats.secs += b.stats.secs;
    a.stats.max_secs = a.stats.max_secs.max(b.stats.max_secs);
    a.dump.extend(b.dump);
}

fn json(entry: &str, args: &[u64], r: &Report) -> String {
    let mut o = String::new();
    write!(o, "{{\"entry\":{},\"args\":{:?},\"paths\":{},\"paths_assumed_away\":{},\"paths_rejected\":{},\"instructions\":{},\"forks\":{},\"asserts\":{},\"asserts_symbolic\":{},\"max_path_instructions\":{}",
        esc(entry), args, r.paths_ok, r.paths_assume, r.paths_rejected, r.instrs, r.forks, r.asserts_checked, r.asserts_symbolic, r.max_path_steps).unwrap();
    write!(o, ",\"incomplete\":{}", r.incomplete.as_deref().map(esc).unwrap_or("null".into())).unwrap();
    let errs: Vec<String> = r.errors.iter().map(|e| esc(e)).collect();
    write!(o, ",\"errors\":[{}]", errs.join(",")).unwrap();
    let vs: Vec<String> = r
        .violations
        .iter()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().map(|s| esc(s)).collect();
            let nt: Vec<String> = v.notes.iter().map(|s| esc(s)).collect();
            let ins: Vec<String> = v.inputs.iter().map(|x| esc(&x.to_string())).collect();
            format!("{{\"kind\":{},\"id\":{},\"stack\":[{}],\"inputs\":[{}],\"notes\":[{}]}}", esc(&v.kind), esc(&v.id), st.join(","), ins.join(","), nt.join(","))
        })
        .collect();
    write!(o, ",\"violations\":[{}]", vs.join(",")).unwrap();
    let re: Vec<String> = r.reach.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    write!(o, ",\"reach\":{{{}}}", re.join(",")).unwrap();
    let sm: Vec<String> = r
        .samples
        .iter()
        .map(|(i, re)| {
            let ins: Vec<String> = i.iter().map(|x| esc(&x.to_string())).collect();
            format!("{{\"inputs\":[{}],\"reach\":{:?}}}", ins.join(","), re)
        })
        .collect();
    write!(o, ",\"samples\":[{}]", sm.join(",")).unwrap();
    let mut fs: Vec<&String> = r.funcs.iter().collect();
    fs.sort();
    let fs: Vec<String> = fs.into_iter().map(|f| esc(f)).collect();
    write!(o, ",\"functions\":[{}]", fs.join(",")).unwrap();
    let t = &r.stats;
    write!(o, ",\"solver\":{{\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"seconds\":{:.3},\"max_seconds\":{:.3}}}}}",
        t.queries, t.sat, t.unsat, t.unknown, t.cache_hits, t.model_hits, t.secs, t.max_secs).unwrap();
    o
}

fn real_main() -> i32 {
    let mut ll = String::new();
    let mut out = String::new();
    let mut jobs = 8usize;
    let mut time = 600f64;
    let mut cfg = Config {
        max_steps: 20_000_000,
        max_paths: u64::MAX,
        deadline: None,
        max_violations: 3,
        jobs,
        rlimit: 400_000_000,
        samples: 4,
        verbose: false,
        crosscheck: 0,
    };
    let mut dump_dir: Option<String> = None;
    let mut dump_every = 50u64;
    let mut entries: Vec<(String, Vec<u64>)> = vec![];
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("argument value");
        match a.as_str() {
            "--ll" => ll = v(),
            "--out" => out = v(),
            "--jobs" => jobs = v().parse().unwrap(),
            "--time" => time = v().parse().unwrap(),
            "--paths" => cfg.max_paths = v().parse().unwrap(),
            "--steps" => cfg.max_steps = v().parse().unwrap(),
            "--samples" => cfg.samples = v().parse().unwrap(),
            "--rlimit" => cfg.rlimit = v().parse().unwrap(),
            "--violations" => cfg.max_violations = v().parse().unwrap(),
            "--crosscheck" => dump_dir = Some(v()),
            "--crosscheck-every" => dump_every = v().parse().unwrap(),
            "-v" => cfg.verbose = true,
            e => {
                let mut p = e.splitn(2, ':');
                let n = p.next().unwrap().to_string();
                let args = p.next().map(|s| s.split(',').map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
                entries.push((n, args));
            }
        }
    }
    let t0 = Instant::now();
    cfg.jobs = jobs;
    cfg.deadline = Some(t0 + Duration::from_secs_f64(time));
    let verbose = cfg.verbose;
    let m = ir::Module::load(&ll);
    if verbose {
        eprintln!("symx: loaded {} functions, {} globals in {:.2}s", m.funcs.len(), m.globals.len(), t0.elapsed().as_secs_f64());
    }
    let mut ex = Exec::new(m, cfg);
    let mut reports: Vec<Report> = vec![];
    let tmp = std::env::temp_dir().join(format!("symx.{}", unsafe { getpid() }));
    std::fs::create_dir_all(&tmp).unwrap();
    let share: &'static Share = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Share) };
    share.jobs.store(jobs, SeqCst);
    share.waiting.store(entries.len(), SeqCst);
    ex.share(share);
    let mut pids = vec![];
    for (e, (name, args)) in entries.iter().enumerate() {
        reports.push(Report::default());
        share.waiting.fetch_sub(1, SeqCst);
        if !ex.m.fidx.contains_key(name.as_str()) {
            reports[e].errors.push(format!("no entry function @{name}"));
            continue;
        }
        while !share.claim() {
            std::thread::sleep(Duration::from_millis(2));
        }
        let pid = unsafe { fork() };
        if pid != 0 {
            pids.push((e, pid));
            continue;
        }
        ex.new_entry();
        if dump_dir.is_some() {
            ex.solver.enable_dump(dump_every);
        }
        let t = Instant::now();
        let s = ex.initial(name, args);
        ex.explore(s);
        // (a process forked during the exploration continues here as well)
        ex.collect();
        let r = std::mem::take(&mut ex.rep);
        std::fs::write(tmp.join(format!("{e}.{}", unsafe { getpid() })), ser(&r)).unwrap();
        share.release();
        let mut bad = false;
        for c in std::mem::take(&mut ex.children) {
            let mut status = 0;
            unsafe { waitpid(c, &mut status, 0) };
            bad |= status != 0;
        }
        if verbose && bad {
            eprintln!("symx: a worker of {name} ended abnormally after {:.1}s", t.elapsed().as_secs_f64());
        }
        unsafe { _exit(bad as i32) }
    }
    let mut ok = true;
    for (e, p) in pids {
        let mut status = 0;
        unsafe { waitpid(p, &mut status, 0) };
        if status != 0 {
            eprintln!("symx: a worker ended with status {status}");
            ok = false;
            reports[e].errors.push(format!("a worker ended abnormally (status {status})"));
        }
    }
    let mut files: Vec<_> = std::fs::read_dir(&tmp).unwrap().map(|f| f.unwrap().path()).collect();
    files.sort();
    for f in files {
        let e: usize = f.file_stem().unwrap().to_str().unwrap().parse().unwrap();
        let b = std::fs::read(f).unwrap();
        merge(&mut reports[e], de(&b));
    }
    if verbose {
        eprintln!("symx: {} worker processes", share.forks.load(SeqCst));
    }
    let _ = std::fs::remove_dir_all(&tmp);
    if let Some(dir) = &dump_dir {
        std::fs::create_dir_all(dir).unwrap();
        let mut k = 0;
        for r in &reports {
            for (q, sat) in &r.dump {
                std::fs::write(format!("{dir}/q{k:05}.{}.smt2", if *sat { "sat" } else { "unsat" }), q).unwrap();
                k += 1;
            }
        }
    }
    let parts: Vec<String> = entries.iter().zip(&reports).map(|((n, a), r)| json(n, a, r)).collect();
    let js = format!("{{\"wall_s\":{:.3},\"entries\":[\n{}\n]}}\n", t0.elapsed().as_secs_f64(), parts.join(",\n"));
    if out.is_empty() {
        println!("{js}");
    } else {
        std::fs::write(&out, js).unwrap();
    }
    for ((n, _), r) in entries.iter().zip(&reports) {
        eprintln!(
            "symx: {n}: {} paths ({} assumed away), {} instructions, {} queries {:.1}s solver, {} asserts ({} symbolic), {} violations, {} errors{}",
            r.paths_ok, r.paths_assume, r.instrs, r.stats.queries, r.stats.secs, r.asserts_checked, r.asserts_symbolic, r.violations.len(), r.errors.len(),
            r.incomplete.as_deref().map(|s| format!(", INCOMPLETE: {s}")).unwrap_or_default()
        );
        if verbose {
            for v in &r.violations {
                eprintln!("  VIOLATION {} {} inputs {:?} notes {:?}", v.kind, v.id, v.inputs, v.notes);
                for s in v.stack.iter().take(12) {
                    eprintln!("    at {s}");
                }
            }
            for e in r.errors.iter().take(5) {
                eprintln!("  ERROR {e}");
            }
        }
    }
    if ok { 0 } else { 3 }
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(4);
    std::process::exit(c);
}
