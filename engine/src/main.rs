//! pensym: bounded symbolic execution of LLVM IR, deciding path conditions and assertions with Z3.
//! usage: pensym MODULE.ll ENTRY [--out FILE] [--workers N] [--time S] ...
mod exec;
mod expr;
mod ll;
mod mem;
mod solver;

use exec::*;
use std::fmt::Write;
use std::sync::{Condvar, Mutex};
use std::time::Instant;

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}
fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut cfg = Config {
        entry: args[2].clone(),
        workers: 8,
        time: 600.0,
        max_insts: 300_000_000,
        max_depth: 3000,
        max_paths: u64::MAX,
        concrete_limit: 300,
        audit: false,
        traces: 0,
        solver_ms: 20_000,
        dump_every: 0,
        concrete: None,
        verbose: false,
        max_viol: 40,
        preempt: 64,
        trace: std::env::var_os("PENSYM_TRACE").is_some(),
    };
    let mut out = None;
    let mut dump_dir = None;
    let mut k = 3;
    while k < args.len() {
        let key = args[k].clone();
        let mut v = || {
            k += 1;
            args[k].clone()
        };
        match key.as_str() {
            "--out" => out = Some(v()),
            "--workers" => cfg.workers = v().parse().unwrap(),
            "--time" => cfg.time = v().parse().unwrap(),
            "--max-insts" => cfg.max_insts = v().parse().unwrap(),
            "--max-depth" => cfg.max_depth = v().parse().unwrap(),
            "--max-paths" => cfg.max_paths = v().parse().unwrap(),
            "--concrete-limit" => cfg.concrete_limit = v().parse().unwrap(),
            "--solver-ms" => cfg.solver_ms = v().parse().unwrap(),
            "--audit" => cfg.audit = true,
            "--traces" => cfg.traces = v().parse().unwrap(),
            "--dump-every" => cfg.dump_every = v().parse().unwrap(),
            "--dump-dir" => dump_dir = Some(v()),
            "--concrete" => cfg.concrete = Some(unhex(&v())),
            "--max-viol" => cfg.max_viol = v().parse().unwrap(),
            "--preempt" => cfg.preempt = v().parse().unwrap(),
            "-v" => cfg.verbose = true,
            x => panic!("unknown option {x}"),
        }
        k += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&args[1]).expect("read module");
    let m = ll::Module::load(text);
    let load = t0.elapsed().as_secs_f64();
    let entry = *m.fmap.get(&cfg.entry).unwrap_or_else(|| {
        eprintln!("no function {}", cfg.entry);
        std::process::exit(3)
    });
    let workers = cfg.workers;
    let zlib = std::env::var("PENSYM_Z3").unwrap_or_else(|_| {
        let new = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so";
        let old = "/usr/lib/x86_64-linux-gnu/libz3.so.4";
        (if std::path::Path::new(new).exists() { new } else { old }).into()
    });
    let zdir = std::env::current_exe().unwrap().parent().unwrap().join("z3");
    let sh: &'static Shared = Box::leak(Box::new(Shared {
        m,
        queue: Mutex::new((vec![Job { forced: vec![], model: vec![] }], 0, false)),
        cv: Condvar::new(),
        hungry: 0.into(),
        stop: false.into(),
        report: Mutex::new(Report::default()),
        cfg,
        start: Instant::now(),
        npaths: 0.into(),
    }));
    let hs: Vec<_> = (0..workers)
        .map(|n| {
            let (dir, lib) = (zdir.clone(), zlib.clone());
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    solver::load_library(&dir, &lib, n);
                    worker(sh, entry)
                })
                .unwrap()
        })
        .collect();
    let mut bad = false;
    for h in hs {
        bad |= h.join().is_err();
    }
    if bad {
        eprintln!("pensym: internal error");
        std::process::exit(4);
    }
    let r = sh.report.lock().unwrap();
    let wall = sh.start.elapsed().as_secs_f64();
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"entry\":{},\"paths\":{},\"cut\":{},\"expected_panics\":{},\"instructions\":{},\"forks\":{},\"assertions\":{},\"symbolic_assertions\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"domain_decisions\":{},\"max_symbolic_bytes\":{},\"timeout\":{},\"load_s\":{:.2},\"wall_s\":{:.2}",
        js(&sh.cfg.entry), r.paths, r.cut, r.ended_panic, r.insts, r.forks, r.asserts, r.asserts_sym, r.queries, r.sat, r.unsat, r.unknown, r.solver_s, r.fast, r.maxvars, r.timeout, load, wall
    );
    let l: Vec<String> = r.incomplete.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    let _ = write!(s, ",\"incomplete\":{{{}}}", l.join(","));
    let l: Vec<String> = r.covers.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    let _ = write!(s, ",\"covers\":{{{}}}", l.join(","));
    let mut f: Vec<&str> = r.fns.iter().map(|&i| m.fns[i as usize].name.as_str()).collect();
    f.sort();
    let l: Vec<String> = f.iter().map(|x| js(x)).collect();
    let _ = write!(s, ",\"functions\":[{}]", l.join(","));
    let l: Vec<String> = r
        .viols
        .values()
        .map(|v| {
            let st: Vec<String> = v.stack.iter().map(|x| js(x)).collect();
            format!(
                "{{\"kind\":{},\"message\":{},\"location\":{},\"count\":{},\"input\":\"{}\",\"schedule\":\"{}\",\"stack\":[{}]}}",
                js(&v.kind), js(&v.msg), js(&v.loc), v.count, hex(&v.model), hex(&v.schedule), st.join(",")
            )
        })
        .collect();
    let _ = write!(s, ",\"violations\":[{}]", l.join(","));
    let l: Vec<String> = r
        .traces
        .iter()
        .map(|t| {
            let c: Vec<String> = t.covers.iter().map(|x| x.to_string()).collect();
            format!(
                "{{\"input\":\"{}\",\"schedule\":\"{}\",\"outcome\":{},\"hash\":\"{:016x}\",\"covers\":[{}]}}",
                hex(&t.model), hex(&t.schedule), js(&t.outcome), t.hash, c.join(",")
            )
        })
        .collect();
    let _ = write!(s, ",\"traces\":[{}]}}", l.join(","));
    if let Some(d) = dump_dir {
        std::fs::create_dir_all(&d).unwrap();
        for (k, (q, sat)) in r.dump.iter().enumerate() {
            let e = if *sat { "sat" } else { "unsat" };
            std::fs::write(
                format!("{d}/{}-{k}-{e}.smt2", sh.cfg.entry),
                format!("{q}\n(check-sat)\n"),
            )
            .unwrap();
        }
    }
    match out {
        Some(o) => std::fs::write(o, s).unwrap(),
        None => println!("{s}"),
    }
    // skip the slow teardown of leaked arenas
    std::process::exit(0);
}
