//! llsym: symbolic execution of LLVM IR produced by rustc from the code under test.
mod exec;
mod expr;
mod ext;
mod ir;
mod mem;
mod solver;

use exec::*;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

/// Readable (approximate) form of a v0-mangled Rust symbol: the path identifiers in order.
pub fn demangle(s: &str) -> String {
    let b = s.as_bytes();
    if !s.starts_with("_R") {
        return s.to_string();
    }
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' && i > 0 {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 16 {
                i = j + 1;
                continue;
            }
        }
        if b[i] == b'B' {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() {
            let mut n = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if n > 0 && j + n <= b.len() {
                out.push(s[j..j + n].to_string());
                i = j + n;
                continue;
            }
            i = j;
            continue;
        }
        i += 1;
    }
    out.join("::")
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}

fn main() {
    // deep expression recursion: run on a thread with a large stack
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: llsym run FILE.ll ENTRY [options] | llsym list FILE.ll | llsym parse FILE.ll");
        return 2;
    }
    let get = |n: &str| -> Option<String> { args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned() };
    let has = |n: &str| args.iter().any(|a| a == n);
    let t0 = Instant::now();
    let m = match ir::Module::load(&args[2]) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("llsym: cannot load {}: {}", args[2], e);
            return 3;
        }
    };
    match args[1].as_str() {
        "list" => {
            for f in &m.fns {
                if f.def.is_some() && f.name.starts_with("h_") {
                    println!("{}", f.name);
                }
            }
            0
        }
        "parse" => {
            let mut bad = 0;
            for i in 0..m.fns.len() {
                if m.fns[i].def.is_some() {
                    if let Err(e) = m.func(i as u32) {
                        bad += 1;
                        if bad < 20 {
                            eprintln!("{}", e);
                        }
                    }
                }
            }
            println!("{} functions, {} not parsed", m.fns.len(), bad);
            0
        }
        "instrument" => {
            let mut racy = std::collections::HashSet::new();
            if let Some(r) = get("--racy") {
                for x in r.split(';').filter(|x| !x.is_empty()) {
                    let mut p = x.rsplitn(3, '/');
                    let ip = p.next().unwrap().parse().unwrap();
                    let bb = p.next().unwrap().parse().unwrap();
                    racy.insert((p.next().unwrap().to_string(), bb, ip));
                }
            }
            std::fs::write(&args[3], m.instrument(&racy)).unwrap();
            0
        }
        "run" => {
            let entry = args[3].clone();
            let num = |n: &str, d: u64| get(n).map(|x| x.parse().expect(n)).unwrap_or(d);
            let mut sv = solver::Solver::new(&get("--solver").unwrap_or("z3-new".into()), num("--query-timeout", 60_000));
            if let Some(c) = get("--cross") {
                sv.cross = Some(Box::new(solver::Solver::new(&c, num("--query-timeout", 60_000).min(10_000))));
            }
            sv.dump = get("--dump");
            let cfg = Cfg {
                max_steps: num("--max-steps", 20_000_000),
                max_paths: num("--max-paths", 10_000_000),
                deadline: t0 + Duration::from_secs(num("--timeout", 600)),
                preempt: num("--preempt", 2) as u32,
                seed: num("--seed", 1),
                reuse: has("--reuse"),
                samples: num("--samples", 0) as usize,
                trace: has("--trace"),
                concrete: get("--concrete").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
                conc_sched: get("--sched").map(|s| {
                    s.split(',')
                        .filter(|x| !x.is_empty())
                        .map(|x| {
                            let (a, b) = x.split_once(':').unwrap();
                            (a.parse().unwrap(), b.parse().unwrap())
                        })
                        .collect()
                }),
                max_sym_cand: num("--max-cand", 600),
                record_checks: !has("--no-record"),
            };
            expr::audit_ctx().cap = num("--audit", 0) as usize;
            expr::audit_ctx().on = num("--audit", 0) > 0;
            let mut en = Engine::new(m, sv, cfg);
            if let Err(e) = en.explore(&entry) {
                en.inconclusive = Some(e);
            }
            let mut audit = (0, 0);
            // (a counterexample is confirmed by native replay instead)
            if num("--audit", 0) > 0 && en.violation.is_none() {
                audit = en.solver.audit(num("--audit-seconds", 20) as u64);
                if audit.1 > 0 {
                    en.inconclusive = Some("the simplifier and the solver disagree".into());
                    en.violation = None;
                }
            }
            let out = report(&en, audit, &entry, t0.elapsed().as_secs_f64());
            match get("--out") {
                Some(p) => std::fs::write(p, out).unwrap(),
                None => println!("{}", out),
            }
            if en.violation.is_some() {
                1
            } else if en.inconclusive.is_some() {
                2
            } else {
                0
            }
        }
        _ => 2,
    }
}

fn report(en: &Engine, audit: (u64, u64), entry: &str, secs: f64) -> String {
    let mut o = String::from("{");
    let verdict = if en.violation.is_some() {
        "violation"
    } else if en.inconclusive.is_some() {
        "inconclusive"
    } else {
        "ok"
    };
    let _ = write!(o, "\"entry\":{},\"verdict\":{},\"seconds\":{:.3}", js(entry), js(verdict), secs);
    if let Some(i) = &en.inconclusive {
        let _ = write!(o, ",\"inconclusive\":{}", js(i));
    }
    let inputs = |v: &Vec<(String, u16, u128)>| jl(v, |(n, w, x)| format!("[{},{},{}]", js(n), w, js(&x.to_string())));
    let sched = |v: &Vec<(u32, u64)>| jl(v, |(t, n)| format!("[{},{}]", t, n));
    let obs = |v: &Vec<u128>| jl(v, |x| js(&x.to_string()));
    for (key, v) in [("violation", &en.violation), ("stuck", &en.stuck)] {
        let Some(v) = v else { continue };
        let _ = write!(
            o,
            ",{}:{{\"kind\":{},\"msg\":{},\"stack\":{},\"inputs\":{},\"sched\":{},\"obs\":{},\"notes\":{}}}",
            js(key),
            js(&v.kind),
            js(&v.msg),
            jl(&v.stack, |s| js(s)),
            inputs(&v.inputs),
            sched(&v.sched),
            obs(&v.obs),
            jl(&v.notes, |s| js(s))
        );
    }
    let s = &en.st;
    let _ = write!(
        o,
        ",\"stats\":{{\"paths\":{},\"cut\":{},\"pruned\":{},\"forks\":{},\"steps\":{},\"checks\":{},\"checks_trivial\":{},\"checks_solver\":{},\"switches\":{},\"sched_points\":{},\"max_pc\":{}}}",
        s.paths, s.cut, s.pruned, s.forks, s.steps, s.checks, s.checks_trivial, s.checks_solver, s.switches, s.sched_points, s.max_pc
    );
    let v = &en.solver;
    let _ = write!(
        o,
        ",\"solver\":{{\"name\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"seconds\":{:.3},\"max_seconds\":{:.3},\"cross_checked\":{},\"cross_disagree\":{},\"rewrites_confirmed\":{}}}",
        js(&v.name()),
        v.queries,
        v.sat,
        v.unsat,
        v.unknown,
        v.cache_hits,
        v.model_hits,
        v.time,
        v.max_time,
        v.cross_checked,
        v.cross_disagree,
        audit.0
    );
    let cov: Vec<(&String, &u64)> = s.covers.iter().collect();
    let _ = write!(o, ",\"covers\":{{{}}}", cov.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(","));
    let ck: Vec<(&String, &u64)> = s.check_msgs.iter().collect();
    let _ = write!(o, ",\"checks\":{{{}}}", ck.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(","));
    let mut fns: Vec<String> = s.funcs.iter().map(|f| demangle(&en.m.fns[*f as usize].name)).collect();
    fns.sort();
    fns.dedup();
    let _ = write!(o, ",\"functions\":{}", jl(&fns, |s| js(s)));
    let mut racy: Vec<String> = en.racy.iter().map(|k| format!("{}/{}/{}", en.m.fns[k.0 as usize].name, k.1, k.2)).collect();
    racy.sort();
    let _ = write!(o, ",\"racy_sites\":{}", jl(&racy, |s| js(s)));
    let _ = write!(
        o,
        ",\"samples\":{}",
        jl(&en.samples, |x| format!("{{\"inputs\":{},\"sched\":{},\"obs\":{},\"threads\":{}}}", inputs(&x.inputs), sched(&x.sched), obs(&x.obs), x.threads))
    );
    o.push_str("}\n");
    o
}
