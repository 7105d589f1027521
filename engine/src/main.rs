mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<T, F: Fn(&T) -> String>(v: &[T], f: F) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}
fn pairs(v: &[(u64, u64)]) -> String {
    arr(v, |(a, b)| format!("[{a},{b}]"))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let flag = |k: &str| args.iter().any(|a| a == k);
    let irf = opt("--ir").expect("--ir");
    let text = std::fs::read_to_string(&irf).expect("read ir");
    let t0 = Instant::now();
    let prog = match ir::load(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("symex: cannot read IR: {e}");
            std::process::exit(3);
        }
    };
    drop(text);
    let load_s = t0.elapsed().as_secs_f64();
    if flag("--info") {
        let bad: Vec<_> = prog
            .funcs
            .iter()
            .flat_map(|f| {
                f.code.iter().filter_map(move |c| match c {
                    ir::Op::Bad(m) => Some(format!("{}: {}", f.name, m)),
                    _ => None,
                })
            })
            .collect();
        println!("funcs {} bad {} load {:.2}", prog.funcs.len(), bad.len(), load_s);
        for b in bad.iter().take(40) {
            println!("  {b}");
        }
        for f in prog.funcs.iter().filter(|f| !f.defined) {
            println!("undef {}{}", f.name, if f.noreturn { " noreturn" } else { "" });
        }
        return;
    }
    let z3 = opt("--z3").unwrap_or("/usr/lib/x86_64-linux-gnu/libz3.so".into());
    let api = match solver::Api::load(&z3) {
        Ok(a) => a,
        Err(e) => {
            eprintln!("symex: {e}");
            std::process::exit(3);
        }
    };
    let threads: usize = opt("--threads").and_then(|s| s.parse().ok()).unwrap_or(8);
    let timeout: u32 = opt("--timeout-ms").and_then(|s| s.parse().ok()).unwrap_or(60000);
    let deadline: f64 = opt("--deadline").and_then(|s| s.parse().ok()).unwrap_or(1e6);
    let lim = exec::Limits {
        steps: opt("--steps").and_then(|s| s.parse().ok()).unwrap_or(40_000_000),
        depth: 1500,
        max_viol: opt("--max-viol").and_then(|s| s.parse().ok()).unwrap_or(4),
        deadline: Instant::now() + Duration::from_secs_f64(deadline),
        samples: opt("--samples").and_then(|s| s.parse().ok()).unwrap_or(0),
        seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
    };
    let force_bv = flag("--force-bv");
    let jobs: Vec<(String, String, Vec<u64>)> = std::fs::read_to_string(opt("--jobs").expect("--jobs"))
        .expect("jobs")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let w: Vec<&str> = l.split_whitespace().collect();
            (w[0].to_string(), w[1].to_string(), w[2..].iter().map(|x| x.parse().expect("cfg")).collect())
        })
        .collect();
    let hs = exec::handlers(&prog);
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let viols = AtomicUsize::new(0);
    let stop_after: usize = opt("--stop-after").and_then(|s| s.parse().ok()).unwrap_or(6);
    let out: Mutex<BTreeMap<usize, String>> = Mutex::new(BTreeMap::new());
    let cov: Mutex<(Vec<u8>, Vec<u8>)> = Mutex::new((vec![0; prog.lines.len()], vec![0; prog.funcs.len()]));
    let ver = Mutex::new(String::new());
    let t1 = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..threads.min(jobs.len().max(1)) {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= jobs.len() {
                        break;
                    }
                    let (name, entry, cfg) = &jobs[i];
                    let sv = solver::Solver::new(api, timeout, force_bv);
                    *ver.lock().unwrap() = sv.version();
                    let mut ex = exec::Exec::new(&prog, &hs, sv, cfg.clone(), &lim, &stop);
                    ex.run(entry);
                    let n = viols.fetch_add(ex.res.violations.len(), Ordering::SeqCst) + ex.res.violations.len();
                    if n >= stop_after {
                        stop.store(true, Ordering::SeqCst);
                    }
                    {
                        let mut c = cov.lock().unwrap();
                        for (k, v) in ex.cov.iter().enumerate() {
                            c.0[k] |= v;
                        }
                        for (k, v) in ex.fcov.iter().enumerate() {
                            c.1[k] |= v;
                        }
                    }
                    let r = &ex.res;
                    let sst = &r.solver;
                    let line = format!(
                        "{{\"name\":{},\"entry\":{},\"cfg\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"instrs\":{},\"checks\":{},\"checks_const\":{},\"checks_solver\":{},\"max_pc\":{},\"vars\":{},\"complete\":{},\"wall\":{:.3},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"lia\":{},\"bv\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"reach\":{},\"msgs\":{{{}}},\"errors\":{},\"violations\":{},\"samples\":{}}}",
                        js(name), js(entry), arr(cfg, |x| x.to_string()), r.paths, r.infeasible, r.forks, r.instrs,
                        r.checks, r.checks_const, r.checks_solver, r.max_pc, r.vars, r.complete, r.wall,
                        sst.queries, sst.sat, sst.unsat, sst.unknown, sst.lia, sst.bv, sst.time, sst.max_query,
                        arr(&r.reach.iter().copied().collect::<Vec<_>>(), |x| x.to_string()),
                        r.checked_msgs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","),
                        arr(&r.errors, |x| js(x)),
                        arr(&r.violations, |v| format!("{{\"msg\":{},\"inputs\":{},\"trace\":{}}}", js(&v.msg), pairs(&v.inputs), arr(&v.trace, |t| js(t)))),
                        arr(&r.samples, |v| format!("{{\"inputs\":{},\"obs\":{},\"pc\":{}}}", pairs(&v.inputs), arr(&v.obs, |x| x.to_string()), v.pc)),
                    );
                    if flag("--progress") {
                        eprintln!(
                            "{name}: paths {} infeasible {} instrs {} queries {} solver {:.1}s wall {:.1}s checks {}/{} viol {} err {} complete {}",
                            r.paths, r.infeasible, r.instrs, sst.queries, sst.time, r.wall, r.checks, r.checks_solver, r.violations.len(), r.errors.len(), r.complete
                        );
                    }
                    out.lock().unwrap().insert(i, line);
                })
                .unwrap();
        }
    });
    let c = cov.into_inner().unwrap();
    // executable lines known / executed per file
    let mut files: BTreeMap<&str, (BTreeSet<u32>, BTreeSet<u32>)> = BTreeMap::new();
    for (k, (f, l)) in prog.lines.iter().enumerate() {
        if k == 0 {
            continue;
        }
        let e = files.entry(&prog.files[*f as usize]).or_default();
        e.0.insert(*l);
        if c.0[k] != 0 {
            e.1.insert(*l);
        }
    }
    let mut fns: BTreeSet<String> = BTreeSet::new();
    for (k, f) in prog.funcs.iter().enumerate() {
        if c.1[k] != 0 {
            fns.insert(format!("{:#}", rustc_demangle::demangle(&f.name)));
        }
    }
    let fns: Vec<String> = fns.into_iter().collect();
    let mut o = String::new();
    o += &format!(
        "{{\"solver\":{},\"load_s\":{:.3},\"run_s\":{:.3},\"ir_functions\":{},\"ir_instructions\":{},\"jobs\":[\n",
        js(&ver.into_inner().unwrap()),
        load_s,
        t1.elapsed().as_secs_f64(),
        prog.funcs.iter().filter(|f| f.defined).count(),
        prog.funcs.iter().map(|f| f.code.len()).sum::<usize>()
    );
    o += &out.into_inner().unwrap().into_values().collect::<Vec<_>>().join(",\n");
    o += "],\n\"functions\":";
    o += &arr(&fns, |x| js(x));
    o += ",\n\"lines\":{";
    o += &files
        .iter()
        .map(|(f, (a, b))| {
            format!(
                "{}:{{\"known\":{},\"hit\":{}}}",
                js(f),
                arr(&a.iter().collect::<Vec<_>>(), |x| x.to_string()),
                arr(&b.iter().collect::<Vec<_>>(), |x| x.to_string())
            )
        })
        .collect::<Vec<_>>()
        .join(",");
    o += "}}\n";
    match opt("--out") {
        Some(f) => std::fs::write(f, o).expect("write out"),
        None => print!("{o}"),
    }
}
