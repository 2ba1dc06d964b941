mod exec;
mod expr;
mod ir;
mod solver;

use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"');
    o
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real).unwrap();
    let c = h.join().unwrap();
    std::process::exit(c);
}

fn real() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&get("--ir").expect("--ir"));
    let fun = get("--fn").expect("--fn");
    let case: u32 = get("--case").map(|s| s.parse().unwrap()).unwrap_or(0);
    let time: f64 = get("--time").map(|s| s.parse().unwrap()).unwrap_or(60.0);
    let tmo: u32 = get("--query-ms").map(|s| s.parse().unwrap()).unwrap_or(20000);
    let mut e = exec::Engine::new(m, solver::Smt::new(tmo));
    e.deadline = t0 + std::time::Duration::from_secs_f64(time);
    e.verbose = args.iter().any(|a| a == "-v");
    if let Some(n) = get("--max-viol") { e.max_viol = n.parse().unwrap(); }
    if let Some(f) = get("--inputs") { e.fixed = std::fs::read_to_string(f).unwrap().lines().filter_map(|l| l.trim().parse().ok()).collect(); }
    if let Some(n) = get("--steps") { e.max_steps = n.parse().unwrap(); }
    if let Some(n) = get("--samples") { e.nsamples = n.parse().unwrap(); }
    if let Some(n) = get("--seed") { e.rng ^= n.parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15); if e.rng == 0 { e.rng = 1; } }
    if args.iter().any(|a| a == "--prof") { e.prof = Some(vec![0; e.m.globals.len()]); }
    if let Err(x) = e.run(&fun, case) { eprintln!("symex: {}", x); return 3; }
    let mut o = String::new();
    let c = &e.cov;
    let s = &e.smt.st;
    let _ = write!(o, "{{\"fn\":{},\"case\":{},\"paths\":{},\"assumed_away\":{},\"checks\":{},\"checks_const\":{},\"discharged\":{},\"forks\":{},\"insts\":{},\"pending\":{},\"pinned\":{},\"decisions\":{},\"decisions_covered\":{},", js(&fun), case, c.paths, c.assumed_away, c.checks, c.checks_const, c.discharged, c.forks, c.insts, e.work.len(), c.pinned, c.decisions, c.decisions_covered);
    let _ = write!(o, "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"model_hits\":{},\"table\":{},\"solver_s\":{:.3},\"wall_s\":{:.3},\"exprs\":{},", s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.model_hits, s.table, s.z3_s, t0.elapsed().as_secs_f64(), expr::ar().nodes.len());
    let nf = e.executed.iter().filter(|x| **x).count();
    let mut ni = 0;
    let mut names = vec![];
    for (i, x) in e.executed.iter().enumerate() { if *x { if let Some(f) = e.m.funcs[i] { ni += f.ninst; if f.name.contains("endbasic") || f.name.starts_with("h_") { names.push(js(&f.name)); } } } }
    let _ = write!(o, "\"functions\":{},\"ir_instructions\":{},\"repo_functions\":[{}],", nf, ni, names.join(","));
    let _ = write!(o, "\"covers\":{{{}}},", c.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"incomplete\":{{{}}},", c.incomplete.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let inp = |v: &Vec<(u16, u128)>| v.iter().map(|(w, x)| format!("[{},\"{}\"]", w, x)).collect::<Vec<_>>().join(",");
    let _ = write!(o, "\"violations\":[{}],", e.viol.iter().map(|v| format!("{{\"loose\":{},\"kind\":{},\"msg\":{},\"label\":{},\"stack\":[{}],\"inputs\":[{}],\"obs\":[{}]}}", v.loose, js(&v.kind), js(&v.msg), js(&v.label), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), inp(&v.inputs), v.obs.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"samples\":[{}]}}", e.samples.iter().map(|v| format!("{{\"inputs\":[{}],\"obs\":[{}],\"label\":{}}}", inp(&v.0), v.1.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), js(&v.2))).collect::<Vec<_>>().join(","));
    match get("--out") { Some(p) => std::fs::write(p, o).unwrap(), None => println!("{}", o) }
    if let Some(p) = &e.prof {
        let mut v: Vec<(u64, &str)> = p.iter().enumerate().filter(|x| *x.1 > 0).map(|(i, n)| (*n, e.m.globals[i].0)).collect();
        v.sort_by(|a, b| b.0.cmp(&a.0));
        for (n, s) in v.iter().take(25) { eprintln!("{:>12} {}", n, s); }
        let mut v: Vec<(u64, &String)> = e.forkprof.iter().map(|(k, n)| (*n, k)).collect();
        v.sort_by(|a, b| b.0.cmp(&a.0));
        eprintln!("-- forks");
        for (n, s) in v.iter().take(25) { eprintln!("{:>8} {}", n, s); }
    }
    0
}
