mod exec; mod expr; mod ir; mod parse; mod solver;
use std::fmt::Write;

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } } o.push('"'); o }
fn nums(v: &[u128]) -> String { format!("[{}]", v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(",")) }

fn main() {
    let mut args = std::env::args().skip(1);
    let (mut ir, mut entry, mut out) = (String::new(), String::new(), String::new());
    let mut params: Vec<u64> = vec![];
    let mut lim = exec::Limits { max_paths: 2_000_000, max_steps: u64::MAX, max_time: 600.0, path_steps: 2_000_000_000, stop_after: -1.0 };
    let mut timeout = 60_000u32;
    let mut dump = None;
    let mut profile = false;
    let mut panics_ok = false;
    let mut case_cap = 2000usize;
    while let Some(a) = args.next() {
        let mut v = || args.next().unwrap();
        match a.as_str() {
            "--ir" => ir = v(), "--entry" => entry = v(), "--out" => out = v(),
            "--param" => params.push(v().parse().unwrap()),
            "--max-paths" => lim.max_paths = v().parse().unwrap(),
            "--max-time" => lim.max_time = v().parse().unwrap(),
            "--stop-after" => lim.stop_after = v().parse().unwrap(),
            "--timeout-ms" => timeout = v().parse().unwrap(),
            "--cases" => case_cap = v().parse().unwrap(),
            "--dump" => dump = Some(v()),
            "--profile" => profile = true,
            "--panics-ok" => panics_ok = true,
            x => { eprintln!("unknown option {}", x); std::process::exit(64) }
        }
    }
    // deep recursion in the simplifier: run on a big stack
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
        let t0 = std::time::Instant::now();
        let p = parse::Prog::load(&ir);
        let mut e = exec::Engine::new(p, lim, timeout, dump);
        e.params = params;
        e.profile = profile;
        e.panics_ok = panics_ok;
        e.case_cap = case_cap;
        let load = t0.elapsed().as_secs_f64();
        e.explore(&entry);
        let wall = t0.elapsed().as_secs_f64();
        let mut o = String::new();
        let _ = write!(o, "{{\"entry\":{},\"solver\":{},\"paths\":{},\"discarded\":{},\"forks\":{},\"steps\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"slowest_query_s\":{:.3},\"load_s\":{:.3},\"wall_s\":{:.3}", js(&entry), js(&solver::Solver::version()), e.paths, e.discarded, e.forks, e.steps, e.z.queries, e.z.sat, e.z.unsat, e.qhits, e.z.time, e.z.slowest, load, wall);
        let _ = write!(o, ",\"obligations\":{{{}}}", e.obligations.iter().map(|(k, v)| format!("\"{}\":[{},{}]", k, v.0, v.1)).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"reached\":{{{}}}", e.reached.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"errors\":[{}]", e.errors.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"violations\":[{}]", e.violations.iter().map(|v| format!("{{\"id\":{},\"kind\":{},\"msg\":{},\"inputs\":{},\"stack\":{}}}", v.id, js(&v.kind), js(&v.msg), nums(&v.inputs), js(&v.stack))).collect::<Vec<_>>().join(","));
        let _ = write!(o, ",\"cases\":[{}]", e.cases.iter().map(|c| format!("{{\"outcome\":{},\"inputs\":{},\"obs\":[{}]}}", js(&c.outcome), nums(&c.inputs), c.obs.iter().map(|(t, v)| format!("[{},\"{}\"]", t, v)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
        let cov = e.covered_lines();
        let _ = write!(o, ",\"lines\":{{{}}}", cov.iter().map(|(k, v)| format!("{}:[{}]", js(k), v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","));
        let fns: Vec<String> = e.seen_fn.iter().map(|f| js(&e.p.fns[*f as usize].name)).collect();
        let _ = write!(o, ",\"functions\":[{}]}}", fns.join(","));
        if out.is_empty() { println!("{}", o); } else { std::fs::write(&out, o).unwrap(); }
        eprintln!("{}: paths {} discarded {} forks {} steps {:.1}M queries {} (hits {}) solver {:.2}s wall {:.2}s violations {} errors {}", entry, e.paths, e.discarded, e.forks, e.steps as f64 / 1e6, e.z.queries, e.qhits, e.z.time, wall, e.violations.len(), e.errors.len());
        for x in &e.errors { eprintln!("  error: {}", x); }
        for v in &e.violations { eprintln!("  violation {} {} {} :: {}", v.kind, v.id, v.msg, v.stack); }
        if profile {
            let mut s: Vec<_> = e.fork_sites.iter().collect();
            s.sort_by_key(|x| std::cmp::Reverse(*x.1));
            for (k, v) in s.iter().take(25) { eprintln!("  fork {:6} {}", v, k); }
        }
        std::process::exit(if !e.errors.is_empty() { 3 } else if !e.violations.is_empty() { 1 } else { 0 });
    }).unwrap();
    let _ = h.join();
    std::process::exit(4);
}
