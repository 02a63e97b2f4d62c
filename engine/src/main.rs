mod exec;
mod expr;
mod mem;
mod parse;
mod solver;
use std::sync::atomic::Ordering::Relaxed;

fn main() {
    let mut a = std::env::args().skip(1);
    let mut o = exec::Opts {
        entry: String::new(),
        out: "/tmp/symx-out".into(),
        jobs: 8,
        time: 600.0,
        params: vec![],
        known: vec![],
        max_steps: 200_000_000,
        stop_on_viol: false,
        traces: 16,
        verbose: false,
    };
    let mut ll = String::new();
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("value");
        match x.as_str() {
            "--ll" => ll = v(),
            "--entry" => o.entry = v(),
            "--out" => o.out = v(),
            "--jobs" => o.jobs = v().parse().unwrap(),
            "--time" => o.time = v().parse().unwrap(),
            "--params" => o.params = v().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--known" => o.known.push(v()),
            "--max-steps" => o.max_steps = v().parse().unwrap(),
            "--traces" => o.traces = v().parse().unwrap(),
            "--stop" => o.stop_on_viol = true,
            "--verbose" => o.verbose = true,
            _ => panic!("unknown option {x}"),
        }
    }
    std::fs::create_dir_all(&o.out).unwrap();
    let t = std::time::Instant::now();
    let text: &'static str = Box::leak(std::fs::read_to_string(&ll).expect("read ll").into_boxed_str());
    let m = parse::Module::load(text);
    let sh = exec::shared_new();
    sh.tokens.store(o.jobs - 1, Relaxed);
    let out = o.out.clone();
    let entry = o.entry.clone();
    let mut e = exec::Engine::new(m, o, sh);
    let ok = e.start();
    if !ok {
        std::process::exit(2);
    }
    let mut s = format!("{{\"entry\":\"{entry}\"");
    for (k, v) in [
        ("paths", &sh.paths),
        ("killed", &sh.killed),
        ("forks", &sh.forks),
        ("steps", &sh.steps),
        ("max_path_steps", &sh.maxsteps),
        ("max_vars", &sh.maxvars),
        ("checks", &sh.checks),
        ("checks_symbolic", &sh.checks_solved),
        ("queries", &sh.queries),
        ("z3_calls", &sh.z3),
        ("sat", &sh.sat),
        ("unsat", &sh.unsat),
        ("unknown", &sh.unknown),
        ("cache_hits", &sh.cache),
        ("model_hits", &sh.mhits),
        ("solver_us", &sh.us),
        ("max_query_us", &sh.max_us),
        ("violations", &sh.viols),
        ("worker_processes", &sh.procs),
        ("incomplete", &sh.incomplete),
        ("errors", &sh.errors),
    ] {
        s += &format!(",\"{k}\":{}", v.load(Relaxed));
    }
    s += ",\"cover\":{";
    let mut first = true;
    for i in 0..128 {
        let c = sh.cover[i].load(Relaxed);
        if c > 0 {
            if !first {
                s += ",";
            }
            first = false;
            s += &format!("\"{i}\":{c}");
        }
    }
    s += &format!("}},\"wall_s\":{:.3}}}\n", t.elapsed().as_secs_f64());
    std::fs::write(format!("{out}/result.json"), &s).unwrap();
    print!("{s}");
}
