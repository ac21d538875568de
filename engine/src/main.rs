mod exec;
mod expr;
mod ll;
mod mem;
mod models;
mod solver;
use exec::*;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut files = vec![];
    let mut entry = String::new();
    let mut out = String::new();
    let mut cfg = Cfg {
        params: vec![],
        max_steps: 50_000_000,
        max_paths: u64::MAX,
        deadline: Instant::now() + Duration::from_secs(600),
        workers: 8,
        verbose: false,
        max_viol: 40,
    };
    let mut args = std::env::args().skip(1);
    let mut time = 600u64;
    while let Some(a) = args.next() {
        let mut nx = || args.next().expect("missing value");
        match a.as_str() {
            "--list" => {
                let l = std::fs::read_to_string(nx()).expect("list");
                files.extend(l.lines().map(|x| x.to_string()))
            }
            "--entry" => entry = nx(),
            "--out" => out = nx(),
            "--params" => cfg.params = nx().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--time" => time = nx().parse().unwrap(),
            "--workers" => cfg.workers = nx().parse().unwrap(),
            "--max-steps" => cfg.max_steps = nx().parse().unwrap(),
            "--max-paths" => cfg.max_paths = nx().parse().unwrap(),
            "--max-viol" => cfg.max_viol = nx().parse().unwrap(),
            "-v" => cfg.verbose = true,
            x => files.push(x.to_string()),
        }
    }
    let t0 = Instant::now();
    cfg.deadline = t0 + Duration::from_secs(time);
    let p = ll::Program::load(&files);
    let load = t0.elapsed();
    let Some(ll::Sym::F(eid)) = p.lookup(0, &entry).or_else(|| p.ext.get(entry.as_str()).copied()) else {
        eprintln!("entry {entry} not found");
        std::process::exit(2);
    };
    let workers = cfg.workers;
    let g = Global {
        p,
        sh: solver::Shared::new(),
        cfg,
        st: Stat::default(),
        pool: Pool {
            q: Mutex::new((vec![], 0)),
            cv: Condvar::new(),
            idle: 0.into(),
            stop: false.into(),
        },
        viol: Mutex::new(vec![]),
        unsup: Mutex::new(BTreeMap::new()),
        reach: Mutex::new(BTreeMap::new()),
        prints: Default::default(),
        forks_at: Default::default(),
        samples: Default::default(),
    };
    let g = &g;
    {
        let mut w = Worker::new(g);
        let s = w.initial(eid);
        g.pool.q.lock().unwrap().0.push(s);
    }
    std::thread::scope(|s| {
        for _ in 0..workers {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, move || Worker::new(g).main_loop())
                .unwrap();
        }
    });
    let wall = t0.elapsed();
    if g.cfg.verbose {
        let mut l: Vec<_> = g.forks_at.lock().unwrap().clone().into_iter().map(|(a, b)| (b, a)).collect();
        l.sort();
        for (n, w) in l.iter().rev().take(40) {
            eprintln!("{n} forks at {w}");
        }
    }
    let st = &g.st;
    let ss = &g.sh.st;
    let ld = |x: &std::sync::atomic::AtomicU64| x.load(Ordering::Relaxed);
    let unsup = g.unsup.lock().unwrap();
    let reach = g.reach.lock().unwrap();
    let mut viol = g.viol.lock().unwrap().clone();
    viol.sort_by(|a, b| (&a.kind, &a.at).cmp(&(&b.kind, &b.at)));
    let funcs = g.p.funcs.read().unwrap();
    let mut entered: Vec<String> = vec![];
    for f in funcs.iter() {
        if f.entered.load(Ordering::Relaxed) {
            entered.push(f.name.clone());
        }
    }
    let complete = !st.incomplete.load(Ordering::Relaxed);
    let mut o = String::from("{\n");
    o.push_str(&format!("\"entry\": {},\n\"complete\": {complete},\n", js(&entry)));
    o.push_str(&format!(
        "\"params\": [{}],\n",
        g.cfg.params.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    ));
    for (k, v) in [
        ("paths", ld(&st.paths)),
        ("paths_discarded_by_assumption", ld(&st.cut)),
        ("instructions", ld(&st.insts)),
        ("forks", ld(&st.forks)),
        ("symbolic_branches", ld(&st.branches_sym)),
        ("assertions_evaluated", ld(&st.asserts)),
        ("assertions_symbolic", ld(&st.asserts_sym)),
        ("max_path_instructions", ld(&st.max_path_steps)),
        ("max_symbolic_variables", ld(&st.max_vars)),
        ("multi_thread_paths", ld(&st.multi_thread_paths)),
        ("solver_queries", ld(&ss.queries)),
        ("solver_sat", ld(&ss.sat)),
        ("solver_unsat", ld(&ss.unsat)),
        ("solver_unknown", ld(&ss.unknown)),
        ("solver_cache_hits", ld(&ss.cache_hits)),
        ("solver_ms", ld(&ss.ns) / 1_000_000),
        ("solver_max_query_us", ld(&ss.max_ns) / 1000),
        ("functions_translated", ld(&g.p.translated)),
        ("wall_ms", wall.as_millis() as u64),
        ("load_ms", load.as_millis() as u64),
    ] {
        o.push_str(&format!("\"{k}\": {v},\n"));
    }
    o.push_str(&format!("\"solver\": {},\n", js(&solver::version())));
    o.push_str("\"reach\": {");
    o.push_str(&reach.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect::<Vec<_>>().join(", "));
    o.push_str("},\n\"unsupported\": {");
    o.push_str(&unsup.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
    o.push_str("},\n\"violations\": [");
    let vs: Vec<String> = viol
        .iter()
        .map(|v| {
            format!(
                "\n {{\"kind\": {}, \"at\": {}, \"vals\": [{}], \"sched\": [{}], \"stack\": [{}]}}",
                js(&v.kind),
                js(&v.at),
                v.vals.iter().map(|(w, x)| format!("[{w},{x}]")).collect::<Vec<_>>().join(","),
                v.sched.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
                v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    o.push_str(&vs.join(","));
    o.push_str("],\n\"samples\": [");
    let sm = g.samples.lock().unwrap();
    o.push_str(
        &sm.iter()
            .map(|(v, ob, n)| {
                format!(
                    "\n {{\"vals\": [{}], \"observed\": [{}], \"threads\": {n}}}",
                    v.iter().map(|(w, x)| format!("[{w},{x}]")).collect::<Vec<_>>().join(","),
                    ob.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\n\"functions\": [");
    o.push_str(&entered.iter().map(|x| js(&demangle(x))).collect::<Vec<_>>().join(","));
    o.push_str("]\n}\n");
    if out.is_empty() {
        print!("{o}");
    } else {
        std::fs::write(&out, o).unwrap();
    }
}
