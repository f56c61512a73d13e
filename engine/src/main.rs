mod exec;
mod expr;
mod ir;
mod solver;
mod state;
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};

extern "C" {
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

fn main() {
    // deep recursion over expressions: run with a large stack
    if std::env::var_os("SYMEX_STACK").is_none() {
        let l = [4u64 << 30, u64::MAX];
        unsafe {
            if setrlimit(3, &l) != 0 {
                let l = [4u64 << 30, 4u64 << 30];
                setrlimit(3, &l);
            }
        }
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(std::env::current_exe().unwrap())
            .args(std::env::args().skip(1))
            .env("SYMEX_STACK", "1")
            .exec();
        eprintln!("exec: {e}");
    }
    let mut it = std::env::args().skip(1);
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::from("/tmp/symex-out");
    let mut jobs = 8;
    let mut secs = 600u64;
    let mut preempt = 0;
    let mut delays = u32::MAX;
    let mut known = vec![];
    let mut tier = 0;
    let mut trace = false;
    let mut fp = false;
    let mut max_steps = 200_000_000u64;
    let mut qms = 20_000;
    let mut keep_going = false;
    let mut dump = None;
    while let Some(a) = it.next() {
        let mut v = || it.next().unwrap_or_default();
        match a.as_str() {
            "--ll" => ll = v(),
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--jobs" => jobs = v().parse().unwrap(),
            "--secs" => secs = v().parse().unwrap(),
            "--delays" => delays = v().parse().unwrap(),
            "--preempt" => preempt = v().parse().unwrap(),
            "--known" => known = v().split(';').map(|s| s.to_string()).collect(),
            "--tier" => tier = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--query-ms" => qms = v().parse().unwrap(),
            "--selftest" => match expr::selftest(v().parse().unwrap()) {
                Ok(n) => {
                    println!("selftest: {n} values agree");
                    std::process::exit(0)
                }
                Err(e) => {
                    println!("selftest: {e}");
                    std::process::exit(1)
                }
            },
            "--trace" => trace = true,
            "--fp" => fp = true,
            "--keep-going" => keep_going = true,
            "--dump" => dump = Some(v()),
            x => {
                eprintln!("unknown argument {x}");
                std::process::exit(2)
            }
        }
    }
    let _ = std::fs::create_dir_all(&out);
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read IR");
    let m = ir::Module::parse(text).expect("parse IR");
    let parse_ms = t0.elapsed().as_millis();
    let sh = exec::shared();
    let cfg = exec::Cfg {
        out: out.clone(),
        jobs,
        max_steps,
        deadline: Instant::now() + Duration::from_secs(secs),
        preempt,
        delays,
        known,
        tier,
        trace,
        keep_going,
    };
    let mut s = solver::Solver::new(qms, fp);
    if let Some(d) = &dump {
        let _ = std::fs::create_dir_all(d);
    }
    s.dump = dump;
    let mut e = exec::Engine::new(m, s, cfg, sh);
    let t1 = Instant::now();
    if let Err(x) = e.explore(&entry) {
        eprintln!("error: {x}");
        std::process::exit(2);
    }
    let g = |x: &std::sync::atomic::AtomicU64| x.load(SeqCst);
    let mut fns = vec![];
    for (i, f) in e.m.fns.iter().enumerate() {
        if i < 131072 && sh.fnseen[i / 64].load(SeqCst) >> (i % 64) & 1 == 1 {
            fns.push(format!("\"{}\"", f.name));
        }
    }
    let mut reach = vec![];
    for i in 0..64 {
        let n = g(&sh.reach[i]);
        if n > 0 {
            let name = std::fs::read_to_string(format!("{out}/reach-{i}.txt")).unwrap_or_default();
            reach.push(format!("[\"{}\",{}]", name.replace('"', "'"), n));
        }
    }
    let js = format!(
        "{{\"entry\":\"{}\",\"parse_ms\":{},\"wall_s\":{:.3},\"paths\":{},\"killed\":{},\"violations\":{},\"errors\":{},\"incomplete\":{},\"asserts\":{},\"asserts_solver\":{},\"forks\":{},\"steps\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"procs\":{},\"max_depth\":{},\"vars\":{},\"stop\":{},\"reach\":[{}],\"functions\":[{}]}}\n",
        entry,
        parse_ms,
        t1.elapsed().as_secs_f64(),
        g(&sh.paths), g(&sh.killed), g(&sh.violations), g(&sh.errors), g(&sh.incomplete), g(&sh.asserts), g(&sh.asserts_solver),
        g(&sh.forks), g(&sh.steps), g(&sh.queries), g(&sh.sat), g(&sh.unsat), g(&sh.unknown), g(&sh.cache),
        g(&sh.solver_ns) as f64 / 1e9, g(&sh.max_ns) as f64 / 1e9, g(&sh.procs) + 1, g(&sh.maxdepth), g(&sh.maxvars),
        sh.stop.load(SeqCst), reach.join(","), fns.join(",")
    );
    std::fs::write(format!("{out}/result.json"), &js).unwrap();
    let cut = js.find("\"functions\"").unwrap();
    println!("{}", &js[..cut]);
}
