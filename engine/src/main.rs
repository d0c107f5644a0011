//! posym: symbolic execution of Rust bitcode with z3 as the decision procedure.
mod exec;
mod expr;
mod ir;
mod llvm;
mod mem;
mod models;
mod prep;
mod solver;

use exec::*;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn nums(v: &[u128]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn parse_nums(s: &str) -> Vec<u128> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn dump(en: &Engine, path: &std::path::Path) {
    let r = &en.rep;
    let s = &en.solver.stats;
    let mut o = String::new();
    for (k, v) in [
        ("paths", r.paths),
        ("infeasible", r.infeasible),
        ("assumed_away", r.assumed_away),
        ("forks", r.forks),
        ("insts", r.insts),
        ("asserts", r.asserts),
        ("asserts_solver", r.asserts_solver),
        ("prunes", r.prunes),
        ("prunes_audited", r.prunes_audited),
        ("q_sat", s.sat),
        ("q_unsat", s.unsat),
        ("q_unknown", s.unknown),
        ("q_cached", s.cached),
        ("q_us", (s.secs * 1e6) as u64),
    ] {
        let _ = writeln!(o, "k\t{k}\t{v}");
    }
    let _ = writeln!(o, "m\t{}\t{}", r.max_vars, s.max_secs);
    for (a, b) in &r.reach {
        let _ = writeln!(o, "r\t{a}\t{b}");
    }
    for v in r.violations.values() {
        let _ = writeln!(o, "v\t{}\t{}", nums(&v.inputs), v.what.replace(['\t', '\n'], " "));
    }
    for (w, n) in &r.incomplete {
        let _ = writeln!(o, "i\t{n}\t{}", w.replace(['\t', '\n'], " "));
    }
    for (a, b) in &r.samples {
        let _ = writeln!(o, "s\t{}\t{}", nums(a), nums(b));
    }
    for f in &r.seen_fn {
        let _ = writeln!(o, "f\t{f}\t0");
    }
    for ((f, pc), n) in &en.sites {
        let _ = writeln!(o, "b\t{f}:{pc}\t{n}");
    }
    std::fs::write(path, o).unwrap();
}

#[derive(Default)]
struct Merged {
    k: std::collections::BTreeMap<String, u64>,
    max_vars: u64,
    max_q: f64,
    reach: std::collections::BTreeMap<u64, u64>,
    viol: std::collections::BTreeMap<String, Vec<u128>>,
    inc: std::collections::BTreeMap<String, u64>,
    samples: Vec<(Vec<u128>, Vec<u128>)>,
    fns: std::collections::BTreeSet<u32>,
    sites: std::collections::BTreeMap<(u32, u32), u64>,
}

fn merge(m: &mut Merged, path: &std::path::Path) -> bool {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(_) => return false,
    };
    for l in t.lines() {
        let p: Vec<&str> = l.splitn(3, '\t').collect();
        match p[0] {
            "k" => *m.k.entry(p[1].into()).or_insert(0) += p[2].parse::<u64>().unwrap(),
            "m" => {
                m.max_vars = m.max_vars.max(p[1].parse().unwrap());
                m.max_q = m.max_q.max(p[2].parse().unwrap());
            }
            "r" => *m.reach.entry(p[1].parse().unwrap()).or_insert(0) += p[2].parse::<u64>().unwrap(),
            "v" => {
                m.viol.entry(p[2].into()).or_insert(parse_nums(p[1]));
            }
            "i" => *m.inc.entry(p[2].into()).or_insert(0) += p[1].parse::<u64>().unwrap(),
            "s" => m.samples.push((parse_nums(p[1]), parse_nums(p[2]))),
            "f" => {
                m.fns.insert(p[1].parse().unwrap());
            }
            "b" => {
                let (a, b) = p[1].split_once(':').unwrap();
                *m.sites.entry((a.parse().unwrap(), b.parse().unwrap())).or_insert(0) += p[2].parse::<u64>().unwrap();
            }
            _ => {}
        }
    }
    true
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("prep") => prep::prep(&args[2], &args[3], &args[4..]),
        Some("run") => run(&args[2..]),
        Some("show") => {
            let p = ir::load(&args[2]);
            for f in &p.funcs {
                if args.get(3).map_or(true, |n| f.name.contains(n.as_str())) {
                    println!("{} ({}) params {} regs {} model {:?} redirect {:?}", f.name, short(&f.name), f.nparams, f.nregs, f.model, f.redirect);
                    if args.len() > 3 {
                        for (i, c) in f.code.iter().enumerate() {
                            println!("  {i}: {c:?}");
                        }
                        for (i, e) in f.edges.iter().enumerate() {
                            println!("  edge {i}: {e:?}");
                        }
                    }
                }
            }
        }
        _ => {
            eprintln!("usage: posym prep IN OUT ENTRY... | posym run BC ENTRY [options]");
            std::process::exit(2);
        }
    }
}

fn run(args: &[String]) {
    let (bc, entry) = (&args[0], &args[1]);
    let mut jobs = 8usize;
    let mut time = 600.0f64;
    let mut steps = 400_000_000u64;
    let mut out = None;
    let mut concrete = None;
    let mut params = vec![];
    let mut audit = true;
    let mut samples = 12usize;
    let mut rlimit = 20_000_000u32;
    let mut maxv = 8;
    let mut dumpq = None;
    let mut pending_target = 600usize;
    let mut profile = false;
    // seconds the rest may take once a counterexample is there
    let mut grace = 45.0f64;
    let mut i = 2;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--jobs" => jobs = v.parse().unwrap(),
            "--time" => time = v.parse().unwrap(),
            "--max-steps" => steps = v.parse().unwrap(),
            "--out" => out = Some(v),
            "--concrete" => concrete = Some(parse_nums(&v)),
            "--param" => params = parse_nums(&v).iter().map(|x| *x as u64).collect(),
            "--grace" => grace = v.parse().unwrap(),
            "--samples" => samples = v.parse().unwrap(),
            "--rlimit" => rlimit = v.parse().unwrap(),
            "--max-violations" => maxv = v.parse().unwrap(),
            "--dump-queries" => dumpq = Some(std::path::PathBuf::from(v)),
            "--pending" => pending_target = v.parse().unwrap(),
            "--no-audit" => {
                audit = false;
                i += 1;
                continue;
            }
            "--profile" => {
                profile = true;
                i += 1;
                continue;
            }
            o => panic!("option {o}"),
        }
        i += 2;
    }
    let t0 = Instant::now();
    let prog: &'static ir::Prog = Box::leak(Box::new(ir::load(bc)));
    let load_s = t0.elapsed().as_secs_f64();
    let deadline = t0 + Duration::from_secs_f64(time);
    let opts = Opts {
        max_steps: steps,
        deadline: Some(deadline),
        sample_every: if samples > 0 { 1 } else { 0 },
        audit,
        concrete: concrete.clone(),
        max_violations: maxv,
        params,
        trace: false,
    };
    let mut en = Engine::new(prog, opts, rlimit);
    if let Some(d) = dumpq {
        en.solver.dump = Some((d, 1000));
    }
    en.start(entry);
    // breadth first until there is enough work to share
    let mut q: std::collections::VecDeque<State> = en.work.drain(..).collect();
    let target = if jobs > 1 && concrete.is_none() { pending_target } else { usize::MAX };
    let exp_deadline = t0 + Duration::from_secs_f64((time / 4.0).min(20.0));
    let mut max_frontier = 0usize;
    let mut cut = None;
    while !q.is_empty() && q.len() < target {
        if jobs > 1 && q.len() > 4 * jobs && Instant::now() > exp_deadline {
            break;
        }
        if Instant::now() > deadline {
            *en.rep.incomplete.entry("time budget".into()).or_insert(0) += q.len() as u64;
            q.clear();
            break;
        }
        let s = if target == usize::MAX { q.pop_back().unwrap() } else { q.pop_front().unwrap() };
        en.run(s);
        if cut.is_none() && !en.rep.violations.is_empty() {
            cut = Some(Instant::now() + Duration::from_secs_f64(grace));
        }
        if cut.map_or(false, |c| Instant::now() > c) {
            *en.rep.incomplete.entry("stopped after a counterexample".into()).or_insert(0) += q.len() as u64;
            q.clear();
            break;
        }
        q.extend(en.work.drain(..));
        max_frontier = max_frontier.max(q.len());
        en.opts.sample_every = if en.rep.samples.len() >= samples { 0 } else { en.opts.sample_every };
    }
    let tmp = std::env::temp_dir().join(format!("posym-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let mut m = Merged::default();
    let parent_file = tmp.join("p");
    dump(&en, &parent_file);
    merge(&mut m, &parent_file);
    if !q.is_empty() {
        let mut states: Vec<Option<State>> = q.into_iter().map(Some).collect();
        let n = states.len();
        let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const std::sync::atomic::AtomicUsize };
        let flag = unsafe { &*ctr.add(8) };
        let ctr = unsafe { &*ctr };
        // milliseconds from the start at which to stop, 0 for none
        let late = |flag: &std::sync::atomic::AtomicUsize| {
            let c = flag.load(std::sync::atomic::Ordering::Relaxed);
            c != 0 && t0.elapsed().as_millis() as usize > c
        };
        let found = |flag: &std::sync::atomic::AtomicUsize| {
            let c = t0.elapsed().as_millis() as usize + (grace * 1000.0) as usize + 1;
            let _ = flag.compare_exchange(0, c, std::sync::atomic::Ordering::Relaxed, std::sync::atomic::Ordering::Relaxed);
        };
        if cut.is_some() {
            found(flag);
        }
        let mut kids = vec![];
        for j in 0..jobs {
            let f = tmp.join(format!("c{j}"));
            let pid = unsafe { fork() };
            if pid == 0 {
                unsafe { prctl(1, 9, 0, 0, 0) };
                en.rep = Report::default();
                en.solver.stats = Default::default();
                en.sites.clear();
                en.opts.sample_every = if samples > 0 { 97 } else { 0 };
                loop {
                    let i = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    if Instant::now() > deadline {
                        *en.rep.incomplete.entry("time budget".into()).or_insert(0) += 1;
                        continue;
                    }
                    if late(flag) {
                        *en.rep.incomplete.entry("stopped after a counterexample".into()).or_insert(0) += 1;
                        continue;
                    }
                    en.work.push(states[i].take().unwrap());
                    while let Some(s) = en.work.pop() {
                        if Instant::now() > deadline {
                            *en.rep.incomplete.entry("time budget".into()).or_insert(0) += 1 + en.work.len() as u64;
                            en.work.clear();
                            break;
                        }
                        en.run(s);
                        if !en.rep.violations.is_empty() {
                            found(flag);
                        }
                        if late(flag) {
                            *en.rep.incomplete.entry("stopped after a counterexample".into()).or_insert(0) += en.work.len() as u64;
                            en.work.clear();
                        }
                        if en.cx.nodes.len() > 40_000_000 {
                            *en.rep.incomplete.entry("memory budget".into()).or_insert(0) += 1 + en.work.len() as u64;
                            en.work.clear();
                        }
                        if en.rep.samples.len() >= samples {
                            en.opts.sample_every = 0;
                        }
                    }
                }
                dump(&en, &f);
                unsafe { _exit(0) };
            }
            kids.push((pid, f));
        }
        let hard = deadline + Duration::from_secs(60);
        for (pid, f) in kids {
            loop {
                let mut st = 0;
                let r = unsafe { waitpid(pid, &mut st, 1) };
                if r == pid {
                    break;
                }
                if Instant::now() > hard {
                    unsafe { kill(pid, 9) };
                }
                std::thread::sleep(Duration::from_millis(5));
            }
            if !merge(&mut m, &f) {
                *m.inc.entry("worker died".into()).or_insert(0) += 1;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let g = |k: &str| m.k.get(k).copied().unwrap_or(0);
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"entry\": {},", esc(entry));
    for k in ["paths", "infeasible", "assumed_away", "forks", "insts", "asserts", "asserts_solver", "prunes", "prunes_audited"] {
        let _ = writeln!(o, " \"{k}\": {},", g(k));
    }
    let _ = writeln!(
        o,
        " \"queries\": {{\"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"cached\": {}}},\n \"solver_s\": {:.3},\n \"solver_max_s\": {:.3},",
        g("q_sat"), g("q_unsat"), g("q_unknown"), g("q_cached"), g("q_us") as f64 / 1e6, m.max_q
    );
    let _ = writeln!(o, " \"max_vars\": {},\n \"load_s\": {:.2},\n \"wall_s\": {:.2},\n \"program_insts\": {},", m.max_vars, load_s, t0.elapsed().as_secs_f64(), prog.insts);
    let _ = writeln!(o, " \"reach\": {{{}}},", m.reach.iter().map(|(a, b)| format!("\"{a}\": {b}")).collect::<Vec<_>>().join(", "));
    let _ = writeln!(
        o,
        " \"violations\": [{}],",
        m.viol.iter().map(|(w, i)| format!("{{\"what\": {}, \"inputs\": [{}]}}", esc(w), nums(i))).collect::<Vec<_>>().join(",\n  ")
    );
    let _ = writeln!(o, " \"incomplete\": {{{}}},", m.inc.iter().map(|(a, b)| format!("{}: {b}", esc(a))).collect::<Vec<_>>().join(",\n  "));
    // spread the kept samples over the run
    let keep: Vec<_> = if m.samples.len() > samples {
        (0..samples).map(|i| &m.samples[i * m.samples.len() / samples]).collect()
    } else {
        m.samples.iter().collect()
    };
    let _ = writeln!(
        o,
        " \"samples\": [{}],",
        keep.iter().map(|(a, b)| format!("{{\"inputs\": [{}], \"notes\": [{}]}}", nums(a), nums(b))).collect::<Vec<_>>().join(",\n  ")
    );
    let mut fs: Vec<String> = m.fns.iter().filter(|f| prog.funcs[**f as usize].repo).map(|f| short(&prog.funcs[*f as usize].name)).collect();
    fs.sort();
    fs.dedup();
    let _ = writeln!(o, " \"all_functions\": {},", m.fns.len());
    let _ = writeln!(o, " \"functions\": [{}]", fs.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    o.push_str("}\n");
    if profile {
        let mut s: Vec<_> = m.sites.iter().collect();
        s.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, pc), n) in s.into_iter().take(25) {
            eprintln!("{n:10} {}:{pc} {:?}", short(&prog.funcs[*f as usize].name), prog.funcs[*f as usize].code[*pc as usize]);
        }
    }
    match out {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => print!("{o}"),
    }
}
