mod exec;
mod expr;
mod ir;
mod lin;
mod solver;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicI64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        write!(s, "{:02x}", x).unwrap();
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn parse_input(t: &str) -> Vec<Tok> {
    let mut v = vec![];
    for l in t.lines() {
        let l = l.trim();
        if let Some(r) = l.strip_prefix("S") {
            v.push(Tok::Bytes(unhex(r.trim())));
        } else if let Some(r) = l.strip_prefix("P ") {
            v.push(Tok::Pick(r.trim().parse().unwrap()));
        }
    }
    v
}

fn main() {
    // deep recursion in decoding / expressions
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    let flag = |n: &str| args.iter().any(|a| a == n);
    match args.get(1).map(|s| s.as_str()) {
        Some("selftest") => {
            expr::selftest(opt("--iters").map_or(300_000, |s| s.parse().unwrap()));
            let (a, b) = lin::selftest(opt("--iters").map_or(60_000, |s| s.parse().unwrap()) / 2);
            println!("linear forms: {} rewritten sums, {} rewritten comparisons agree with the evaluator", a, b);
            println!("selftest ok; z3 {}", solver::version());
            0
        }
        Some("run") => run(&opt("--ll").unwrap(), &opt("--fn").unwrap(), &opt, &flag),
        Some("concrete") => concrete(&opt("--ll").unwrap(), &opt("--fn").unwrap(), &opt("--input").unwrap(), &opt),
        _ => {
            eprintln!("usage: rsx run|concrete|selftest");
            2
        }
    }
}
fn load(p: &str) -> &'static ir::Module {
    Box::leak(Box::new(ir::Module::load(p)))
}

fn params(opt: &dyn Fn(&str) -> Option<String>) -> Vec<u64> {
    opt("--params").map_or(vec![], |s| s.split(',').map(|x| x.parse().unwrap()).collect())
}

fn concrete(ll: &str, fname: &str, input: &str, opt: &dyn Fn(&str) -> Option<String>) -> i32 {
    let m = load(ll);
    let toks = parse_input(&std::fs::read_to_string(input).unwrap());
    let cfg = Cfg {
        audit: false,
        max_instr: 2_000_000_000,
        concrete: Some(toks),
        max_viol: 10,
        samples: 10,
        trace: false,
        params: params(opt),
    };
    let mut e = Engine::new(m, cfg, 10_000_000);
    let fid = *m.fmap.get(fname).unwrap_or_else(|| panic!("no function {}", fname));
    e.start(fid);
    let mut s = e.work.pop().unwrap();
    let t = Instant::now();
    let end = e.run_path(&mut s);
    for n in &s.notes {
        println!("NOTE {}", hex(&n.0));
    }
    println!("END {:?}", end);
    eprintln!("instrs {} time {:?}", s.instrs, t.elapsed());
    if !matches!(end, End::Done) {
        eprintln!("{}", e.backtrace(&s));
    }
    0
}

fn write_part(e: &Engine, path: &str) {
    let mut o = String::new();
    let st = &e.st;
    for (k, v) in [
        ("paths", st.paths), ("done", st.done), ("assumed", st.assumed), ("exits", st.exits), ("panics", st.panics),
        ("fails", st.fails), ("errors", st.errors), ("limits", st.limits), ("forks", st.forks),
        ("sym_branches", st.sym_branches), ("pruned_domain", st.pruned_dom), ("pruned_range", st.pruned_range), ("lin_fix", st.lin_fix), ("lin_cmp", st.lin_cmp),
        ("obligations", st.obligations), ("audited", st.audited), ("instrs", st.instrs),
        ("concretized", st.concretized), ("unexplored", st.unexplored),
        ("queries", e.solver.st.queries), ("q_sat", e.solver.st.sat), ("q_unsat", e.solver.st.unsat),
        ("q_unknown", e.solver.st.unknown), ("q_cached", e.solver.st.cached), ("solver_ns", e.solver.st.ns), ("lin_discharged", st.lin_discharged),
        ("exprs", expr::ar().nodes.len() as u64), ("processes", 1),
    ] {
        writeln!(o, "C\t{}\t{}", k, v).unwrap();
    }
    writeln!(o, "M\tmaxsym\t{}", st.maxsym).unwrap();
    writeln!(o, "M\tmaxdepth\t{}", st.maxdepth).unwrap();
    for (k, v) in &st.reach {
        writeln!(o, "R\t{}\t{}", k, v).unwrap();
    }
    for v in &e.viols {
        writeln!(
            o, "V\t{}\t{}\t{}\t{}\t{}", v.kind, hex(v.label.as_bytes()), hex(v.input.as_bytes()), v.count,
            v.notes.iter().map(|n| hex(n)).collect::<Vec<_>>().join(",")
        )
        .unwrap();
    }
    for (i, n) in &e.samples {
        writeln!(o, "S\t{}\t{}", hex(i.as_bytes()), n.iter().map(|n| hex(n)).collect::<Vec<_>>().join(",")).unwrap();
    }
    for (k, (c, ex)) in &e.errors {
        writeln!(o, "E\t{}\t{}\t{}", hex(k.as_bytes()), c, hex(ex.as_bytes())).unwrap();
    }
    for (fid, fi) in e.m.funcs.iter().enumerate() {
        if let Some(f) = fi.func.get() {
            let v: Vec<String> =
                f.blocks.iter().enumerate().filter(|(_, b)| b.visited.get()).map(|(i, _)| i.to_string()).collect();
            if !v.is_empty() {
                writeln!(o, "F\t{}\t{}", fid, v.join(",")).unwrap();
            }
        }
    }
    std::fs::write(path, o).unwrap();
}

fn run(ll: &str, fname: &str, opt: &dyn Fn(&str) -> Option<String>, flag: &dyn Fn(&str) -> bool) -> i32 {
    let t0 = Instant::now();
    let out = opt("--out").unwrap();
    let jobs: i64 = opt("--jobs").map_or(8, |s| s.parse().unwrap());
    let max_time: f64 = opt("--max-time").map_or(600.0, |s| s.parse().unwrap());
    let m = load(ll);
    let fid = match m.fmap.get(fname) {
        Some(f) => *f,
        None => {
            eprintln!("no function {}", fname);
            return 3;
        }
    };
    let cfg = Cfg {
        audit: flag("--audit"),
        max_instr: opt("--max-instr").map_or(400_000_000, |s| s.parse().unwrap()),
        concrete: None,
        max_viol: 64,
        samples: opt("--samples").map_or(12, |s| s.parse().unwrap()),
        trace: flag("--trace"),
        params: params(opt),
    };
    let rl = opt("--rlimit").map_or(20_000_000, |s| s.parse().unwrap());
    let mut e = Engine::new(m, cfg, rl);
    e.start(fid);
    let shared: &'static AtomicI64 = unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
        let a = &*(p as *const AtomicI64);
        a.store(1, Ordering::SeqCst);
        a
    };
    let root = unsafe { getpid() };
    let mut last = Instant::now();
    let mut child = false;
    while let Some(mut s) = e.work.pop() {
        if t0.elapsed().as_secs_f64() > max_time {
            e.st.unexplored += 1 + e.work.len() as u64;
            e.work.clear();
            break;
        }
        let end = e.run_path(&mut s);
        if let (End::Error(x), true) = (&end, e.cfg.trace) {
            eprintln!("error {} in {}", x, e.backtrace(&s));
        }
        e.finish(&s, end);
        drop(s);
        while e.work.len() >= 2 && last.elapsed().as_millis() >= 15 {
            let r = shared.load(Ordering::SeqCst);
            if r >= jobs {
                break;
            }
            if shared.compare_exchange(r, r + 1, Ordering::SeqCst, Ordering::SeqCst).is_err() {
                continue;
            }
            let pid = unsafe { fork() };
            if pid < 0 {
                shared.fetch_sub(1, Ordering::SeqCst);
                break;
            }
            let mut keep = vec![];
            for (i, st) in std::mem::take(&mut e.work).into_iter().enumerate() {
                if (i % 2 == 1) == (pid == 0) {
                    keep.push(st);
                }
            }
            e.work = keep;
            if pid == 0 {
                child = true;
                e.st = Default::default();
                e.viols.clear();
                e.samples.clear();
                e.errors.clear();
                e.solver.st = Default::default();
                e.solver.fresh();
                last = Instant::now();
                break;
            }
        }
    }
    let pid = unsafe { getpid() };
    write_part(&e, &format!("{}.part.{}", out, pid));
    shared.fetch_sub(1, Ordering::SeqCst);
    if child {
        unsafe { _exit(0) }
    }
    assert_eq!(pid, root);
    let mut bad = false;
    loop {
        let mut st = 0i32;
        let p = unsafe { waitpid(-1, &mut st, 0) };
        if p < 0 {
            break;
        }
        if st != 0 {
            bad = true;
        }
    }
    merge(m, &out, fname, t0.elapsed().as_secs_f64(), bad)
}

fn merge(m: &ir::Module, out: &str, fname: &str, wall: f64, bad: bool) -> i32 {
    let p = std::path::Path::new(out);
    let dir = p.parent().filter(|d| !d.as_os_str().is_empty()).unwrap_or(std::path::Path::new("."));
    let pre = format!("{}.part.", p.file_name().unwrap().to_string_lossy());
    let mut cnt: BTreeMap<String, u64> = BTreeMap::new();
    let mut reach: BTreeMap<u32, u64> = BTreeMap::new();
    let mut viols: BTreeMap<(String, String), (String, u64, String)> = BTreeMap::new();
    let mut samples: Vec<(String, String)> = vec![];
    let mut errors: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut vis: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
    for f in std::fs::read_dir(dir).unwrap().flatten() {
        if !f.file_name().to_string_lossy().starts_with(&pre) {
            continue;
        }
        let t = std::fs::read_to_string(f.path()).unwrap();
        let _ = std::fs::remove_file(f.path());
        for l in t.lines() {
            let c: Vec<&str> = l.split('\t').collect();
            match c[0] {
                "C" => *cnt.entry(c[1].into()).or_insert(0) += c[2].parse::<u64>().unwrap(),
                "M" => {
                    let e = cnt.entry(c[1].into()).or_insert(0);
                    *e = (*e).max(c[2].parse().unwrap())
                }
                "R" => *reach.entry(c[1].parse().unwrap()).or_insert(0) += c[2].parse::<u64>().unwrap(),
                "V" => {
                    let lab = String::from_utf8_lossy(&unhex(c[2])).into_owned();
                    let inp = String::from_utf8_lossy(&unhex(c[3])).into_owned();
                    let e = viols.entry((c[1].into(), lab)).or_insert((inp.clone(), 0, c[5].into()));
                    e.1 += c[4].parse::<u64>().unwrap();
                    if (inp.len(), &inp) < (e.0.len(), &e.0) {
                        e.0 = inp;
                        e.2 = c[5].into();
                    }
                }
                "S" => samples.push((String::from_utf8_lossy(&unhex(c[1])).into_owned(), c[2].into())),
                "E" => {
                    let e = errors
                        .entry(String::from_utf8_lossy(&unhex(c[1])).into_owned())
                        .or_insert((0, String::from_utf8_lossy(&unhex(c[3])).into_owned()));
                    e.0 += c[2].parse::<u64>().unwrap();
                }
                "F" => {
                    let e = vis.entry(c[1].parse().unwrap()).or_default();
                    for b in c[2].split(',') {
                        e.insert(b.parse().unwrap());
                    }
                }
                _ => {}
            }
        }
    }
    // source lines and functions encoded
    let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut fns: BTreeSet<String> = BTreeSet::new();
    let mut nblocks = 0;
    let mut cache = std::collections::HashMap::new();
    for (f, bs) in &vis {
        let fu = m.func(*f);
        for b in bs {
            nblocks += 1;
            for d in &fu.blocks[*b as usize].dbg {
                for (file, line, func) in m.resolve(*d, &mut cache).iter() {
                    if file.contains("/repo/") {
                        lines.entry(file.clone()).or_default().insert(*line);
                        fns.insert(format!("{}:{}", file.rsplit("/repo/").next().unwrap(), func));
                    }
                }
            }
        }
    }
    samples.sort();
    samples.dedup();
    let mut o = String::from("{\n");
    write!(o, " \"fn\": {},\n \"wall_s\": {:.3},\n \"crashed\": {},\n", js(fname), wall, bad).unwrap();
    write!(o, " \"z3\": {},\n", js(&solver::version())).unwrap();
    write!(o, " \"functions_executed\": {},\n \"blocks_executed\": {},\n", vis.len(), nblocks).unwrap();
    o.push_str(" \"counts\": {");
    o.push_str(&cnt.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n \"reach\": {");
    o.push_str(&reach.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n \"violations\": [");
    o.push_str(
        &viols
            .iter()
            .map(|((k, l), (i, c, n))| {
                format!(
                    "\n  {{\"kind\": {}, \"label\": {}, \"input\": {}, \"count\": {}, \"notes\": {}}}",
                    js(k), js(l), js(i), c, js(n)
                )
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\n \"errors\": [");
    o.push_str(
        &errors
            .iter()
            .map(|(k, (c, e))| format!("\n  {{\"what\": {}, \"count\": {}, \"example\": {}}}", js(k), c, js(e)))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\n \"samples\": [");
    o.push_str(
        &samples
            .iter()
            .map(|(i, n)| format!("\n  {{\"input\": {}, \"notes\": {}}}", js(i), js(n)))
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("],\n \"lines\": {");
    o.push_str(
        &lines
            .iter()
            .map(|(f, l)| {
                format!("\n  {}: [{}]", js(f), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
            })
            .collect::<Vec<_>>()
            .join(","),
    );
    o.push_str("},\n \"functions\": [");
    o.push_str(&fns.iter().map(|f| js(f)).collect::<Vec<_>>().join(", "));
    o.push_str("]\n}\n");
    std::fs::write(out, o).unwrap();
    0
}
