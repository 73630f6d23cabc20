#[path = "../../harness/src/big.rs"]
mod big;
mod exec;
mod expr;
mod ll;
mod par;
mod solver;
use std::collections::BTreeSet;

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}

struct Task { name: String, harness: String, args: Vec<u64>, opts: Vec<(String, String)> }

/// tasks file: one task per line: `name harness arg,arg,.. key=value ...`
fn parse_tasks(s: &str) -> Vec<Task> {
    let mut v = vec![];
    for l in s.lines() {
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() < 2 || f[0].starts_with('#') { continue; }
        let mut t = Task { name: f[0].into(), harness: f[1].into(), args: vec![], opts: vec![] };
        for x in &f[2..] {
            if let Some((k, val)) = x.split_once('=') { t.opts.push((k.into(), val.into())); }
            else { t.args = x.split(',').filter(|y| !y.is_empty() && *y != "-").map(|y| y.parse::<i128>().unwrap() as u64).collect(); }
        }
        v.push(t);
    }
    v
}

fn main() {
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(real_main).unwrap();
    if h.join().is_err() { std::process::exit(2); }
}

fn tape_s(t: &[(u16, u64)]) -> String { format!("[{}]", t.iter().map(|(w, v)| format!("[{},{}]", w, v)).collect::<Vec<_>>().join(",")) }
fn nums_s(l: &[u64]) -> String { format!("[{}]", l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

const COUNTERS: [&str; 13] = ["paths", "infeasible", "forks", "steps", "obligations", "queries", "z3_calls", "cache_hits", "pool_hits", "lia", "fp", "unknown", "procs"];

fn run_task(m: &'static ll::Module, t: &Task, idx: usize, sh: &'static par::Shared, dir: &str, verbose: bool, stop_all: bool, left: f64) {
    let opt = |k: &str| t.opts.iter().find(|x| x.0 == k).map(|x| x.1.clone());
    let cfg = exec::Cfg {
        max_steps: opt("steps").map_or(20_000_000, |x| x.parse().unwrap()),
        time: opt("time").map_or(300.0f64, |x| x.parse().unwrap()).min(left),
        samples: opt("samples").map_or(4, |x| x.parse().unwrap()),
        stop_first: opt("all").is_none(),
        leak: opt("leak").map_or(true, |x| x == "1"),
        max_viols: 50,
    };
    par::end_after(cfg.time + 20.0);
    let mut ex = exec::Exec::new(m, cfg);
    ex.share = Some((sh, idx));
    if let Some(ms) = opt("solver_ms") { ex.so.hard_ms = ms.parse().unwrap(); }
    ex.run(&t.harness, &t.args);
    let r = &ex.rep;
    let (mut s, q) = (ex.so.stats.clone(), &ex.so_r.stats);
    s.queries += q.queries; s.z3_calls += q.z3_calls; s.cache_hits += q.cache_hits; s.lia += q.lia; s.secs += q.secs; s.max_secs = s.max_secs.max(q.max_secs);
    if stop_all && !r.viols.is_empty() { sh.stop_all.store(1, std::sync::atomic::Ordering::SeqCst); }
    if verbose || !r.viols.is_empty() {
        for (v, n) in &r.viols { eprintln!("    VIOL {} x{} {} {} id={} tape={:?}\n      {}", t.name, n, v.kind, v.msg, v.id, v.tape.iter().map(|x| x.1).collect::<Vec<_>>(), v.trace.iter().take(8).map(|s| exec::short(s)).collect::<Vec<_>>().join("\n      ")); }
    }
    let mut o = String::new();
    for (k, v) in COUNTERS.iter().zip([r.paths, r.infeasible, r.forks, r.steps, r.obligations, s.queries, s.z3_calls, s.cache_hits, s.pool_hits, s.lia, s.fp, s.unknown, 1]) { o += &format!("c\t{}\t{}\n", k, v); }
    o += &format!("s\tsolver_secs\t{:.4}\ns\tcpu_secs\t{:.4}\nm\tmax_query_secs\t{:.4}\nm\tmax_depth\t{}\nm\tnodes\t{}\nm\tend\t{:.4}\n", s.secs, r.secs, s.max_secs, r.max_depth, ex.ar.nodes.len(), ex.since_start());
    for x in &r.covers { o += &format!("cover\t{}\n", x); }
    for x in &r.checked { o += &format!("checked\t{}\n", x); }
    for x in &r.fns { o += &format!("fn\t{}\n", x); }
    for x in &r.errors { o += &format!("error\t{}\n", x.replace(['\n', '\t'], " ")); }
    for (t, l) in &r.samples { o += &format!("sample\t{{\"tape\":{},\"log\":{}}}\n", tape_s(t), nums_s(l)); }
    for (v, n) in &r.viols { o += &format!("viol\t{{\"kind\":{},\"msg\":{},\"id\":{},\"count\":{},\"tape\":{},\"log\":{},\"trace\":[{}]}}\n", jstr(&v.kind), jstr(&v.msg), v.id, n, tape_s(&v.tape), nums_s(&v.log), v.trace.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",")); }
    let f = format!("{}/{}.{}", dir, idx, sh.parts.fetch_add(1, std::sync::atomic::Ordering::SeqCst));
    std::fs::write(format!("{f}.tmp"), o).unwrap();
    std::fs::rename(format!("{f}.tmp"), f).unwrap();
    use std::io::Write;
    let _ = std::io::stderr().flush();
    par::exit(0);
}

fn real_main() {
    use std::sync::atomic::Ordering::SeqCst;
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if a.get(1).map(|s| s.as_str()) == Some("selftest") { selftest(); return; }
    let ir = get("--ir").expect("--ir");
    let tasks = parse_tasks(&std::fs::read_to_string(get("--tasks").expect("--tasks")).unwrap());
    let out = get("--out").expect("--out");
    let threads: usize = get("--threads").map_or(8, |x| x.parse().unwrap());
    let verbose = a.iter().any(|x| x == "-v");
    let stop_all = a.iter().any(|x| x == "--stop-all");
    let budget: f64 = get("--budget").map_or(1e9, |x| x.parse().unwrap()); // stop starting tasks after this many seconds
    let text = std::fs::read_to_string(&ir).unwrap();
    let t0 = std::time::Instant::now();
    let m: &'static ll::Module = Box::leak(Box::new(match ll::Module::load(text) { Ok(m) => m, Err(e) => { eprintln!("IR: {}", e); std::process::exit(2); } }));
    if verbose { eprintln!("parsed IR in {:.2}s: {} functions", t0.elapsed().as_secs_f64(), m.fns.len()); }
    assert!(tasks.len() <= 4096);
    let dir = format!("{}.parts", out);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let sh = par::shared();
    sh.slots.store(threads as i64, SeqCst);
    let mut died = vec![];
    let note = |r: Option<(i32, i32)>, died: &mut Vec<i32>| -> bool { match r { Some((_, st)) => { sh.release(); if st != 0 { died.push(st); } true } None => false } };
    for (i, t) in tasks.iter().enumerate() {
        while !sh.try_slot() { if !note(par::reap(true), &mut died) { break; } while note(par::reap(false), &mut died) {} }
        if sh.stop_all.load(SeqCst) != 0 || t0.elapsed().as_secs_f64() > budget { sh.release(); break; }
        sh.started[i].fetch_add(1, SeqCst);
        match par::do_fork() {
            0 => { run_task(m, t, i, sh, &dir, verbose, stop_all, budget - t0.elapsed().as_secs_f64()); }
            p if p > 0 => {}
            _ => { eprintln!("fork failed"); std::process::exit(2); }
        }
        while note(par::reap(false), &mut died) {}
    }
    while note(par::reap(true), &mut died) {}
    // merge
    let mut parts: Vec<Vec<String>> = vec![vec![]; tasks.len()];
    for e in std::fs::read_dir(&dir).unwrap() {
        let p = e.unwrap().path();
        let n = p.file_name().unwrap().to_str().unwrap().to_string();
        if n.ends_with(".tmp") { continue; }
        parts[n.split('.').next().unwrap().parse::<usize>().unwrap()].push(std::fs::read_to_string(&p).unwrap());
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut js = vec![];
    for (i, t) in tasks.iter().enumerate() {
        let started = sh.started[i].load(SeqCst) as usize;
        if started == 0 { js.push(format!("{{\"name\":{},\"harness\":{},\"args\":{},\"missing\":true}}", jstr(&t.name), jstr(&t.harness), nums_s(&t.args))); continue; }
        let mut cnt = std::collections::BTreeMap::<String, u64>::new();
        let mut fl = std::collections::BTreeMap::<String, f64>::new();
        let (mut covers, mut checked, mut fns) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        let (mut errors, mut samples, mut viols) = (vec![], vec![], vec![]);
        parts[i].sort();
        for p in &parts[i] { for l in p.lines() {
            let f: Vec<&str> = l.splitn(3, '\t').collect();
            match f[0] {
                "c" => *cnt.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap(),
                "s" => *fl.entry(f[1].into()).or_default() += f[2].parse::<f64>().unwrap(),
                "m" => { let v = f[2].parse::<f64>().unwrap(); let e = fl.entry(f[1].into()).or_default(); if v > *e { *e = v; } }
                "cover" => { covers.insert(f[1].parse::<u64>().unwrap()); }
                "checked" => { checked.insert(f[1].parse::<u64>().unwrap()); }
                "fn" => { fns.insert(f[1].to_string()); }
                "error" => if errors.len() < 20 { errors.push(f[1].to_string()) },
                "sample" => samples.push(f[1].to_string()),
                "viol" => viols.push(f[1].to_string()),
                _ => {}
            }
        } }
        if parts[i].len() < started { errors.push(format!("{} of {} worker processes died (status {:?})", started - parts[i].len(), started, died)); }
        let k = t.opts.iter().find(|x| x.0 == "samples").map_or(4, |x| x.1.parse::<usize>().unwrap());
        if samples.len() > k && k > 0 { let st = samples.len() as f64 / k as f64; samples = (0..k).map(|j| samples[(j as f64 * st) as usize].clone()).collect(); }
        if verbose || !errors.is_empty() {
            let c = |k: &str| cnt.get(k).copied().unwrap_or(0);
            let g = |k: &str| fl.get(k).copied().unwrap_or(0.0);
            eprintln!("{:28} paths={} infeasible={} forks={} steps={} queries={} z3={} cache={} pool={} lia={} fp={} solver={:.2}s max={:.2}s cpu={:.2}s end={:.2}s procs={} depth={} viol={} {}", t.name, c("paths"), c("infeasible"), c("forks"), c("steps"), c("queries"), c("z3_calls"), c("cache_hits"), c("pool_hits"), c("lia"), c("fp"), g("solver_secs"), g("max_query_secs"), g("cpu_secs"), g("end"), c("procs"), g("max_depth"), viols.len(), errors.join(" | "));
        }
        let set = |l: &BTreeSet<u64>| format!("[{}]", l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        let mut j = format!("{{\"name\":{},\"harness\":{},\"args\":{}", jstr(&t.name), jstr(&t.harness), nums_s(&t.args));
        for (k, v) in &cnt { j += &format!(",\"{}\":{}", k, v); }
        for (k, v) in &fl { j += &format!(",\"{}\":{}", k, v); }
        j += &format!(",\"covers\":{},\"checked\":{},\"errors\":[{}],\"viols\":[{}],\"samples\":[{}],\"fns\":[{}]}}", set(&covers), set(&checked), errors.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","), viols.join(","), samples.join(","), fns.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
        js.push(j);
    }
    std::fs::write(&out, format!("[{}]", js.join(",\n"))).unwrap();
    if verbose { eprintln!("total {:.2}s", t0.elapsed().as_secs_f64()); }
}

/// Differential test of the term layer: random terms must evaluate the same before and after
/// simplification, and Z3 (both encodings) must agree with the evaluator.
fn selftest() {
    use expr::*;
    let mut rng = 88172645463325252u64;
    let mut rnd = move || { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; rng };
    let mut bad = 0;
    let mut solved = 0;
    for round in 0..1500 {
        let mut ar = Arena::new();
        let mut so = solver::Solver::new();
        let ws = [1u16, 8, 8, 16, 32, 64];
        let nv = 4;
        let model: Vec<u128> = (0..nv).map(|i| (rnd() as u128 >> (rnd() % 64)) & mask(ws[(i + round) % 6])).collect();
        // (term, concrete value)
        let mut pool: Vec<(Id, u128)> = (0..nv).map(|i| (ar.var(ws[(i + round) % 6]), model[i])).collect();
        for _ in 0..40 {
            let (a, va) = pool[rnd() as usize % pool.len()];
            let w = ar.w(a);
            let pick: Vec<(Id, u128)> = pool.iter().filter(|p| ar.w(p.0) == w).copied().collect();
            let (b, vb) = if rnd() % 2 == 0 { let k = match rnd() % 6 { 0 => mask(w), 1 => 1u128 << (rnd() as u32 % w as u32), 2 => (1u128 << (rnd() as u32 % w as u32)) - 1, 3 => rnd() as u128 % 20, 4 => 10, _ => rnd() as u128 } & mask(w); (ar.c(w, k), k) } else { pick[rnd() as usize % pick.len()] };
            let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle];
            let r = match rnd() % 24 {
                k @ 0..=17 => {
                    let op = ops[k as usize];
                    if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && vb == 0 { continue; }
                    let (x, y, vx, vy) = if rnd() % 2 == 0 || matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) { (a, b, va, vb) } else { (b, a, vb, va) };
                    (ar.bin(op, x, y), bin_const(op, w, vx, vy).unwrap())
                }
                18 => { let w2 = (w + (rnd() % 40) as u16).min(64); (ar.zext(a, w2), va) }
                19 => { let w2 = (w + (rnd() % 40) as u16).min(64); (ar.sext(a, w2), sx(va, w) as u128 & mask(w2)) }
                20 => { let lo = (rnd() % w as u64) as u16; let hi = lo + (rnd() % (w - lo) as u64) as u16; (ar.extract(a, hi, lo), (va >> lo) & mask(hi - lo + 1)) }
                21 => { let wb = ar.w(b); if w + wb > 64 { continue; } (ar.concat(a, b), (va << wb) | vb) }
                22 => { let cs: Vec<(Id, u128)> = pool.iter().filter(|p| ar.w(p.0) == 1).copied().collect(); if cs.is_empty() { continue; } let (c, vc) = cs[rnd() as usize % cs.len()]; (ar.ite(c, a, b), if vc == 1 { va } else { vb }) }
                _ => { if w > 8 { continue; } let t: Vec<u64> = (0..1u64 << w).map(|i| if rnd() % 3 == 0 { rnd() & 0xff } else { i / 10 & 0xff }).collect(); let v = t[va as usize] as u128; (ar.table(8, t, a), v) }
            };
            ar.eval_begin();
            let got = ar.eval(r.0, &model);
            if got != r.1 { bad += 1; if bad < 10 { eprintln!("EVAL MISMATCH {} vs {}: {}", got, r.1, ar.show(r.0, 5)); } }
            let inf = *ar.inf(r.0);
            if r.1 < inf.lo || r.1 > inf.hi || r.1 & inf.kz != 0 { bad += 1; if bad < 10 { eprintln!("INFO MISMATCH {} lo {} hi {} kz {:x}: {}", r.1, inf.lo, inf.hi, inf.kz, ar.show(r.0, 5)); } }
            pool.push(r);
        }
        // z3: the conjunction of "term == value" for a few terms must be satisfiable together with the model itself,
        // and "vars == model and term != value" must be unsatisfiable
        if round % 3 == 0 {
            let mut base = vec![];
            for i in 0..nv { let k = ar.c(ar.w(pool[i].0), model[i]); let e = ar.bin(Op::Eq, pool[i].0, k); base.push(e); }
            for _ in 0..6 {
                let (t, v) = pool[rnd() as usize % pool.len()];
                let k = ar.c(ar.w(t), v);
                let e = ar.bin(Op::Eq, t, k);
                let ne = ar.not(e);
                let mut q = base.clone(); q.push(ne);
                match so.check(&mut ar, &q, &vec![0; nv]) { solver::Res::Unsat => solved += 1, r => { bad += 1; if bad < 20 { eprintln!("Z3 MISMATCH {:?} {}", r, ar.show(t, 6)); } } }
                for force_li in [false, true] { let r = so.test_sat(&mut ar, &q, force_li); if let Some(r) = r { if !matches!(r, solver::Res::Unsat) { bad += 1; if bad < 20 { eprintln!("Z3({}) MISMATCH {:?} {}", force_li, r, ar.show(t, 6)); } } else { solved += 1; } } }
                let r = so.check(&mut ar, &[e], &vec![0; nv]);
                if !matches!(r, solver::Res::Sat(_)) { bad += 1; eprintln!("Z3 SAT MISMATCH {:?} {}", r, ar.show(t, 6)); }
            }
        }
    }
    // floats with a known exponent, or none known: rewriting against the same operation on constants
    for _ in 0..20000 {
        let mut ar = Arena::new();
        let w = if rnd() % 2 == 0 { 64u16 } else { 32 };
        let (fb, bias) = if w == 64 { (52u16, 1023i64) } else { (23, 127) };
        let mut model = vec![];
        let mk = |ar: &mut Arena, e: Option<u64>, rnd: &mut dyn FnMut() -> u64, model: &mut Vec<u128>| -> (Id, u128) {
            let e = match e { Some(e) => e, None => match rnd() % 12 { 0 => 0, 1 => mask(w - 1 - fb) as u64, _ => (bias + rnd() as i64 % 75) as u64 & mask(w - 1 - fb) as u64 } };
            let known = rnd() % 4 != 0;
            let f = match rnd() % 4 { 0 => 0, 1 => rnd() as u128 & mask(fb), 2 => (rnd() as u128 & mask(fb)) << (rnd() % fb as u64), _ => 1 << (rnd() % fb as u64) } & mask(fb);
            let s = rnd() as u128 & 1;
            let v = s << (w - 1) | (e as u128) << fb | f;
            if known { let x = ar.var(fb); model.push(f); let h = ar.c(w - fb, v >> fb); (ar.concat(h, x), v) } else { let x = ar.var(w); model.push(v); (x, v) }
        };
        let (a, va) = mk(&mut ar, None, &mut rnd, &mut model);
        let same = if rnd() % 2 == 0 { Some((va >> fb) as u64 & mask(w - 1 - fb) as u64) } else { None };
        let (b, vb) = mk(&mut ar, same, &mut rnd, &mut model);
        let wi = [8u16, 16, 32, 64][rnd() as usize % 4];
        let (t, vt) = (ar.ftrunc(a), { let c = ar.c(w, va); let t = ar.ftrunc(c); ar.is_const(t).unwrap() });
        let pred = (rnd() % 16) as u32;
        let mut all = vec![(t, vt), (ar.fcmp(pred, a, b), f_cmp(pred, w, va, vb) as u128)];
        for op in [Op::FToUi, Op::FToSi] {
            let i = ar.fcast(op, a, wi);
            let vi = f_to_int(op == Op::FToSi, w, wi, va);
            all.push((i, vi));
            let back = ar.fcast(if op == Op::FToUi { Op::UiToF } else { Op::SiToF }, i, w);
            all.push((back, int_to_f(op == Op::FToSi, wi, w, vi)));
            let c = ar.fcmp(pred, back, a);
            all.push((c, f_cmp(pred, w, all[all.len() - 1].1, va) as u128));
        }
        let d = ar.fbin(Op::FSub, a, t);
        let z = ar.c(w, 0);
        let vd = f_bin(Op::FSub, w, va, vt);
        all.push((ar.fcmp(pred, d, z), f_cmp(pred, w, vd, 0) as u128));
        ar.eval_begin();
        for (t, v) in all { let got = ar.eval(t, &model); if got != v { bad += 1; if bad < 20 { eprintln!("FLOAT MISMATCH {:x} vs {:x} ({:x} {:x} pred {}): {}", got, v, va, vb, pred, ar.show(t, 5)); } } }
    }
    println!("selftest: {} mismatches, {} solver cross-checks", bad, solved);
    std::process::exit(if bad == 0 { 0 } else { 1 });
}
