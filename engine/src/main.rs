mod exec;
mod expr;
mod ir;
mod ll;
mod par;
mod solver;

use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

fn hex(b: &[u8]) -> String {
    b.iter().map(|c| format!("{:02x}", c)).collect()
}
fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Clone)]
struct HStat {
    paths: u64,
    done: u64,
    assume: u64,
    fails: u64,
    errors: u64,
    budget: u64,
    unexplored: u64,
    reach: u64,
    reach_n: [u64; 64],
    inst: u64,
    max_icount: u64,
    decisions: u64,
}
impl Default for HStat {
    fn default() -> Self {
        unsafe { std::mem::zeroed() }
    }
}

fn main() {
    par::tune_malloc();
    let args: Vec<String> = std::env::args().collect();
    let mut llf = String::new();
    let mut out = String::new();
    let mut workers = 8u32;
    let mut time = 600u64;
    let mut max_icount = 200_000_000u64;
    let mut rlimit = 50_000_000u32;
    let mut samples = 12usize;
    let mut cases = 4usize;
    let mut max_depth = 3000usize;
    let mut canon = false;
    let mut seed = 1u64;
    let mut stop_after = u32::MAX;
    let mut hs: Vec<String> = vec![];
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut nx = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--ll" => llf = nx(),
            "--out" => out = nx(),
            "--workers" => workers = nx().parse().unwrap(),
            "--time" => time = nx().parse().unwrap(),
            "--max-icount" => max_icount = nx().parse().unwrap(),
            "--rlimit" => rlimit = nx().parse().unwrap(),
            "--cases" => cases = nx().parse().unwrap(),
            "--samples" => samples = nx().parse().unwrap(),
            "--max-depth" => max_depth = nx().parse().unwrap(),
            "--stop-after" => stop_after = nx().parse().unwrap(),
            "--seed" => seed = nx().parse().unwrap(),
            "--confirm-canon" => canon = true,
            "--harness" => hs.push(nx()),
            _ => panic!("argument {}", a),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let src = std::fs::read_to_string(&llf).expect("read .ll");
    let m: &'static ir::Module = Box::leak(Box::new(ll::parse_module(&src)));
    drop(src);
    let load_s = t0.elapsed().as_secs_f64();
    if hs.iter().any(|h| h == "all") {
        hs = m.funcs.iter().filter(|f| f.defined && f.name.starts_with("h_")).map(|f| f.name.clone()).collect();
    }
    let hid: Vec<u32> = hs.iter().map(|h| *m.fidx.get(h).unwrap_or_else(|| panic!("no harness {}", h))).collect();
    let mem = Exec::base_mem(m);
    let sh = par::shared(workers);
    for (k, _) in hid.iter().enumerate() {
        sh.push(k as u32, &[]);
    }
    let shc = par::shmem(solver::SH_SLOTS * std::mem::size_of::<solver::Slot>()) as *mut solver::Slot;
    let dir = format!("{}.d", out);
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let deadline = t0 + Duration::from_secs(time);
    let mut pids = vec![];
    for wi in 0..workers {
        let pid = unsafe { par::fork() };
        if pid == 0 {
            par::die_with_parent();
            worker(m, &mem, &hid, sh, &dir, wi, deadline, Limits { max_icount, max_depth, max_values: 1100 }, rlimit, samples, cases, canon, seed, shc, stop_after);
            par::quit(0);
        }
        pids.push(pid);
    }
    let mut bad = 0;
    for p in pids {
        let mut st = 0;
        unsafe { par::waitpid(p, &mut st, 0) };
        if st != 0 {
            bad += 1;
            sh.failed.store(1, std::sync::atomic::Ordering::SeqCst);
        }
    }
    // ---- merge
    let mut stats: Vec<HStat> = vec![HStat::default(); hid.len()];
    let mut sums: BTreeMap<String, u64> = BTreeMap::new();
    let mut fns: std::collections::BTreeSet<u32> = Default::default();
    let mut fails: BTreeMap<(u32, String, String, u64), (u64, Vec<(String, String)>)> = BTreeMap::new();
    let mut errs: BTreeMap<(u32, String), (u64, String, String)> = BTreeMap::new();
    let mut paths: Vec<String> = vec![];
    for wi in 0..workers {
        let t = std::fs::read_to_string(format!("{}/{}", dir, wi)).unwrap_or_default();
        for l in t.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            match p[0] {
                "H" => {
                    let s = &mut stats[p[1].parse::<usize>().unwrap()];
                    let v: Vec<u64> = p[2..].iter().map(|x| x.parse().unwrap()).collect();
                    s.paths += v[0];
                    s.done += v[1];
                    s.assume += v[2];
                    s.fails += v[3];
                    s.errors += v[4];
                    s.budget += v[5];
                    s.unexplored += v[6];
                    s.reach |= v[7];
                    s.inst += v[8];
                    s.max_icount = s.max_icount.max(v[9]);
                    s.decisions += v[10];
                    for k in 0..64 {
                        s.reach_n[k] += v[11 + k];
                    }
                }
                "S" => {
                    let v: u64 = p[2].parse().unwrap();
                    let e = sums.entry(p[1].to_string()).or_default();
                    if p[1].starts_with("max_") {
                        *e = (*e).max(v)
                    } else {
                        *e += v
                    }
                }
                "F" => {
                    fns.insert(p[1].parse().unwrap());
                }
                "X" => {
                    let k = (p[1].parse().unwrap(), p[2].to_string(), p[3].to_string(), p[4].parse().unwrap());
                    let e = fails.entry(k).or_default();
                    e.0 += p[5].parse::<u64>().unwrap();
                    for c in p[6..].chunks(2) {
                        if e.1.len() < cases {
                            e.1.push((c[0].to_string(), c[1].to_string()));
                        }
                    }
                }
                "E" => {
                    let k = (p[1].parse().unwrap(), p[2].to_string());
                    let e = errs.entry(k).or_insert((0, p[4].to_string(), p[5].to_string()));
                    e.0 += p[3].parse::<u64>().unwrap();
                }
                "P" => paths.push(l.to_string()),
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let mut j = String::new();
    let _ = writeln!(j, "{{\n\"load_s\": {:.3}, \"wall_s\": {:.3}, \"workers\": {}, \"bad_workers\": {},", load_s, t0.elapsed().as_secs_f64(), workers, bad);
    let _ = writeln!(j, "\"module_functions\": {}, \"module_globals\": {},", m.funcs.iter().filter(|f| f.defined).count(), m.globals.len());
    for (k, v) in &sums {
        let _ = writeln!(j, "\"{}\": {},", k, v);
    }
    let _ = writeln!(j, "\"harnesses\": [");
    for (k, s) in stats.iter().enumerate() {
        let rn: Vec<String> = (0..64).filter(|b| s.reach_n[*b] > 0).map(|b| format!("\"{}\": {}", b, s.reach_n[b])).collect();
        let _ = writeln!(
            j,
            " {{\"name\": {}, \"paths\": {}, \"done\": {}, \"assume\": {}, \"fails\": {}, \"errors\": {}, \"budget\": {}, \"unexplored\": {}, \"inst\": {}, \"max_icount\": {}, \"decisions\": {}, \"reach\": {{{}}}}}{}",
            jstr(&hs[k]), s.paths, s.done, s.assume, s.fails, s.errors, s.budget, s.unexplored, s.inst, s.max_icount, s.decisions, rn.join(", "),
            if k + 1 < stats.len() { "," } else { "" }
        );
    }
    let _ = writeln!(j, "],\n\"failures\": [");
    let nf = fails.len();
    for (k, ((h, kind, loc, known), (n, ms))) in fails.iter().enumerate() {
        let mm: Vec<String> = ms.iter().map(|(m, t)| format!("{{\"input\": \"{}\", \"trace\": {}}}", m, jstr(t))).collect();
        let _ = writeln!(j, " {{\"harness\": {}, \"kind\": {}, \"loc\": {}, \"known\": {}, \"count\": {}, \"cases\": [{}]}}{}", jstr(&hs[*h as usize]), jstr(kind), jstr(loc), known, n, mm.join(", "), if k + 1 < nf { "," } else { "" });
    }
    let _ = writeln!(j, "],\n\"errors\": [");
    let ne = errs.len();
    for (k, ((h, msg), (n, model, tr))) in errs.iter().enumerate() {
        let _ = writeln!(j, " {{\"harness\": {}, \"msg\": {}, \"count\": {}, \"input\": \"{}\", \"trace\": {}}}{}", jstr(&hs[*h as usize]), jstr(msg), n, model, jstr(tr), if k + 1 < ne { "," } else { "" });
    }
    let _ = writeln!(j, "],\n\"samples\": [");
    let np = paths.len();
    for (k, l) in paths.iter().enumerate() {
        let p: Vec<&str> = l.split('\t').collect();
        let _ = writeln!(j, " {{\"harness\": {}, \"outcome\": {}, \"input\": \"{}\", \"out\": \"{}\", \"reach\": {}}}{}", jstr(&hs[p[1].parse::<usize>().unwrap()]), jstr(p[2]), p[3], p[4], p[5], if k + 1 < np { "," } else { "" });
    }
    let _ = writeln!(j, "],\n\"functions\": [");
    let names: Vec<String> = fns.iter().map(|f| jstr(&m.funcs[*f as usize].name)).collect();
    let _ = writeln!(j, "{}]\n}}", names.join(",\n"));
    std::fs::write(&out, j).unwrap();
    if bad > 0 {
        eprintln!("{} worker(s) ended abnormally", bad);
        std::process::exit(3);
    }
}

#[allow(clippy::too_many_arguments)]
fn worker(
    m: &'static ir::Module,
    mem: &Mem,
    hid: &[u32],
    sh: &mut par::Shared,
    dir: &str,
    wi: u32,
    deadline: Instant,
    lim: Limits,
    rlimit: u32,
    samples: usize,
    cases: usize,
    canon: bool,
    seed: u64,
    shc: *mut solver::Slot,
    stop_after: u32,
) {
    let mut ex = Exec::new(m, lim, rlimit);
    ex.ar.log_canon = canon;
    ex.sol.shc = Some(solver::Shc(shc));
    let mut stats: Vec<HStat> = vec![HStat::default(); hid.len()];
    let mut fails: BTreeMap<(u32, String, String, u64), (u64, Vec<(String, String)>)> = BTreeMap::new();
    let mut errs: BTreeMap<(u32, String), (u64, String, String)> = BTreeMap::new();
    let mut psamp: Vec<Vec<String>> = vec![vec![]; hid.len()];
    let mut rng = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (wi as u64 + 1);
    let mut late = false;
    let mut busy = Duration::ZERO;
    while let Some((h, dec)) = sh.pop() {
        let tb = Instant::now();
        let st = ex.initial(mem, hid[h as usize], h, dec);
        ex.work.push(st);
        while let Some(mut st) = ex.work.pop() {
            if late || Instant::now() > deadline || sh.alarms.load(std::sync::atomic::Ordering::Relaxed) >= stop_after {
                late = true;
                stats[h as usize].unexplored += 1;
                continue;
            }
            let ic0 = st.icount;
            let stop = ex.run(&mut st);
            let s = &mut stats[h as usize];
            s.paths += 1;
            s.inst += st.icount - ic0;
            s.max_icount = s.max_icount.max(st.icount);
            s.decisions += st.decisions.len() as u64;
            let mut outcome = None;
            match stop {
                Stop::Done => {
                    s.done += 1;
                    s.reach |= st.reach;
                    for k in 0..64 {
                        if st.reach >> k & 1 == 1 {
                            s.reach_n[k] += 1;
                        }
                    }
                    outcome = Some("done");
                }
                Stop::Assume => s.assume += 1,
                Stop::Fail { kind, loc } => {
                    s.fails += 1;
                    if st.known == 0 {
                        sh.alarms.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    }
                    outcome = Some("fail");
                    let e = fails.entry((h, kind, loc, st.known)).or_default();
                    e.0 += 1;
                    if e.1.len() < cases {
                        let tr = ex.trace(&st).join(" < ");
                        e.1.push((hex(&st.model), tr));
                    }
                }
                Stop::Error(msg) => {
                    s.errors += 1;
                    let tr = ex.trace(&st).join(" < ");
                    let e = errs.entry((h, msg.replace(['\t', '\n'], " "))).or_insert((0, hex(&st.model), tr));
                    e.0 += 1;
                }
                Stop::Budget | Stop::Depth => {
                    s.budget += 1;
                    sh.alarms.fetch_add(10, std::sync::atomic::Ordering::Relaxed);
                    let kind = if matches!(stop, Stop::Budget) { "no termination within the instruction limit" } else { "call depth limit" };
                    let tr = ex.trace(&st).join(" < ");
                    let e = fails.entry((h, kind.to_string(), "?".into(), st.known)).or_default();
                    e.0 += 1;
                    if e.1.len() < cases {
                        e.1.push((hex(&st.model), tr));
                    }
                }
            }
            if let Some(o) = outcome {
                rng ^= rng << 13;
                rng ^= rng >> 7;
                rng ^= rng << 17;
                let n = s.done + s.fails;
                let slot = if psamp[h as usize].len() < samples {
                    psamp[h as usize].push(String::new());
                    Some(psamp[h as usize].len() - 1)
                } else {
                    // reservoir sampling
                    let k = (rng % n) as usize;
                    if k < samples {
                        Some(k)
                    } else {
                        None
                    }
                };
                if let Some(k) = slot {
                    let mut ob = vec![];
                    for v in &st.out {
                        let i = ex.id(v, 8);
                        ob.push(ex.ar.eval(i, &st.model) as u8);
                    }
                    psamp[h as usize][k] = format!("P\t{}\t{}\t{}\t{}\t{}", h, o, hex(&st.model), hex(&ob), st.reach);
                }
            }
            if ex.work.len() > 1 && sh.wants_work() {
                let d = ex.work.remove(0);
                if !sh.push(h, &d.decisions) {
                    ex.work.insert(0, d);
                }
            }
        }
        busy += tb.elapsed();
    }
    let mut canon_bad = 0;
    if canon {
        let log = std::mem::take(&mut ex.ar.canon_log);
        for (n, w, r) in log {
            if ex.sol.confirm_canon(&ex.ar, n, w, r) != solver::Res::Unsat {
                canon_bad += 1;
            }
        }
    }
    let mut t = String::new();
    for (k, s) in stats.iter().enumerate() {
        let _ = write!(t, "H\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", k, s.paths, s.done, s.assume, s.fails, s.errors, s.budget, s.unexplored, s.reach, s.inst, s.max_icount, s.decisions);
        for b in 0..64 {
            let _ = write!(t, "\t{}", s.reach_n[b]);
        }
        t.push('\n');
    }
    let q = &ex.sol.st;
    for (k, v) in [
        ("branch_points", ex.decided),
        ("forks", ex.forks),
        ("queries", q.queries),
        ("z3_calls", q.solved),
        ("shared_answers", q.shared),
        ("z3_sat", q.sat),
        ("z3_unsat", q.unsat),
        ("z3_unknown", q.unknown),
        ("z3_us", q.z3_us),
        ("max_z3_us", q.max_us),
        ("canon_confirmed", q.canon),
        ("canon_bad", canon_bad),
        ("instructions", ex.total_inst),
        ("busy_ms", busy.as_millis() as u64),
        ("expr_nodes", ex.ar.nodes.len() as u64),
    ] {
        let _ = writeln!(t, "S\t{}\t{}", k, v);
    }
    for (k, u) in ex.used.iter().enumerate() {
        if *u {
            let _ = writeln!(t, "F\t{}", k);
        }
    }
    for ((h, kind, loc, known), (n, ms)) in &fails {
        let _ = write!(t, "X\t{}\t{}\t{}\t{}\t{}", h, kind.replace(['\t', '\n'], " "), loc.replace(['\t', '\n'], " "), known, n);
        for (mo, tr) in ms {
            let _ = write!(t, "\t{}\t{}", mo, tr.replace(['\t', '\n'], " "));
        }
        t.push('\n');
    }
    for ((h, msg), (n, mo, tr)) in &errs {
        let _ = writeln!(t, "E\t{}\t{}\t{}\t{}\t{}", h, msg, n, mo, tr.replace(['\t', '\n'], " "));
    }
    for v in &psamp {
        for l in v {
            t.push_str(l);
            t.push('\n');
        }
    }
    std::fs::write(format!("{}/{}", dir, wi), t).unwrap();
}
