mod exec;
mod expr;
mod ir;
mod mem;
mod z3;

use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// crude rendering of a v0 (or legacy) mangled name as a path
pub fn demangle(n: &str) -> String {
    let b = n.as_bytes();
    if !n.starts_with("_R") && !n.starts_with("_ZN") {
        return n.to_string();
    }
    let mut i = 2;
    let mut out: Vec<&str> = vec![];
    while i < b.len() {
        if b[i] == b's' && i > 0 && (b[i - 1] == b'C' || !b[i - 1].is_ascii_digit()) {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' && j - i < 16 {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut l = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                l = l * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            let mut k = j;
            if k < b.len() && b[k] == b'_' {
                k += 1;
            }
            if l < 200 && k + l <= b.len() && l > 0 && n[k..k + l].bytes().all(|c| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$') {
                out.push(&n[k..k + l]);
                i = k + l;
                continue;
            }
            i = j;
            continue;
        }
        i += 1;
    }
    out.join("::")
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}

struct Shared {
    q: Mutex<(Vec<Work>, usize, std::collections::HashMap<u64, u64>)>, // queue, active workers, paths begun per shape
    cv: Condvar,
    stop: AtomicBool,
    paths: AtomicU64,
    res: Mutex<Res>,
}

#[derive(Default)]
struct Res {
    st: Stats,
    done: u64,
    infeasible: u64,
    violations: Vec<(String, Vec<u128>, Vec<String>)>,
    viol_count: u64,
    inconclusive: BTreeMap<String, u64>,
    paths: Vec<(Vec<u128>, u64)>,
    cov: Vec<u8>,
    longest: usize,
}

/// what the first decisions of a path were: a shape of the harness
fn shape_of(w: &Work) -> u64 {
    w.prefix.iter().take(4).fold(0xcbf2_9ce4_8422_2325u64, |h, x| (h ^ x).wrapping_mul(0x100_0000_01b3))
}

fn main() {
    let mut a: BTreeMap<String, String> = BTreeMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let k = k.trim_start_matches("--").to_string();
        let v = it.next().unwrap_or_default();
        a.insert(k, v);
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&a["ll"]).expect("read ll");
    let m = match ir::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("IR parse error: {}", e);
            std::process::exit(3);
        }
    };
    drop(text);
    let (api, z3path) = z3::load(a.get("z3").map(|s| s.as_str())).expect("no z3 library");
    let prog = Arc::new(Prog::new(m));
    let parse_s = t0.elapsed().as_secs_f64();
    let entry = *prog.m.fidx.get(a.get("entry").map(|s| s.as_str()).unwrap_or("sym_main")).expect("entry function");
    let args: Vec<u64> = a.get("args").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let num = |k: &str, d: u64| a.get(k).map(|s| s.parse::<u64>().unwrap()).unwrap_or(d);
    let threads = num("threads", 8) as usize;
    let budget = Duration::from_secs(num("time", 600));
    let max_viol = num("max-viol", 1);
    let max_paths = num("max-paths", 5_000_000);
    let log_on = num("log", 0) != 0;
    let keep = num("keep", 200000) as usize;
    let cfg = Arc::new(Cfg {
        max_steps: num("max-steps", 20_000_000_000),
        max_values: num("max-values", 300) as usize,
        solver_ms: num("solver-ms", 60000) as u32,
        dump: a.get("dump").map(|d| (d.clone(), num("dump-every", 50))),
    });
    let sh = Arc::new(Shared {
        q: Mutex::new((vec![Work::default()], 0, Default::default())),
        cv: Condvar::new(),
        stop: AtomicBool::new(false),
        paths: AtomicU64::new(0),
        res: Mutex::new(Res { cov: vec![0; prog.cov_len], ..Default::default() }),
    });
    let t1 = Instant::now();
    let mut hs = vec![];
    for tid in 0..threads {
        let (sh, prog, cfg, args) = (sh.clone(), prog.clone(), cfg.clone(), args.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || {
                    let mut ex = Exec::new(prog, cfg, api);
                    ex.log_on = log_on;
                    ex.trace = std::env::var_os("SYMEX_PROF").is_some();
                    let mut rnd = 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(tid as u64 + 1);
                    loop {
                        let w = {
                            let mut g = sh.q.lock().unwrap();
                            loop {
                                if sh.stop.load(Ordering::Relaxed) {
                                    break None;
                                }
                                // half of the workers go on in depth, the others anywhere: a search
                                // that runs out of time has been to all parts of the tree
                                if tid % 2 == 1 && g.0.len() > 1 {
                                    rnd = rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                                    // (of a few, the one whose shape has been looked at least)
                                    let l = g.0.len() - 1;
                                    let mut best = ((rnd >> 33) as usize % (l + 1), u64::MAX);
                                    for _ in 0..8 {
                                        rnd = rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                                        let i = (rnd >> 33) as usize % (l + 1);
                                        let n = g.2.get(&shape_of(&g.0[i])).copied().unwrap_or(0);
                                        if n < best.1 {
                                            best = (i, n);
                                        }
                                    }
                                    g.0.swap(best.0, l);
                                }
                                if let Some(w) = g.0.pop() {
                                    *g.2.entry(shape_of(&w)).or_insert(0) += 1;
                                    g.1 += 1;
                                    break Some(w);
                                }
                                if g.1 == 0 {
                                    break None;
                                }
                                g = sh.cv.wait(g).unwrap();
                            }
                        };
                        let w = match w {
                            Some(w) => w,
                            None => {
                                sh.cv.notify_all();
                                break;
                            }
                        };
                        let s2 = sh.clone();
                        let stopf = move |nw: &mut Vec<Work>| {
                            // long paths hand out their forks early
                            if !nw.is_empty() {
                                s2.q.lock().unwrap().0.append(nw);
                                s2.cv.notify_all();
                            }
                            s2.stop.load(Ordering::Relaxed) || t1.elapsed() > budget
                        };
                        let end = ex.run(w, entry, &args, &stopf);
                        let np = sh.paths.fetch_add(1, Ordering::Relaxed) + 1;
                        let nw = std::mem::take(&mut ex.newwork);
                        {
                            let mut r = sh.res.lock().unwrap();
                            r.longest = r.longest.max(ex.prefix.len());
                            for m in ex.partial.drain(..) {
                                *r.inconclusive.entry(m).or_insert(0) += 1;
                            }
                            match end {
                                End::Done => {
                                    r.done += 1;
                                    if r.paths.len() < keep {
                                        let v = ex.values_of_vars();
                                        let h = ex.obs_hash();
                                        r.paths.push((v, h));
                                    }
                                }
                                End::Infeasible => r.infeasible += 1,
                                End::Violation(m) => {
                                    r.viol_count += 1;
                                    let key = m.split(" in ").next().unwrap_or("").to_string();
                                    if !r.violations.iter().any(|v| v.0.split(" in ").next().unwrap_or("") == key) {
                                        r.violations.push((m, ex.values_of_vars(), ex.pathlog.clone()));
                                    }
                                    if r.violations.len() as u64 >= max_viol {
                                        sh.stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                End::Inconclusive(m) => {
                                    *r.inconclusive.entry(m).or_insert(0) += 1;
                                    if r.inconclusive.len() > 60 {
                                        sh.stop.store(true, Ordering::Relaxed);
                                    }
                                }
                                End::Stopped => {
                                    *r.inconclusive.entry("stopped".into()).or_insert(0) += 1;
                                }
                            }
                            if t1.elapsed() > budget && !sh.stop.load(Ordering::Relaxed) {
                                *r.inconclusive.entry("time budget exhausted".into()).or_insert(0) += 1;
                                sh.stop.store(true, Ordering::Relaxed);
                            }
                            if np > max_paths && !sh.stop.load(Ordering::Relaxed) {
                                *r.inconclusive.entry("path budget exhausted".into()).or_insert(0) += 1;
                                sh.stop.store(true, Ordering::Relaxed);
                            }
                        }
                        let mut g = sh.q.lock().unwrap();
                        g.0.extend(nw);
                        g.1 -= 1;
                        drop(g);
                        sh.cv.notify_all();
                    }
                    let mut r = sh.res.lock().unwrap();
                    let s = &ex.st;
                    r.st.steps += s.steps;
                    r.st.queries += s.queries;
                    r.st.qsat += s.qsat;
                    r.st.qunsat += s.qunsat;
                    r.st.qtime += s.qtime;
                    r.st.qmax = r.st.qmax.max(s.qmax);
                    r.st.forks += s.forks;
                    r.st.asserts += s.asserts;
                    r.st.asserts_const += s.asserts_const;
                    r.st.asserts_solved += s.asserts_solved;
                    r.st.sym_branches += s.sym_branches;
                    r.st.forced += s.forced;
                    r.st.max_heap = r.st.max_heap.max(s.max_heap);
                    for (k, v) in &s.reach {
                        *r.st.reach.entry(k.clone()).or_insert(0) += v;
                    }
                    for (i, c) in ex.cov.iter().enumerate() {
                        r.cov[i] |= c;
                    }
                })
                .unwrap(),
        );
    }
    for h in hs {
        // a path that does not end in time, in one long step, is left alone
        while !h.is_finished() && t1.elapsed() < budget + Duration::from_secs(45) {
            std::thread::sleep(Duration::from_millis(2));
        }
        if !h.is_finished() {
            if let Ok(mut r) = sh.res.lock() {
                *r.inconclusive.entry("a path did not end in time".into()).or_insert(0) += 1;
            }
            continue;
        }
        if h.join().is_err() {
            eprintln!("worker panicked");
            std::process::exit(3);
        }
    }
    let left = sh.q.lock().unwrap().0.len();
    let r = sh.res.lock().unwrap();
    let wall = t1.elapsed().as_secs_f64();
    // ---- output
    let mut o = String::new();
    let hexs = |v: &[u128]| v.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>().join(" ");
    let _ = write!(
        o,
        "{{\n\"paths\": {}, \"done\": {}, \"infeasible\": {}, \"left\": {}, \"violating_paths\": {}, \"wall\": {:.3}, \"parse_s\": {:.3},\n",
        sh.paths.load(Ordering::Relaxed),
        r.done,
        r.infeasible,
        left,
        r.viol_count,
        wall,
        parse_s
    );
    let s = &r.st;
    let _ = write!(
        o,
        "\"steps\": {}, \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"solver_s\": {:.3}, \"solver_max_s\": {:.3}, \"forks\": {}, \"forced\": {}, \"sym_branches\": {}, \"asserts\": {}, \"asserts_const\": {}, \"asserts_solved\": {}, \"max_heap\": {}, \"longest\": {},\n",
        s.steps, s.queries, s.qsat, s.qunsat, s.qtime, s.qmax, s.forks, s.forced, s.sym_branches, s.asserts, s.asserts_const, s.asserts_solved, s.max_heap, r.longest
    );
    let _ = write!(o, "\"solver\": \"{} ({})\",\n\"reach\": {{", esc(&z3::version(&api)), esc(&z3path));
    for (i, (k, v)) in s.reach.iter().enumerate() {
        let _ = write!(o, "{}\"{}\": {}", if i > 0 { ", " } else { "" }, esc(k), v);
    }
    o.push_str("},\n\"violations\": [");
    for (i, (m, v, log)) in r.violations.iter().enumerate() {
        let _ = write!(
            o,
            "{}{{\"msg\": \"{}\", \"values\": \"{}\", \"log\": [{}]}}",
            if i > 0 { ",\n" } else { "" },
            esc(m),
            hexs(v),
            log.iter().map(|l| format!("\"{}\"", esc(l))).collect::<Vec<_>>().join(",\n ")
        );
    }
    o.push_str("],\n\"inconclusive\": {");
    for (i, (k, v)) in r.inconclusive.iter().enumerate() {
        let _ = write!(o, "{}\"{}\": {}", if i > 0 { ", " } else { "" }, esc(k), v);
    }
    o.push_str("},\n\"functions\": [");
    let mut first = true;
    for (i, f) in prog.m.funcs.iter().enumerate() {
        if !f.defined || r.cov[prog.cov_base[i] as usize] == 0 {
            continue;
        }
        let cb = prog.cov_base[i] as usize;
        let tot = f.nblocks;
        let hit = f.block_starts.iter().enumerate().filter(|(k, s)| *k == 0 || r.cov[cb + **s as usize] != 0).count();
        let _ = write!(o, "{}[\"{}\", {}, {}]", if first { "" } else { ",\n" }, esc(&demangle(&f.name)), hit, tot);
        first = false;
    }
    o.push_str("]\n}\n");
    std::fs::write(a.get("out").map(|s| s.as_str()).unwrap_or("/dev/stdout"), &o).expect("write out");
    if let Some(p) = a.get("paths") {
        let mut t = String::new();
        for (v, h) in &r.paths {
            let _ = writeln!(t, "{:016x} {}", h, hexs(v));
        }
        std::fs::write(p, t).expect("write paths");
    }
    eprintln!(
        "paths {} done {} infeasible {} left {} viol {} inconclusive {} queries {} solver {:.1}s steps {:.1}M wall {:.1}s",
        sh.paths.load(Ordering::Relaxed),
        r.done,
        r.infeasible,
        left,
        r.viol_count,
        r.inconclusive.values().sum::<u64>(),
        s.queries,
        s.qtime,
        s.steps as f64 / 1e6,
        wall
    );
    std::process::exit(0);
}
