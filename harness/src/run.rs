//! Case runner: every case runs in a forked child with CPU and memory limits, 8 workers in
//! parallel; results are merged, judged and written out as evidence.
use crate::monitors::{Stats, Viol};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct CaseResult {
    pub viols: Vec<Viol>,
    pub stats: Stats,
    /// inputs tried or executions made in this case
    pub evals: u64,
    /// signatures of the distinct non-trivial executions or inputs of this case
    pub shapes: Vec<u64>,
    pub sample: Option<Value>,
    /// the case could not be judged (event cap)
    pub inconclusive: bool,
    /// reproductions of listed known findings
    pub known: Vec<String>,
    /// printed by a replay only
    pub log: Vec<String>,
}

impl CaseResult {
    pub fn bad(&mut self, prop: &'static str, msg: String) {
        if self.viols.len() < 20 {
            self.viols.push(Viol { prop, idx: 0, msg });
        }
    }
}

pub type CaseFn = Box<dyn Fn(u64, u64, bool) -> CaseResult + Send + Sync>;

pub struct Group {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: CaseFn,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    /// verdict kinds that refute this property in this check's workload
    pub owns: Vec<&'static str>,
    pub groups: Vec<Group>,
    pub assumptions: Vec<&'static str>,
    /// fewest non-trivial executions for the run to mean anything
    pub need: Vec<(&'static str, u64)>,
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

fn to_json(r: &CaseResult) -> Value {
    json!({
        "v": r.viols.iter().map(|v| json!([v.prop, v.idx, v.msg])).collect::<Vec<_>>(),
        "s": r.stats.0.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>(),
        "e": r.evals, "h": r.shapes, "x": r.sample, "i": r.inconclusive, "k": r.known,
    })
}

fn from_json(v: &Value) -> CaseResult {
    let mut r = CaseResult { evals: v["e"].as_u64().unwrap_or(0), inconclusive: v["i"] == true, ..Default::default() };
    for x in v["v"].as_array().into_iter().flatten() {
        r.viols.push(Viol { prop: leak(x[0].as_str().unwrap_or("?")), idx: x[1].as_u64().unwrap_or(0) as usize, msg: x[2].as_str().unwrap_or("").into() });
    }
    for x in v["s"].as_array().into_iter().flatten() {
        r.stats.add(leak(x[0].as_str().unwrap_or("?")), x[1].as_u64().unwrap_or(0));
    }
    r.shapes = v["h"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()).collect();
    r.known = v["k"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(|s| s.to_string())).collect();
    if !v["x"].is_null() {
        r.sample = Some(v["x"].clone());
    }
    r
}

pub fn case_seed(seed: u64, id: &str, group: usize, i: u64) -> u64 {
    let mut x = vec![seed, group as u64, i];
    x.extend(id.bytes().map(|b| b as u64));
    crate::prng::mix_all(&x)
}

/// `select!` draws from a thread-local generator seeded by a process-wide counter: advance it.
fn burn(seed: u64) {
    for _ in 0..(seed >> 17) % 6 {
        let _ = std::thread::Builder::new()
            .stack_size(64 * 1024)
            .spawn(|| {
                use futures::FutureExt;
                let mut x = futures::future::ready(()).fuse();
                let mut y = futures::future::ready(()).fuse();
                futures::executor::block_on(async {
                    futures::select! { _ = x => {}, _ = y => {} }
                });
            })
            .map(|h| h.join());
    }
}

/// A fresh thread, so that thread-local hash keys come from the case seed.
fn on_thread(g: &Group, seed: u64, i: u64, verbose: bool) -> CaseResult {
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(sc, || (g.run)(seed, i, verbose)).unwrap();
        match h.join() {
            Ok(r) => r,
            Err(_) => {
                let mut r = CaseResult::default();
                for p in crate::panics::take_global() {
                    r.viols.push(Viol { prop: if crate::panics::is_harness(&p) { "HARNESS" } else { "PANIC" }, idx: 0, msg: p });
                }
                r
            }
        }
    })
}

/// Groups whose work is done by a process of their own.
fn outside(g: &Group) -> bool {
    g.name.starts_with("weighted") || g.name.starts_with("sanitizer") || g.name == "interpreter"
}

/// Processor time of a process, in ticks.
fn ticks(pid: i32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let v: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
    Some(v.get(11)?.parse::<u64>().ok()? + v.get(12)?.parse::<u64>().ok()?)
}

fn limits(cpu: u64, memory: bool) {
    unsafe {
        let c = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
        libc::setrlimit(libc::RLIMIT_CPU, &c);
        let m = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        if memory {
            libc::setrlimit(libc::RLIMIT_AS, &m);
        }
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
}

enum End {
    Done(CaseResult),
    Spin,
    Hang,
    Died(i32),
    Lost,
}

/// Runs one case in a forked child. Must be called from a single-threaded process.
fn forked(g: &Group, seed: u64, i: u64, cpu: u64) -> End {
    let mut fds = [0i32; 2];
    unsafe {
        if libc::pipe(fds.as_mut_ptr()) != 0 {
            return End::Lost;
        }
        let pid = libc::fork();
        if pid < 0 {
            libc::close(fds[0]);
            libc::close(fds[1]);
            return End::Lost;
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            limits(if outside(g) { cpu * 10 } else { cpu }, !outside(g));
            burn(seed);
            let r = on_thread(g, seed, i, false);
            let s = to_json(&r).to_string();
            let mut f = std::fs::File::from_raw_fd(fds[1]);
            let _ = f.write_all(s.as_bytes());
            drop(f);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut buf: Vec<u8> = vec![];
        let t0 = Instant::now();
        let wall = Duration::from_secs(cpu * 6 + 60);
        let (mut used, mut since) = (0, Instant::now());
        let mut chunk = [0u8; 65536];
        loop {
            let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let rc = libc::poll(&mut p, 1, 1000);
            if rc > 0 {
                let n = libc::read(fds[0], chunk.as_mut_ptr() as *mut _, chunk.len());
                if n <= 0 {
                    break;
                }
                buf.extend_from_slice(&chunk[..n as usize]);
            }
            // all its threads wait for each other: simulated time needs no waiting, and runs
            // on the real clock wake up every few milliseconds
            if !outside(g) {
                match ticks(pid) {
                    Some(x) if x != used => (used, since) = (x, Instant::now()),
                    Some(_) if since.elapsed() > Duration::from_secs(45) => {
                        libc::kill(pid, libc::SIGKILL);
                        libc::close(fds[0]);
                        let mut st = 0;
                        libc::waitpid(pid, &mut st, 0);
                        return End::Hang;
                    }
                    _ => {}
                }
            }
            if t0.elapsed() > wall {
                libc::kill(pid, libc::SIGKILL);
                libc::close(fds[0]);
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                return End::Lost;
            }
        }
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            let s = libc::WTERMSIG(st);
            return match s {
                libc::SIGXCPU => End::Spin,
                libc::SIGABRT | libc::SIGSEGV | libc::SIGBUS | libc::SIGILL | libc::SIGFPE => End::Died(s),
                _ => End::Lost,
            };
        }
        match serde_json::from_slice::<Value>(&buf) {
            Ok(v) => End::Done(from_json(&v)),
            Err(_) => End::Lost,
        }
    }
}

pub struct Opt {
    pub seed: u64,
    pub thorough: bool,
    pub workers: u64,
    pub cap: Duration,
    pub scale: f64,
}

fn count(g: &Group, o: &Opt) -> u64 {
    let n = if o.thorough { g.thorough } else { g.quick };
    if n == 0 {
        return 0;
    }
    ((n as f64 * o.scale) as u64).max(1)
}

/// Cases in an order that interleaves the groups.
fn plan(c: &Check, o: &Opt) -> Vec<(usize, u64)> {
    let mut v: Vec<(f64, usize, u64)> = vec![];
    for (gi, g) in c.groups.iter().enumerate() {
        let n = count(g, o);
        for i in 0..n {
            v.push(((i as f64 + 0.5) / n as f64, gi, i));
        }
    }
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.into_iter().map(|x| (x.1, x.2)).collect()
}

fn worker(c: &Check, o: &Opt, w: u64, t0: Instant) -> Value {
    let cases = plan(c, o);
    let mut stats = Stats::default();
    let (mut evals, mut ran, mut spin, mut lost, mut incon) = (0u64, 0u64, 0u64, 0u64, 0u64);
    let mut shapes: BTreeSet<u64> = BTreeSet::new();
    let mut viols: Vec<Value> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut known: BTreeSet<String> = BTreeSet::new();
    let mut per: BTreeMap<&str, u64> = BTreeMap::new();
    let mut own = 0;
    let mut skipped = 0u64;
    for (k, (gi, i)) in cases.iter().enumerate() {
        if k as u64 % o.workers != w {
            continue;
        }
        if own > 0 || t0.elapsed() > o.cap {
            skipped += 1;
            continue;
        }
        let g = &c.groups[*gi];
        let seed = case_seed(o.seed, c.id, *gi, *i);
        let add = |prop: &str, idx: usize, msg: &str| json!({"prop": prop, "idx": idx, "msg": msg, "group": g.name, "case": i, "seed": seed});
        ran += 1;
        *per.entry(g.name).or_default() += 1;
        match forked(g, seed, *i, if o.thorough { 240 } else { 60 }) {
            End::Done(r) => {
                evals += r.evals;
                incon += r.inconclusive as u64;
                stats.merge(&r.stats);
                if shapes.len() < 200_000 {
                    shapes.extend(r.shapes.iter());
                }
                for k in r.known {
                    known.insert(k);
                }
                if samples.len() < 2 {
                    if let Some(x) = r.sample {
                        samples.push(x);
                    }
                }
                for v in &r.viols {
                    if viols.len() < 40 || c.owns.contains(&v.prop) {
                        viols.push(add(v.prop, v.idx, &v.msg));
                    }
                    if c.owns.contains(&v.prop) {
                        own += 1;
                    }
                }
            }
            End::Spin => {
                spin += 1;
                viols.push(add("SPIN", 0, "used up its processor time without finishing"));
                if c.owns.contains(&"SPIN") {
                    own += 1;
                }
            }
            End::Hang => {
                viols.push(add("HANG", 0, "used no processor time for 45 s: it waits for itself"));
                if c.owns.contains(&"HANG") {
                    own += 1;
                }
            }
            End::Died(s) => {
                viols.push(add("DIED", 0, &format!("process killed by signal {}", s)));
                if c.owns.contains(&"DIED") {
                    own += 1;
                }
            }
            End::Lost => lost += 1,
        }
    }
    json!({"stats": stats.0, "evals": evals, "ran": ran, "spin": spin, "lost": lost, "incon": incon, "skipped": skipped,
           "shapes": shapes, "viols": viols, "samples": samples, "known": known, "per": per})
}

pub fn verif_dir() -> String {
    std::env::var("OVMON_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn run_check(c: &Check, o: &Opt, extra: impl FnOnce() -> Vec<CaseResult>) -> i32 {
    let t0 = Instant::now();
    let mut pipes = vec![];
    let mut pids = vec![];
    for w in 0..o.workers {
        unsafe {
            let mut fds = [0i32; 2];
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let v = worker(c, o, w, t0);
                let mut f = std::fs::File::from_raw_fd(fds[1]);
                let _ = f.write_all(v.to_string().as_bytes());
                drop(f);
                libc::_exit(0);
            }
            libc::close(fds[1]);
            pipes.push(std::fs::File::from_raw_fd(fds[0]));
            pids.push(pid);
        }
    }
    let mut stats = Stats::default();
    let mut sum: BTreeMap<&str, u64> = BTreeMap::new();
    let mut shapes: BTreeSet<u64> = BTreeSet::new();
    let mut viols: Vec<Value> = vec![];
    let mut samples: Vec<Value> = vec![];
    let mut known: BTreeSet<String> = BTreeSet::new();
    let mut per: BTreeMap<String, u64> = BTreeMap::new();
    for mut p in pipes {
        let mut s = String::new();
        let _ = p.read_to_string(&mut s);
        let Ok(v) = serde_json::from_str::<Value>(&s) else {
            *sum.entry("workers_lost").or_default() += 1;
            continue;
        };
        for k in ["evals", "ran", "spin", "lost", "incon", "skipped"] {
            *sum.entry(k).or_default() += v[k].as_u64().unwrap_or(0);
        }
        for (k, x) in v["stats"].as_object().into_iter().flatten() {
            stats.add(leak(k), x.as_u64().unwrap_or(0));
        }
        for (k, x) in v["per"].as_object().into_iter().flatten() {
            *per.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
        }
        shapes.extend(v["shapes"].as_array().into_iter().flatten().filter_map(|x| x.as_u64()));
        viols.extend(v["viols"].as_array().into_iter().flatten().cloned());
        known.extend(v["known"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(|s| s.to_string())));
        samples.extend(v["samples"].as_array().into_iter().flatten().cloned());
    }
    for p in pids {
        unsafe {
            let mut st = 0;
            libc::waitpid(p, &mut st, 0);
        }
    }
    for r in extra() {
        *sum.entry("evals").or_default() += r.evals;
        *sum.entry("ran").or_default() += 1;
        stats.merge(&r.stats);
        shapes.extend(r.shapes.iter());
        known.extend(r.known.iter().cloned());
        samples.extend(r.sample.clone());
        for v in &r.viols {
            viols.push(json!({"prop": v.prop, "idx": v.idx, "msg": v.msg, "group": "extra", "case": 0, "seed": 0}));
        }
    }
    let mine: Vec<&Value> = viols.iter().filter(|v| c.owns.contains(&v["prop"].as_str().unwrap_or(""))).collect();
    let others: BTreeMap<String, u64> = viols.iter().filter(|v| !c.owns.contains(&v["prop"].as_str().unwrap_or(""))).fold(BTreeMap::new(), |mut m, v| {
        *m.entry(v["prop"].as_str().unwrap_or("").to_string()).or_default() += 1;
        m
    });
    let dir = format!("{}/evidence", verif_dir());
    let rdir = format!("{}/replay", dir);
    let _ = std::fs::create_dir_all(&rdir);
    let tier = if o.thorough { "thorough" } else { "quick" };
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", c.id, k);
    }
    for v in viols.iter().filter(|v| v["prop"] == "HARNESS").take(3) {
        println!("HARNESS ERROR (not a verdict): {}", v);
    }
    for (j, v) in mine.iter().take(5).enumerate() {
        let path = format!("{}/{}-{}-{}.json", rdir, c.id, tier, j);
        let doc = json!({"check": c.id, "group": v["group"], "case": v["case"], "seed": v["seed"], "prop": v["prop"], "event": v["idx"], "message": v["msg"],
            "how": format!("{}/check.sh --replay {}", verif_dir(), path)});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        println!("VIOLATION property={} replay={}", c.id, path);
        println!("  {} case {} seed {}: [{}] {}", v["group"], v["case"], v["seed"], v["prop"].as_str().unwrap_or(""), v["msg"].as_str().unwrap_or(""));
    }
    samples.truncate(4);
    let short: Vec<String> = c.need.iter().filter(|(k, n)| stats.get(k) < *n).map(|(k, n)| format!("{} {} < {}", k, stats.get(k), n)).collect();
    let ev = json!({
        "property": c.id, "tier": tier, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": sum.get("evals").cloned().unwrap_or(0),
            "distinct_nontrivial": shapes.len(),
            "rule": c.rule,
            "samples": samples,
            "cases": sum.get("ran"),
            "cases_by_workload": per,
            "cases_not_judged": {"event_cap": sum.get("incon"), "processor_time": sum.get("spin"), "lost": sum.get("lost"), "time_cap": sum.get("skipped")},
            "observed": stats.0,
            "observed_too_little_of": short,
            "verdicts_left_to_other_checks": others,
        },
        "assumptions": c.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": mine.len(),
    });
    let _ = std::fs::write(format!("{}/{}.json", dir, c.id), serde_json::to_string_pretty(&ev).unwrap());
    println!(
        "{} {} seed {}: {} cases, {} evaluations, {} distinct non-trivial, {} violations, {:.1} s",
        c.id,
        tier,
        o.seed,
        sum.get("ran").cloned().unwrap_or(0),
        sum.get("evals").cloned().unwrap_or(0),
        shapes.len(),
        mine.len(),
        t0.elapsed().as_secs_f64()
    );
    if !short.is_empty() {
        println!("  observed too little of: {}", short.join(", "));
    }
    if mine.is_empty() {
        0
    } else {
        1
    }
}

/// Runs one case in this process and prints its result, for another build of this program.
pub fn one(c: &Check, group: &str, case: u64, seed: u64, verbose: bool) -> i32 {
    let Some(g) = c.groups.iter().find(|g| g.name == group) else {
        return 2;
    };
    burn(seed);
    let r = on_thread(g, seed, case, verbose);
    let mut v = to_json(&r);
    if verbose {
        v["l"] = json!(r.log);
    }
    println!("{}", v);
    0
}

/// A group whose cases run in another build of this program (path in the environment).
pub fn elsewhere(name: &'static str, quick: u64, thorough: u64, check: &'static str, var: &'static str) -> Group {
    Group {
        name,
        quick,
        thorough,
        run: Box::new(move |seed, i, verbose| {
            let mut r = CaseResult::default();
            let Ok(bin) = std::env::var(var) else {
                r.inconclusive = true;
                return r;
            };
            let o = std::process::Command::new(bin)
                .args(["one", check, name, &i.to_string(), &seed.to_string(), if verbose { "v" } else { "" }])
                .stderr(std::process::Stdio::null())
                .output();
            match o {
                Ok(o) if o.status.success() => match serde_json::from_slice::<Value>(&o.stdout) {
                    Ok(v) => {
                        r = from_json(&v);
                        r.log = v["l"].as_array().into_iter().flatten().filter_map(|x| x.as_str().map(|s| s.to_string())).collect();
                    }
                    Err(e) => r.bad("HARNESS", format!("unreadable result: {}", e)),
                },
                Ok(o) => {
                    use std::os::unix::process::ExitStatusExt;
                    match o.status.signal() {
                        Some(libc::SIGXCPU) => r.bad("SPIN", "used up its processor time without finishing".into()),
                        Some(x) => r.bad("DIED", format!("process killed by signal {}", x)),
                        None => r.bad("HARNESS", format!("exit status {}", o.status)),
                    }
                }
                Err(e) => r.bad("HARNESS", e.to_string()),
            }
            r
        }),
    }
}

pub fn replay(c: &Check, group: &str, case: u64, seed: u64) -> i32 {
    let Some(g) = c.groups.iter().find(|g| g.name == group) else {
        eprintln!("no group {}", group);
        return 2;
    };
    burn(seed);
    let r = on_thread(g, seed, case, true);
    for l in &r.log {
        println!("{}", l);
    }
    println!("{:?}", r.stats.0);
    let mut rc = 0;
    for v in &r.viols {
        println!("[{}] event {}: {}", v.prop, v.idx, v.msg);
        if c.owns.contains(&v.prop) {
            rc = 1;
        }
    }
    rc
}
