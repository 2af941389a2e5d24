//! Long runs judged by their memory, and runs on real threads, natively and under sanitizers.
use crate::lean;
use crate::run::{CaseResult, Group};
use serde_json::{json, Value};
use std::process::Command;

const KINDS: [&str; 4] = ["C01", "C02", "C21", "CODEC"];

pub fn memory(seed: u64, heights: u64) -> CaseResult {
    let c = lean::long(seed, heights);
    crate::virt::set_hash_seed(crate::prng::mix(seed) | 1);
    crate::panics::take();
    // lazily made things
    lean::run(lean::Lean { target: 3, marks: vec![], ..c.clone() }, 0);
    let s = lean::run(c.clone(), 0);
    let mut out = CaseResult { evals: c.target, ..Default::default() };
    for (k, v) in &s.stats {
        out.stats.add(k, *v);
    }
    for p in crate::panics::take() {
        out.bad(if crate::panics::is_harness(&p) { "HARNESS" } else { "PANIC" }, p);
    }
    for (k, e) in s.bad {
        out.bad(k, e);
    }
    if !s.reached {
        out.inconclusive = true;
        return out;
    }
    if std::env::var("LEAN_DEBUG").is_ok() {
        println!("{:?} {} {}", s.live, c.n, s.reached);
    }
    let (Some((a, na)), Some((b, nb))) = (s.live[0], s.live[1]) else {
        out.inconclusive = true;
        return out;
    };
    out.stats.add("live_bytes_read", na + nb);
    out.stats.add("heights_run", c.target);
    out.shapes.push(crate::prng::mix_all(&[s.order, c.seed]));
    // least live bytes of two long stretches: what is retained, without what is in flight
    if b > a + 12_000 + a / 16 {
        out.bad("C26", format!("{} nodes hold {} bytes up to height {} and {} bytes up to height {}: {:.1} bytes a height are kept", c.n, a, c.marks[0].1, b, c.marks[1].1, (b - a) as f64 / (c.target / 2) as f64));
    }
    out.sample = Some(json!({"run": format!("{:?}", c), "least live bytes early": a, "late": b, "observed": s.stats}));
    out
}

pub fn threads(seed: u64, heights: u64) -> CaseResult {
    let c = lean::short(seed, heights);
    let n = 2 + (seed % 7) as usize;
    let s = lean::run(c.clone(), n);
    let mut out = CaseResult { evals: 1, ..Default::default() };
    for p in crate::panics::take_global() {
        out.bad(if crate::panics::is_harness(&p) { "HARNESS" } else { "PANIC" }, p);
    }
    for (k, v) in &s.stats {
        out.stats.add(k, *v);
    }
    for (k, e) in s.bad {
        out.bad(k, e);
    }
    if s.stuck {
        out.bad("HANG", format!("{} nodes on {} threads: no new height in a minute while the harness's own task kept running", c.n, n));
    }
    if s.reached {
        out.shapes.push(s.order);
        out.stats.add("runs_on_threads", 1);
        out.sample = Some(json!({"run": format!("{:?}", c), "threads": n, "observed": s.stats}));
    } else if !s.stuck {
        out.inconclusive = true;
    }
    out
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

/// The frames of a report, for its description.
fn report(err: &str, at: usize) -> String {
    let mut v: Vec<String> = vec![];
    for l in err[at..].lines().take(40) {
        let l = l.trim();
        if v.is_empty() || l.starts_with('#') || l.starts_with("-->") || l.contains("inside") {
            v.push(l.chars().take(160).collect());
        }
    }
    v.truncate(12);
    v.join(" | ")
}

/// One run of the sanitized build `what` in /verif/san.
pub fn sanitized(what: &'static str, seed: u64, heights: u64) -> CaseResult {
    let mut out = CaseResult { evals: 1, ..Default::default() };
    let Ok(dir) = std::env::var("OVMON_SAN") else {
        out.inconclusive = true;
        return out;
    };
    let threads = if what == "miri" { if seed % 3 == 0 { 2 } else { 0 } } else { 2 + seed % 5 };
    let args = [seed.to_string(), heights.to_string(), threads.to_string()];
    let mut c = if what == "miri" {
        let mut c = Command::new("cargo");
        c.args(["+nightly", "miri", "run", "--offline", "-q", "--target-dir"]).arg(format!("{}/miri", dir)).arg("--");
        c.current_dir(format!("{}/../san", dir));
        c.env("MIRIFLAGS", format!("-Zmiri-ignore-leaks -Zmiri-seed={}", seed % 100_000));
        c
    } else {
        Command::new(format!("{}/{}/x86_64-unknown-linux-gnu/debug/ovsan", dir, what))
    };
    c.env("TSAN_OPTIONS", "halt_on_error=1:exitcode=66:report_signal_unsafe=0").env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=66");
    let o = match c.args(&args).output() {
        Ok(o) => o,
        Err(e) => {
            out.bad("HARNESS", e.to_string());
            return out;
        }
    };
    let err = String::from_utf8_lossy(&o.stderr).to_string();
    for (mark, kind) in [
        ("WARNING: ThreadSanitizer: ", "RACE"),
        ("ERROR: AddressSanitizer: ", "MEMORY"),
        ("error: Undefined Behavior", "UB"),
        ("error: the evaluated program deadlocked", "HANG"),
        ("error: a deadlock", "HANG"),
        ("error: unsupported operation", "UNSUPPORTED"),
    ] {
        if let Some(i) = err.find(mark) {
            out.bad(kind, format!("{} run {:?}: {}", what, args, report(&err, i)));
            return out;
        }
    }
    let Ok(v) = serde_json::from_slice::<Value>(&o.stdout) else {
        use std::os::unix::process::ExitStatusExt;
        match o.status.signal() {
            Some(x) if [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGTRAP].contains(&x) => out.bad("DIED", format!("{} run {:?}: killed by signal {}", what, args, x)),
            _ => out.bad("HARNESS", format!("{} run {:?}: {} {}", what, args, o.status, err.chars().take(300).collect::<String>())),
        }
        return out;
    };
    for b in v["bad"].as_array().into_iter().flatten() {
        let k = b[0].as_str().unwrap_or("");
        out.bad(KINDS.iter().find(|x| **x == k).cloned().unwrap_or("HARNESS"), b[1].as_str().unwrap_or("").into());
    }
    for p in v["panics"].as_array().into_iter().flatten() {
        let p = p.as_str().unwrap_or("").to_string();
        out.bad(if crate::panics::is_harness(&p) { "HARNESS" } else { "PANIC" }, p);
    }
    if v["stuck"] == true {
        out.bad("HANG", format!("{} run {:?}: no new height in a minute while the harness's own task kept running", what, args));
    }
    for (k, x) in v["stats"].as_object().into_iter().flatten() {
        out.stats.add(leak(k), x.as_u64().unwrap_or(0));
    }
    if v["reached"] == true {
        out.stats.add(leak(&format!("runs_{}", what)), 1);
        out.shapes.push(v["order"].as_u64().unwrap_or(0) ^ seed);
        out.sample = Some(json!({"build": what, "seed heights threads": args, "observed": v["stats"]}));
    }
    out
}

pub fn san_group(name: &'static str, quick: u64, thorough: u64, what: &'static str, heights: u64) -> Group {
    Group { name, quick, thorough, run: Box::new(move |s, _i, _v| sanitized(what, s, heights)) }
}
