#![allow(clippy::too_many_arguments, clippy::type_complexity)]
mod app;
mod byz;
mod calm;
mod checks;
mod codec;
mod gen;
mod lean;
mod logs;
mod mem;
mod monitors;
mod panics;
mod prng;
mod run;
mod scen;
mod sim;
mod soak;
mod virt;
mod wire;

use std::time::Duration;

#[global_allocator]
static ALLOC: mem::Count = mem::Count;

fn main() {
    panics::install();
    logs::install();
    let args: Vec<String> = std::env::args().collect();
    let env = |k: &str| std::env::var(k).ok();
    let cmd = args.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        "check" => {
            let id = args.get(2).cloned().unwrap_or_default();
            let seed = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = env("VERIF_TIER").as_deref() == Some("thorough");
            let all = checks::all();
            let Some(c) = all.iter().find(|c| c.id == id) else {
                eprintln!("no check {}", id);
                std::process::exit(2);
            };
            let o = run::Opt {
                seed,
                thorough,
                workers: env("OVMON_WORKERS").and_then(|s| s.parse().ok()).unwrap_or(8),
                cap: Duration::from_secs(env("OVMON_CAP").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500 } else { 150 })),
                scale: env("OVMON_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
            };
            std::process::exit(run::run_check(c, &o, Vec::new));
        }
        "one" => {
            let all = checks::all();
            let c = all.iter().find(|c| c.id == args[2]).expect("check");
            std::process::exit(run::one(c, &args[3], args[4].parse().unwrap(), args[5].parse().unwrap(), args.get(6).is_some_and(|x| x == "v")));
        }
        "replay" => {
            let t = std::fs::read_to_string(&args[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&t).expect("json");
            let all = checks::all();
            let c = all.iter().find(|c| v["check"] == c.id).expect("check");
            std::process::exit(run::replay(c, v["group"].as_str().unwrap_or(""), v["case"].as_u64().unwrap_or(0), v["seed"].as_u64().unwrap_or(0)));
        }
        "lean" => {
            let n = |i: usize, d: u64| args.get(i).and_then(|s| s.parse().ok()).unwrap_or(d);
            let c = lean::Lean {
                hostile: 0,
                seed: n(2, 1), n: n(3, 4) as usize, interval: n(6, 1000), target: n(4, 1000), body: 200, lat: 30.min(n(6, 1000)), late: 20, trouble: n(7, 150),
                restarts: n(8, 0) == 1, changes: n(9, 0) == 1, stop: n(10, 0) == 1,
                marks: (0..20).map(|i| (i * n(4, 1000) / 20 + 1, (i + 1) * n(4, 1000) / 20 + 1)).collect(), patience: 3000,
            };
            let t = std::time::Instant::now();
            let s = lean::run(c, n(5, 0) as usize);
            println!("{:?} reached {} stuck {} {:?}\n{:?}\n{:?} {:?}", t.elapsed(), s.reached, s.stuck, s.stats, s.live, s.bad, panics::take_global());
        }
        "list" => {
            for c in checks::all() {
                println!("{}: {}", c.id, c.groups.iter().map(|g| format!("{} {}/{}", g.name, g.quick, g.thorough)).collect::<Vec<_>>().join(", "));
            }
        }
        _ => {
            eprintln!("usage: ovmon check ID | replay FILE | list");
            std::process::exit(2);
        }
    }
}
