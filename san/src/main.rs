//! One run of a cluster of real nodes, built with a sanitizer or interpreted by Miri.
//! ovsan SEED HEIGHTS THREADS
#![allow(dead_code)]
#[path = "../../harness/src/app.rs"]
mod app;
#[path = "../../harness/src/lean.rs"]
mod lean;
#[path = "../../harness/src/mem.rs"]
mod mem;
#[path = "../../harness/src/panics.rs"]
mod panics;
#[path = "../../harness/src/prng.rs"]
mod prng;
#[path = "../../harness/src/virt.rs"]
mod virt;
#[path = "../../harness/src/wire.rs"]
mod wire;

fn main() {
    panics::install();
    let a: Vec<u64> = std::env::args().skip(1).filter_map(|x| x.parse().ok()).collect();
    let mut c = lean::short(a[0], a[1]);
    if cfg!(miri) {
        c.n = 1 + (a[0] % 3) as usize;
        c.interval = 60_000;
        c.patience = 200;
        c.body = 8;
        c.hostile = 300;
    }
    let s = lean::run(c, a[2] as usize);
    println!(
        "{}",
        serde_json::json!({"bad": s.bad, "stats": s.stats, "order": s.order, "reached": s.reached, "stuck": s.stuck, "panics": panics::take_global()})
    );
}
