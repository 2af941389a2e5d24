//! Two workloads of their own: clusters that nothing disturbs, and instances that are stopped.
use crate::checks::{describe, shape};
use crate::gen::{self, Profile};
use crate::monitors::{self, Viol};
use crate::prng::Rng;
use crate::run::CaseResult;
use crate::sim::*;
use overlord::types::*;
use std::collections::{BTreeMap, HashMap};

fn log_of(r: &mut CaseResult, o: &Outcome, verbose: bool) {
    if verbose {
        r.log.push(format!("{:#?}", o.cfg));
        for (i, e) in o.trace.iter().enumerate() {
            r.log.push(format!("{:>6} {}", i, show(e)));
        }
    }
}

/// All validators correct, every delay far below the timeouts.
pub fn calm_cfg(seed: u64) -> Cfg {
    let mut r = Rng::new(seed);
    let n = match r.below(8) {
        0 => 1,
        1 => 10,
        _ => r.range(2, 7) as usize,
    };
    let interval = *r.pick(&[200u64, 500, 1000, 1000, 3000]);
    let mut c = Cfg::plain(seed, n);
    let k = if n >= 2 && r.pm(400) { r.range(2, 4) } else { 1 };
    c.epochs.clear();
    let mut from = 0;
    for e in 0..k {
        let style = r.below(4);
        let mut ids: Vec<usize> = (0..n).collect();
        let m = if e == 0 || r.pm(500) { n } else { r.range(1, n as u64) as usize };
        r.shuffle(&mut ids);
        let vals: Vec<(usize, u32, u32)> = ids[..m]
            .iter()
            .map(|i| {
                (
                    *i,
                    1,
                    match style {
                        0 => r.range(1, 10) as u32,
                        1 => 1_000_000 + r.below(3) as u32,
                        _ => 1,
                    },
                )
            })
            .collect();
        let ratios = if r.pm(300) { Some([r.range(20, 40), r.range(8, 20), r.range(4, 12), r.range(3, 8)]) } else { None };
        c.epochs.push(Epoch { from, vals, interval, ratios, announce: r.pm(700) });
        from += r.range(1, 4);
    }
    let d = (interval / *r.pick(&[20u64, 40, 100])).max(2);
    c.net.pre = Lat::new(1, d);
    c.net.post = Lat::new(1, d);
    c.net.gst = 0;
    c.net.dup = *r.pick(&[0, 0, 200]);
    c.d_check = Lat::new(0, *r.pick(&[0, 1, d, interval / 10]));
    c.d_wal = Lat::new(0, r.below(2));
    c.d_get = Lat::new(0, *r.pick(&[0, d]));
    c.d_commit = Lat::new(0, *r.pick(&[0, d]));
    c.d_send = Lat::new(0, r.below(2));
    c.yields = r.below(4);
    c.shuffle = true;
    c.sync = SyncCfg { every: (d / 2).max(1), from: 0, lag: 0 };
    // members learn of decisions from the consensus itself
    c.sync.lag = if k == 1 { interval } else { 0 };
    // a start at the height itself has no status, and its leader proposes from round 1 on
    c.style_b = 0;
    c.body = *r.pick(&[0, 16, 200]);
    c.target = r.range(4, 14);
    c.after = 0;
    c.deadline = (c.target + 2) * (interval + 14 * d + 4 * c.d_check.hi + 100) + 1000;
    c
}

pub fn calm(seed: u64, verbose: bool) -> CaseResult {
    let o = run_case(calm_cfg(seed));
    let mut r = CaseResult { evals: 1, ..Default::default() };
    log_of(&mut r, &o, verbose);
    let v = monitors::safety(&o);
    r.viols = v.viols;
    r.stats = v.stats;
    let mut bad = |i: usize, m: String| r.viols.push(Viol { prop: "C13", idx: i, msg: m });
    if !o.reached {
        bad(o.trace.len(), format!("nothing was disturbed, yet heights {:?} are all that {} ms brought (goal {})", o.latest, o.end, o.cfg.target));
    }
    let c = &o.cfg;
    let d = c.net.post.hi;
    // proposal, prevote, certificate, precommit, certificate; each with its log records and calls
    let bound = 5 * (d + c.d_send.hi) + c.d_check.hi + c.d_get.hi + c.d_commit.hi + 10 * c.d_wal.hi + 12;
    let mut first: BTreeMap<u64, u64> = BTreeMap::new();
    let mut sent: HashMap<u64, [u64; 4]> = HashMap::new();
    let mut worst = 0;
    let mut judged = 0;
    for (i, e) in o.trace.iter().enumerate() {
        match &e.k {
            K::View { h, r, reason } => bad(i, format!("#{} reports a view change at h{} r{} ({}) although nothing was disturbed", e.slot, h, r, reason)),
            K::Send { msg, .. } => match &**msg {
                OverlordMsg::SignedProposal(p) => {
                    first.entry(p.proposal.height).or_insert(e.t);
                    sent.entry(p.proposal.height).or_default()[0] += 1;
                    if p.proposal.round != 0 {
                        bad(i, format!("#{} proposes in h{} r{} although nothing was disturbed", e.slot, p.proposal.height, p.proposal.round));
                    }
                }
                OverlordMsg::SignedVote(v) => {
                    sent.entry(v.vote.height).or_default()[1] += 1;
                    if v.vote.round != 0 || v.vote.block_hash.is_empty() {
                        bad(i, format!("#{} sends {} although nothing was disturbed", e.slot, show_msg(msg)));
                    }
                }
                OverlordMsg::AggregatedVote(q) => {
                    sent.entry(q.height).or_default()[2] += 1;
                    if q.round != 0 || q.block_hash.is_empty() {
                        bad(i, format!("#{} sends {} although nothing was disturbed", e.slot, show_msg(msg)));
                    }
                }
                OverlordMsg::SignedChoke(k) => {
                    sent.entry(k.choke.height).or_default()[3] += 1;
                    bad(i, format!("#{} chokes h{} r{} although nothing was disturbed", e.slot, k.choke.height, k.choke.round));
                }
                _ => {}
            },
            K::Commit { h, c: cm } => {
                if cm.proof.round != 0 {
                    bad(i, format!("h{} is decided in round {} although nothing was disturbed", h, cm.proof.round));
                }
                if let Some(t) = first.get(h) {
                    judged += 1;
                    let x = e.t - t;
                    worst = worst.max(x);
                    if x > bound {
                        bad(i, format!("#{} commits h{} {} ms after it was proposed; messages take at most {} ms, the check {} ms: expected at most {} ms", e.slot, h, x, d, c.d_check.hi, bound));
                    }
                }
            }
            _ => {}
        }
    }
    // a leader whose own vote comes last may publish a certificate again
    for (h, s) in &sent {
        let n = o.auths.get(h).map_or(0, |a| a.len()) as u64;
        if s[0] > 1 || s[1] > 2 * n || s[2] > 4 {
            bad(0, format!("height {} with {} validators took {} proposals, {} votes and {} certificates: expected at most 1, {} and 4", h, n, s[0], s[1], s[2], 2 * n));
        }
    }
    r.stats.add("undisturbed_commits_timed", judged);
    r.stats.add("undisturbed_heights", sent.len() as u64);
    if r.stats.get("commits") > 1 {
        r.shapes.push(shape(&o));
        r.stats.add("nontrivial_cases", 1);
        let mut d = describe(&o, &r.stats);
        d["slowest_commit_ms"] = worst.into();
        d["allowed_ms"] = bound.into();
        r.sample = Some(d);
    }
    r
}

/// Judges the stops of a trace: `run` returns soon, and nothing comes after.
pub fn judge_stops(o: &Outcome, bound: u64, viols: &mut Vec<Viol>) -> (u64, u64) {
    let mut n = 0;
    let mut busy = 0;
    let mut stop: HashMap<(usize, u32), (u64, usize)> = HashMap::new();
    let mut end: HashMap<(usize, u32), (u64, usize)> = HashMap::new();
    let mut gone: HashMap<(usize, u32), usize> = HashMap::new();
    for (i, e) in o.trace.iter().enumerate() {
        let k = (e.slot, e.inc);
        let mut bad = |m: String| viols.push(Viol { prop: "C21", idx: i, msg: format!("#{}.{} {}", e.slot, e.inc, m) });
        match &e.k {
            K::Stop => {
                stop.entry(k).or_insert((e.t, i));
                n += 1;
            }
            K::Crash { .. } => {
                gone.insert(k, i);
            }
            K::RunEnd { .. } => {
                end.insert(k, (e.t, i));
                match stop.get(&k) {
                    Some((t, _)) if e.t - t > bound => bad(format!("returns {} ms after it was told to stop (expected within {} ms)", e.t - t, bound)),
                    _ => {}
                }
            }
            K::Send { .. } | K::Sign { .. } | K::WalSave { .. } | K::Commit { .. } | K::View { .. } | K::Get { .. } => {
                if stop.contains_key(&k) {
                    busy += 1;
                }
                if let Some((t, _)) = end.get(&k) {
                    if stop.contains_key(&k) {
                        bad(format!("still acts {} ms after run returned: {}", e.t - t, show(e)));
                    }
                }
            }
            _ => {}
        }
    }
    for (k, (t, i)) in &stop {
        if !end.contains_key(k) && !gone.contains_key(k) && o.end > t + bound {
            viols.push(Viol { prop: "C21", idx: *i, msg: format!("#{}.{} was told to stop at {} ms and has not returned by {} ms", k.0, k.1, t, o.end) });
        }
    }
    (n, busy)
}

fn stop_bound(c: &Cfg) -> u64 {
    let hang = c.faults.iter().map(|f| f.hang).max().unwrap_or(0);
    let i = c.epochs.iter().map(|e| e.interval).max().unwrap_or(1000);
    // what was queued before the stop may be handled first
    4 * i + 20 * (hang + c.d_check.hi + c.d_get.hi + c.d_commit.hi + c.d_wal.hi + c.d_send.hi) + 1000
}

pub fn stops(seed: u64, p: &Profile, verbose: bool) -> CaseResult {
    let mut c = gen::gen(seed, p);
    let mut r = Rng::new(seed ^ 0x5707);
    let i = c.epochs[0].interval;
    let hs: Vec<usize> = honest(&c);
    c.net.gst = c.net.gst.min(20 * i);
    for s in &hs {
        if r.pm(700) {
            let t = match r.below(6) {
                0 => 0,
                1 => r.below(50),
                _ => r.below(c.net.gst + 5 * i),
            };
            c.stops.push((t, *s));
            if r.pm(100) {
                c.stops.push((t + r.below(3), *s));
            }
        }
    }
    let last = c.stops.iter().map(|s| s.0).max().unwrap_or(0);
    c.crashes.retain(|x| x.down.is_some());
    c.target = 1_000_000;
    c.after = 0;
    c.deadline = last + 4 * i;
    c.linger = stop_bound(&c) + 10 * i;
    let b = stop_bound(&c);
    let o = run_case(c);
    let mut r = CaseResult { evals: 1, ..Default::default() };
    log_of(&mut r, &o, verbose);
    let v = monitors::safety(&o);
    r.viols = v.viols;
    r.stats = v.stats;
    let (n, busy) = judge_stops(&o, b, &mut r.viols);
    r.stats.add("stops", n);
    r.stats.add("actions_between_stop_and_return", busy);
    if n > 0 {
        r.shapes.push(shape(&o));
        r.stats.add("nontrivial_cases", 1);
        r.sample = Some(describe(&o, &r.stats));
    }
    r
}
