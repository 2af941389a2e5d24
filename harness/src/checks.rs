//! The checks: per property, its workloads, the verdict kinds it owns, and when an execution
//! counts as non-trivial.
use crate::calm;
use crate::codec;
use crate::gen::{self, Profile};
use crate::monitors::{self, Stats, Viol};
use crate::run::*;
use crate::scen::{self, Mix};
use crate::sim::*;
use crate::soak;
use serde_json::json;

/// Signature of what the nodes did and in which order.
pub fn shape(o: &Outcome) -> u64 {
    let mut x = 0xcbf29ce484222325u64;
    let mut eat = |v: u64| {
        x ^= v;
        x = x.wrapping_mul(0x100000001b3);
        x ^= x >> 29;
    };
    for e in &o.trace {
        let (k, h, r, s) = match &e.k {
            K::Start { init, wal } => (1, *init, *wal as u64, 0),
            K::Crash { .. } => (2, 0, 0, 0),
            K::WalSave { info: Some(w), ok } => (3, w.height, w.round, step_of(w) as u64 * 2 + *ok as u64),
            K::Send { msg, ok, .. } => {
                let p = msg_pos(msg);
                (4, p.0, p.1, p.2 as u64 * 2 + *ok as u64)
            }
            K::Recv { msg, .. } => {
                let p = msg_pos(msg);
                (5, p.0, p.1, p.2 as u64)
            }
            K::Checked { h, ok, .. } => (6, *h, 0, *ok as u64),
            K::Commit { h, c } => (7, *h, c.proof.round, 0),
            K::View { h, r, .. } => (8, *h, *r, 0),
            K::Stop => (9, 0, 0, 0),
            _ => continue,
        };
        eat(e.slot as u64 * 16 + k);
        eat(h.wrapping_mul(1000).wrapping_add(r.wrapping_mul(16)).wrapping_add(s));
    }
    x
}

pub fn describe(o: &Outcome, st: &Stats) -> serde_json::Value {
    let c = &o.cfg;
    json!({
        "seed": c.seed,
        "roles": format!("{:?}", c.roles),
        "validator_sets": c.epochs.iter().map(|e| json!({"from": e.from, "slot/propose/vote": e.vals.iter().map(|v| format!("{}/{}/{}", v.0, v.1, v.2)).collect::<Vec<_>>(), "interval": e.interval})).collect::<Vec<_>>(),
        "network": format!("gst {} ms, delay {}..{} then {}..{}, drop {} dup {} slow {} permille, {} partitions, round adversary {}", c.net.gst, c.net.pre.lo, c.net.pre.hi, c.net.post.lo, c.net.post.hi, c.net.drop, c.net.dup, c.net.slow, c.net.parts.len(), c.net.adv.is_some()),
        "byzantine": c.byz.as_ref().map(|b| format!("attack weights {:?}, react {}, play {}", b.w, b.react, b.play)),
        "crashes": c.crashes.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>(),
        "faults": c.faults.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>(),
        "events": o.trace.len(),
        "virtual_ms": o.end,
        "observed": st.0,
    })
}

type Rule = fn(&Stats) -> bool;

pub fn judge(o: Outcome, live: bool, rule: Rule, verbose: bool) -> CaseResult {
    let mut r = CaseResult { evals: 1, ..Default::default() };
    if verbose {
        r.log.push(format!("{:#?}", o.cfg));
        for (i, e) in o.trace.iter().enumerate() {
            r.log.push(format!("{:>6} {}", i, show(e)));
        }
    }
    let v = monitors::safety(&o);
    r.viols = v.viols;
    r.stats = v.stats;
    if live && !o.reached {
        r.viols.push(Viol {
            prop: "LIVE",
            idx: o.trace.len(),
            msg: format!("heights {:?} at {} ms of virtual time ({} events), network healthy since {} ms: no further progress within the bound", o.latest, o.end, o.trace.len(), o.cfg.net.gst),
        });
    } else if o.capped {
        r.inconclusive = true;
    }
    if live && o.reached {
        let x = o.end.saturating_sub(o.cfg.net.gst) / o.cfg.epochs[0].interval.max(1);
        r.stats.add("recovery_intervals_total", x);
    }
    if rule(&r.stats) {
        r.shapes.push(shape(&o));
        r.stats.add("nontrivial_cases", 1);
        r.sample = Some(describe(&o, &r.stats));
    }
    r
}

fn sim_group(name: &'static str, quick: u64, thorough: u64, p: Profile, rule: Rule) -> Group {
    Group {
        name,
        quick,
        thorough,
        run: Box::new(move |seed, _i, verbose| {
            let cfg = gen::gen(seed, &p);
            judge(run_case(cfg), p.live, rule, verbose)
        }),
    }
}

fn scen_group(name: &'static str, quick: u64, thorough: u64, m: Mix) -> Group {
    Group { name, quick, thorough, run: Box::new(move |seed, _i, verbose| scen::run_script(seed, &m, verbose)) }
}

fn burst_group(name: &'static str, quick: u64, thorough: u64) -> Group {
    Group { name, quick, thorough, run: Box::new(move |seed, _i, verbose| scen::run_bursts(seed, &Mix::bursts(), verbose)) }
}

fn stop_group(name: &'static str, quick: u64, thorough: u64, p: Profile) -> Group {
    Group { name, quick, thorough, run: Box::new(move |seed, _i, verbose| calm::stops(seed, &p, verbose)) }
}

fn live(mut p: Profile) -> Profile {
    p.live = true;
    p.byz_after = 500;
    p
}

const ASSUME: [&str; 3] = [
    "signatures and hashes of the mock crypto are unforgeable; Byzantine validators hold less than one third of the vote weight of every height",
    "the application, log and network adapters behave as the trait documentation says, apart from the injected faults",
    "virtual time: nodes run on tokio's paused clock and a shimmed CLOCK_MONOTONIC, one thread per case",
];

fn check(id: &'static str, rule: &'static str, owns: &[&'static str], groups: Vec<Group>, need: &[(&'static str, u64)]) -> Check {
    Check { id, rule, owns: owns.to_vec(), groups, assumptions: ASSUME.to_vec(), need: need.to_vec() }
}

/// Long disturbed phases: many rounds before the network heals.
fn rough() -> Profile {
    let mut p = Profile::base();
    p.gst = (15, 80);
    p.adv = 700;
    p.nmin = 3;
    p
}

fn crashy() -> Profile {
    let mut p = Profile::base();
    p.crash = 600;
    p.opcrash = 800;
    p.fault = 50;
    p
}


fn faulty() -> Profile {
    let mut p = Profile::base();
    p.fault = 1000;
    p.crash = 50;
    p.opcrash = 50;
    p.byz = 200;
    p
}

fn hostile() -> Profile {
    let mut p = Profile::base();
    p.byz = 1000;
    p.twin = 100;
    p.nmin = 4;
    p
}

/// mostly garbage, extreme values, forged evidence
fn garbage() -> Profile {
    let mut p = hostile();
    p.attacks = Some([1, 2, 2, 2, 3, 1, 3, 3, 2, 3, 6, 6]);
    p
}

/// the Byzantine leader works on one half of the cluster against the other
fn split() -> Profile {
    let mut p = hostile();
    p.split = 1000;
    p.twin = 0;
    p.nmax = 7;
    p
}

/// forged evidence of every kind
fn forgery() -> Profile {
    let mut p = hostile();
    p.attacks = Some([2, 1, 4, 3, 6, 3, 4, 4, 3, 4, 0, 2]);
    p.epochs = 400;
    p.weights = 600;
    p
}

fn changing() -> Profile {
    let mut p = Profile::base();
    p.epochs = 1000;
    p.weights = 700;
    p.nmin = 3;
    p
}

fn moved(s: &Stats) -> bool {
    s.get("commits") > 0 && s.get("view_changes") + s.get("crashes") > 0
}

pub fn all() -> Vec<Check> {
    let base = Profile::base;
    let mut v = vec![];
    let mix = "randomly composed clusters of real nodes (1..10 validators, weights, validator-set changes, loss, duplication, reordering, partitions, round-structured adversary, Byzantine actor, twins, crashes and restarts from the log, storage and application faults), every case a function of its seed";
    let rule = |x: &str| -> &'static str { Box::leak(format!("{}; non-trivial: {}; distinct: by the sequence of sends, deliveries, log records, checks, commits and crashes", mix, x).into_boxed_str()) };
    let agreed: Rule = |s| s.get("cross_checked_commits") > 0 && s.get("view_changes") + s.get("crashes") > 0;
    v.push(check(
        "C01",
        rule("at least two correct nodes committed the same height and a round change or crash happened"),
        &["C01"],
        vec![
            sim_group("mixed", 2500, 60000, base(), agreed),
            sim_group("rough", 3500, 60000, rough(), agreed),
            sim_group("crashy", 1500, 30000, crashy(), agreed),
            sim_group("split", 1500, 30000, split(), agreed),
            Group { name: "threads", quick: 16, thorough: 300, run: Box::new(|s, _i, _v| soak::threads(s, 20)) },
        ],
        &[("cross_checked_commits", 1000)],
    ));
    v.push(check(
        "C02",
        rule("a commit's proof was verified and a round change, crash, weight or set change was in play"),
        &["C02"],
        vec![
            sim_group("mixed", 2000, 40000, base(), moved),
            sim_group("forged evidence", 2000, 60000, forgery(), moved),
            sim_group("split", 1000, 30000, split(), moved),
            sim_group("changing sets", 1500, 30000, changing(), moved),
            burst_group("bursts", 2000, 60000),
        ],
        &[("proofs_verified", 1000)],
    ));
    v.push(check(
        "C03",
        rule("some block check was rejected, or a block arrived with content that does not match, or a round change happened"),
        &["C03"],
        vec![
            sim_group("bad blocks", 4000, 80000, { let mut p = hostile(); p.attacks = Some([4, 8, 2, 2, 1, 1, 1, 1, 2, 1, 0, 1]); p.reject = 500; p.slow_app = 500; p }, |s| s.get("rejected_checks") > 0 && s.get("commits") > 0),
            sim_group("rejections", 2000, 40000, { let mut p = base(); p.reject = 1000; p.slow_app = 700; p }, |s| s.get("rejected_checks") > 0 && s.get("commits") > 0),
            burst_group("bursts", 3000, 60000),
            scen_group("recurring blocks", 4000, 60000, Mix::blocks()),
        ],
        &[("rejected_checks", 500), ("commits", 1000)],
    ));
    v.push(check(
        "C04",
        rule("a round change or a crash happened"),
        &["C04"],
        vec![
            sim_group("crashy", 3500, 80000, crashy(), moved),
            sim_group("mixed", 1500, 40000, base(), moved),
            sim_group("lagging and synced", 1500, 40000, { let mut p = rough(); p.style_b = 500; p.crash = 400; p }, moved),
            scen_group("scripted", 1500, 40000, Mix::restarts()),
            burst_group("bursts", 2000, 60000),
        ],
        &[("exposures", 10000), ("crashes", 500)],
    ));
    v.push(check(
        "C05",
        rule("a node voted or proposed while it was locked"),
        &["C05"],
        vec![
            sim_group("rough", 3000, 80000, rough(), |s| s.get("exposures_while_locked") > 0),
            sim_group("hostile", 1500, 40000, { let mut p = forgery(); p.gst = (15, 60); p.adv = 700; p }, |s| s.get("exposures_while_locked") > 0),
            sim_group("crashy", 1500, 40000, { let mut p = crashy(); p.gst = (15, 60); p.adv = 600; p }, |s| s.get("exposures_while_locked") > 0),
            scen_group("scripted", 1500, 40000, Mix::base()),
            scen_group("scripted locks", 4000, 60000, Mix::locked()),
            burst_group("bursts", 2000, 60000),
        ],
        &[("exposures_while_locked", 2000), ("locked_proposals", 300)],
    ));
    v.push(check(
        "C06",
        rule("certificates were published and a round change or crash happened"),
        &["C06"],
        vec![
            sim_group("forged evidence", 3500, 80000, forgery(), |s| s.get("qcs") > 0 && s.get("view_changes") > 0),
            sim_group("rough", 1500, 40000, rough(), |s| s.get("qcs") > 0 && s.get("view_changes") > 0),
            sim_group("crashy", 1000, 30000, crashy(), |s| s.get("qcs") > 0 && s.get("view_changes") > 0),
            scen_group("scripted", 1500, 40000, Mix::hostile()),
            burst_group("bursts", 2000, 60000),
        ],
        &[("qcs", 5000), ("locked_proposals", 100)],
    ));
    v.push(check(
        "C07",
        rule("Byzantine or outsider messages were delivered and a round change or crash happened"),
        &["C07"],
        vec![
            sim_group("forged evidence", 4000, 80000, forgery(), moved),
            sim_group("changing sets", 1500, 40000, { let mut p = changing(); p.byz = 800; p }, moved),
            sim_group("rough", 1000, 30000, rough(), moved),
            scen_group("scripted", 3000, 60000, Mix::hostile()),
            burst_group("bursts", 5000, 60000),
        ],
        &[("wal_records", 10000), ("view_changes", 1000)],
    ));
    v.push(check(
        "C08",
        rule("log records were written, some of them failing or followed by a crash"),
        &["C08"],
        vec![
            sim_group("faulty storage", 3000, 60000, { let mut p = faulty(); p.slow_app = 600; p.gst = (10, 60); p.adv = 600; p }, |s| s.get("wal_records") > 0 && s.get("wal_failures") + s.get("crashes") > 0),
            sim_group("crashy", 2000, 50000, crashy(), |s| s.get("wal_records") > 0 && s.get("crashes") > 0),
            sim_group("rough", 1500, 30000, rough(), |s| s.get("exposures_while_locked") > 0),
            scen_group("scripted", 1500, 40000, Mix::restarts()),
        ],
        &[("wal_records", 10000), ("wal_failures", 300)],
    ));
    v.push(check(
        "C09",
        rule("at least one crash and restart from the log"),
        &["C09", "PANIC", "DIED", "LIVE", "SPIN", "C04", "C05", "C08", "C10", "C11"],
        vec![
            sim_group("crash at random operations", 3000, 60000, live(crashy()), |s| s.get("crashes") > 0),
            sim_group("whole cluster", 1500, 30000, { let mut p = live(crashy()); p.crash = 1000; p }, |s| s.get("crashes") > 0),
            scen_group("scripted", 3000, 60000, Mix::restarts()),
        ],
        &[("crashes", 1000), ("redeliveries", 20)],
    ));
    v.push(check(
        "C10",
        rule("several heights were committed and a crash, status or failed commit was in play"),
        &["C10"],
        vec![
            sim_group("crashy", 2500, 60000, { let mut p = crashy(); p.after = (2, 5); p }, |s| s.get("redeliveries") > 0 || moved(s)),
            sim_group("faulty", 2000, 40000, faulty(), moved),
            sim_group("lagging and synced", 1500, 40000, { let mut p = rough(); p.style_b = 500; p.after = (2, 5); p }, moved),
            scen_group("scripted", 1500, 40000, Mix::status()),
            burst_group("bursts", 2000, 60000),
        ],
        &[("commits", 5000), ("redeliveries", 50)],
    ));
    v.push(check(
        "C11",
        rule("a round change or a crash happened"),
        &["C11"],
        vec![
            sim_group("crashy", 2000, 60000, crashy(), moved),
            sim_group("rough", 2000, 40000, rough(), moved),
            sim_group("hostile", 2000, 40000, forgery(), moved),
            scen_group("scripted", 1500, 40000, Mix::base()),
            burst_group("bursts", 2000, 60000),
        ],
        &[("exposures", 10000), ("view_changes", 1000)],
    ));
    v.push(check(
        "C12",
        rule("the network was disturbed until some instant, and the nodes had to recover from what that left behind"),
        &["C12", "LIVE", "SPIN", "HANG"],
        vec![
            sim_group("rough", 3000, 60000, live({ let mut p = rough(); p.adv = 900; p }), |s| s.get("view_changes") > 0),
            sim_group("mixed", 2000, 40000, live(base()), |s| s.get("view_changes") > 0),
            sim_group("hostile", 1500, 40000, live({ let mut p = forgery(); p.down = 400; p }), |s| s.get("view_changes") > 0),
            scen_group("scripted", 3000, 60000, Mix::chokes()),
        ],
        &[("view_changes", 2000)],
    ));
    v.push(check(
        "C14",
        rule("Byzantine members or outsiders sent garbage, extreme values or forged evidence"),
        &["PANIC", "DIED", "SPIN", "LIVE", "HANG"],
        vec![
            sim_group("garbage", 4000, 80000, live(garbage()), |s| s.get("deliveries") > 0),
            sim_group("forged evidence", 1500, 40000, live(forgery()), |s| s.get("deliveries") > 0),
            burst_group("bursts", 2000, 60000),
        ],
        &[("deliveries", 50000)],
    ));
    v.push(check(
        "C20",
        rule("validator sets, weights or timing changed between heights and a status or commit moved a node across such a change"),
        &["C20", "C23"],
        vec![
            sim_group("changing sets", 4000, 80000, changing(), |s| s.get("statuses") > 0 && s.get("heights_committed") > 1),
            sim_group("lagging and synced", 1500, 40000, { let mut p = changing(); p.gst = (15, 60); p.adv = 700; p.crash = 400; p }, |s| s.get("statuses") > 0 && s.get("heights_committed") > 1),
            sim_group("forged evidence", 1500, 40000, { let mut p = forgery(); p.epochs = 1000; p }, |s| s.get("statuses") > 0 && s.get("deliveries") > 0),
            scen_group("scripted", 3000, 60000, Mix::status()),
            burst_group("bursts", 2000, 60000),
        ],
        &[("statuses", 3000)],
    ));
    v.push(check(
        "C24",
        rule("round changes were reported and judged"),
        &["C24"],
        vec![
            sim_group("rough", 3000, 60000, rough(), |s| s.get("view_reports_judged") > 0),
            sim_group("mixed", 2000, 40000, base(), |s| s.get("view_reports_judged") > 0),
            scen_group("scripted", 3000, 60000, Mix::base()),
        ],
        &[
            ("view_reports_judged", 2000),
            ("reason_no_proposal", 200),
            ("reason_not_checked", 100),
            ("reason_no_prevote_qc", 100),
            ("reason_no_precommit_qc", 50),
            ("reason_leader_prevotes", 200),
            ("reason_leader_precommits", 50),
            ("reason_higher_prevote_qc", 20),
            ("reason_higher_precommit_qc", 20),
            ("reason_higher_choke_qc", 20),
        ],
    ));
    v.push(check(
        "C28",
        rule("storage, application, signing or network calls failed or hung for a while"),
        &["PANIC", "DIED", "LIVE", "SPIN", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C10"],
        vec![
            sim_group("faulty", 4000, 80000, live(faulty()), moved),
            sim_group("faulty storage", 1500, 40000, live({ let mut p = faulty(); p.slow_app = 600; p.adv = 600; p }), |s| s.get("wal_failures") > 0),
        ],
        &[("wal_failures", 300)],
    ));
    let sc = "one real node among scripted validators on virtual time; every input (valid, early, late, far, forged, status, silence, crash and restart) goes into a quiet node and everything it sends, commits and reports, and when, is compared with a reference model written from the protocol; non-trivial: more than three outputs matched; distinct: by the sequence of sends, deliveries, log records, checks, commits and crashes";
    v.push(check(
        "C13",
        "clusters of 1..10 correct validators with random weights, validator-set changes, timing and message delays of at most a twentieth of the interval, duplication and reordering, but no loss; non-trivial: several commits; distinct: by the sequence of sends, deliveries, log records, checks and commits",
        &["C13", "PANIC", "DIED", "SPIN"],
        vec![Group { name: "undisturbed", quick: 5000, thorough: 100000, run: Box::new(|seed, _i, verbose| calm::calm(seed, verbose)) }],
        &[("undisturbed_commits_timed", 10000)],
    ));
    v.push(check(
        "C21",
        "nodes of simulated clusters and single scripted nodes told to stop at a random instant, in any step, before their first height, outside the validator set, with checks and calls in flight, while peers go on sending; non-trivial: a stop was judged; distinct: by the sequence of sends, deliveries, log records, checks, commits and crashes",
        &["C21", "PANIC", "DIED", "SPIN", "HANG"],
        vec![
            stop_group("stopped nodes", 2000, 40000, Profile { byz: 200, ..base() }),
            Group { name: "threads", quick: 12, thorough: 200, run: Box::new(|s, _i, _v| soak::threads(s, 12)) },
            stop_group("stopped nodes, faulty", 1500, 30000, Profile { fault: 1000, slow_app: 800, crash: 200, ..base() }),
            scen_group("scripted", 3000, 60000, Mix::stops()),
        ],
        &[("stops", 3000)],
    ));
    v.push(check(
        "C19",
        sc,
        &["C19"],
        vec![
            scen_group("timeouts", 3000, 80000, Mix::timers()),
            scen_group("everything", 2000, 60000, Mix::base()),
        ],
        &[("timeouts_matched", 5000)],
    ));
    v.push(check(
        "C22",
        sc,
        &["C22", "C06", "C07"],
        vec![scen_group("early and far", 3000, 80000, Mix::early()), scen_group("everything", 2000, 60000, Mix::base()), burst_group("bursts", 5000, 60000)],
        &[("inputs_early", 5000), ("inputs_far_or_old", 3000)],
    ));
    v.push(check(
        "C23",
        sc,
        &["C23"],
        vec![scen_group("everything", 3000, 80000, Mix::base()), scen_group("hostile input", 2000, 60000, Mix::hostile()), sim_group("faulty storage", 1500, 40000, { let mut p = faulty(); p.gst = (10, 60); p.adv = 600; p.style_b = 500; p }, moved)],
        &[("inputs_current", 10000), ("outputs_matched", 10000)],
    ));
    v.push(check(
        "C15",
        "values of every message, certificate, proof, status, node and log type with empty, boundary and maximal fields, also neighbours of each other; records and messages of running clusters, also with fields replaced; signatures of a node at heights and rounds whose encodings could run together; non-trivial: every case; distinct: by seed of values, or by the execution",
        &["C15"],
        vec![
            Group { name: "values", quick: 500, thorough: 40000, run: Box::new(|s, _i, v| codec::values(s, v)) },
            Group { name: "records", quick: 1500, thorough: 40000, run: Box::new(|s, _i, v| codec::records(s, v)) },
            Group { name: "signatures", quick: 1500, thorough: 40000, run: Box::new(|s, _i, v| codec::signatures(s, v)) },
        ],
        &[("values_encoded", 100000), ("signatures_compared", 5000), ("records_saved", 10000), ("records_brake", 100), ("records_commit", 100)],
    ));
    v.push(check(
        "C16",
        "byte strings damaged at random or in their structure (items dropped, repeated, swapped, nested, of other types, with non-minimal, wrong and huge lengths) from valid encodings of every type, each decoded as every type; damaged json and bincode; nodes started on undecodable logs; non-trivial: every input; distinct: by the input",
        &["C16", "PANIC", "DIED", "SPIN"],
        vec![
            Group { name: "bytes", quick: 3000, thorough: 200000, run: Box::new(|s, _i, v| codec::decoders(s, v)) },
            Group { name: "texts", quick: 800, thorough: 40000, run: Box::new(|s, _i, v| codec::texts(s, v)) },
            Group { name: "undecodable log", quick: 1500, thorough: 30000, run: Box::new(|s, _i, v| codec::bad_log(s, v)) },
        ],
        &[("decoded_values", 20000), ("decoding_errors", 100000), ("undecodable_logs", 1000)],
    ));
    v.push(check(
        "C17",
        "lists of 1..260 validators in random orders, any heights and rounds, in rotation and (in a build with random_leader) weighted mode; votes, proposals and certificates of running clusters in both modes; non-trivial: every list, or an execution with more than two rounds; distinct: by list, or by the execution",
        &["C17", "PANIC"],
        {
            let mut g = vec![
                Group { name: "rotation", quick: 1200, thorough: 30000, run: Box::new(|s, _i, v| codec::leaders(s, v)) },
                Group { name: "clusters", quick: 1500, thorough: 30000, run: Box::new(|s, _i, v| codec::led(s, v)) },
                scen_group("scripted", 1500, 40000, Mix::jumps()),
            ];
            if codec::weighted() {
                g.push(Group { name: "weighted", quick: 1200, thorough: 30000, run: Box::new(|s, _i, v| codec::leaders(s, v)) });
                g.push(Group { name: "weighted clusters", quick: 1200, thorough: 30000, run: Box::new(|s, _i, v| codec::led(s, v)) });
                g.push(scen_group("weighted scripted", 1200, 30000, Mix::jumps()));
            } else {
                g.push(elsewhere("weighted", 600, 20000, "C17", "OVMON_WEIGHTED"));
                g.push(elsewhere("weighted clusters", 1000, 20000, "C17", "OVMON_WEIGHTED"));
                g.push(elsewhere("weighted scripted", 600, 20000, "C17", "OVMON_WEIGHTED"));
            }
            g
        },
        &[("leaders", 100000), ("rotations", 5000), ("distributions", 300), ("votes_routed", 5000), ("proposals_judged", 2000)],
    ));
    v.push(check(
        "C18",
        "bitmaps of random subsets of 1..300 validators with stray bits, stray bytes and missing bytes; nodes that lead among up to 90 validators and build certificates from votes in random order; nodes that read such certificates; non-trivial: every bitmap, or an execution with a certificate; distinct: by seed, or by the execution",
        &["C18"],
        vec![
            Group { name: "helper", quick: 2000, thorough: 60000, run: Box::new(|s, _i, v| codec::bitmaps(s, v)) },
            Group { name: "nodes", quick: 2500, thorough: 60000, run: Box::new(|s, _i, v| codec::node_bitmaps(s, v)) },
        ],
        &[("bitmaps_read", 50000), ("certificates_built", 2000), ("certificates_read", 2000)],
    ));
    let mut c = check(
        "C26",
        "clusters of 1 to 7 nodes with an application that keeps nothing, over thousands of heights on virtual time: lost proposals and precommits, rejected blocks, nodes cut off and synced, late and doubled messages, slow commits, changing validator lists and timers, orderly stops and restarts; the least live bytes of the process over an early and a late stretch of heights are compared; evaluations: heights; non-trivial: a run that reached its last height; distinct: by the order of its messages",
        &["C26"],
        vec![Group { name: "long runs", quick: 32, thorough: 240, run: Box::new(|s, i, _v| soak::memory(s, if i % 8 == 7 { 9000 } else { 2400 })) }],
        &[("heights_run", 30000), ("live_bytes_read", 50000), ("view_changes", 5000), ("nodes_synced", 300)],
    );
    c.assumptions = vec!["live bytes are counted by the global allocator of the harness, which is the allocator of the nodes", "retention below 12 kB plus a sixteenth over half of a run is not seen"];
    v.push(c);
    let mut c = check(
        "C27",
        "clusters of 3 to 7 nodes on 2 to 8 real threads and the real clock, with lost, late and doubled messages, rejected blocks, nodes cut off, stops, aborted and restarted nodes and changing validator lists, in a native build with a hang monitor, under ThreadSanitizer and AddressSanitizer (std rebuilt with them), and small clusters under Miri; non-trivial: a run that reached its last height; distinct: by the order in which messages were sent",
        &["RACE", "MEMORY", "UB", "HANG", "DIED"],
        vec![
            Group { name: "threads", quick: 40, thorough: 600, run: Box::new(|s, _i, _v| soak::threads(s, 30)) },
            soak::san_group("sanitizer: thread", 40, 600, "tsan", 20),
            soak::san_group("sanitizer: address", 24, 400, "asan", 20),
            soak::san_group("interpreter", 8, 120, "miri", 1),
        ],
        &[("runs_on_threads", 20), ("runs_tsan", 20), ("runs_asan", 10), ("runs_miri", 4), ("restarts", 50), ("nodes_stopped", 200)],
    );
    c.assumptions = vec!["ThreadSanitizer and AddressSanitizer instrument the nodes, their dependencies and (thread) the standard library of the nightly toolchain", "Miri runs clusters of one to three nodes for a height or two"];
    v.push(c);
    v.push(check(
        "DEV",
        sc,
        &["PANIC", "DIED", "LIVE", "SPIN", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C19", "C20", "C22", "C23", "C24", "C25"],
        vec![
            scen_group("base", 4000, 40000, Mix::base()),
            scen_group("timers", 4000, 40000, Mix::timers()),
            scen_group("early", 4000, 40000, Mix::early()),
            scen_group("hostile", 4000, 40000, Mix::hostile()),
            scen_group("pace", 4000, 40000, Mix::pace()),
            scen_group("status", 4000, 40000, Mix::status()),
            scen_group("restarts", 4000, 40000, Mix::restarts()),
            scen_group("locks", 8000, 40000, Mix::locked()),
            burst_group("bursts", 8000, 40000),
            scen_group("recurring blocks", 4000, 60000, Mix::blocks()),
        ],
        &[],
    ));
    v.push(check(
        "C25",
        sc,
        &["C25"],
        vec![scen_group("pacing", 4000, 80000, Mix::pace())],
        &[("outputs_matched", 5000)],
    ));
    v
}
