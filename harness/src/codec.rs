//! C15..C18: encodings, decoders, leader election and voter bitmaps, as pure functions under
//! generated input and as used by running nodes.
use crate::app::*;
use crate::prng::Rng;
use crate::run::CaseResult;
use crate::sim::*;
use bytes::Bytes;
use overlord::types::*;
use overlord::{DurationConfig, WalInfo};
use rlp::{Decodable, Encodable, Rlp, RlpStream};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Debug;
use std::sync::Arc;
use std::time::Duration;
use tokio::time::sleep;

// ------------------------------------------------------------------ values

fn num(r: &mut Rng) -> u64 {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => r.range(2, 10),
        3 => 127 + r.below(3),
        4 => 255 + r.below(3),
        5 => u64::MAX - r.below(3),
        6 => (1u64 << r.range(8, 63)).wrapping_sub(r.below(3)),
        7 => 1u64 << r.range(8, 63),
        8 => r.next(),
        9 => r.next() >> r.below(64),
        _ => r.below(1000),
    }
}

fn blob(r: &mut Rng) -> Bytes {
    let n = match r.below(14) {
        0 | 1 => 0,
        2 => return Bytes::from(vec![*r.pick(&[0u8, 1, 0x7f, 0x80, 0xff])]),
        3 => 1,
        4 => r.range(2, 19) as usize,
        5 => r.range(54, 57) as usize,
        6 => r.range(255, 257) as usize,
        7 => r.range(58, 1200) as usize,
        8 | 9 => 20,
        10 => {
            if r.pm(20) {
                70_000
            } else {
                64
            }
        }
        _ => 32,
    };
    let mut v = r.bytes(n);
    if r.pm(100) {
        v.iter_mut().for_each(|b| *b = 0);
    }
    Bytes::from(v)
}

fn ty(r: &mut Rng) -> VoteType {
    vty(r.range(1, 2) as u8)
}

fn blk(r: &mut Rng) -> Blk {
    Blk { height: num(r), proposer: r.next() as u32, nonce: num(r), body: blob(r).to_vec(), alt: r.next() as u8 }
}

fn agg_sig(r: &mut Rng) -> AggregatedSignature {
    AggregatedSignature { signature: blob(r), address_bitmap: blob(r) }
}

fn agg_vote(r: &mut Rng) -> AggregatedVote {
    AggregatedVote { signature: agg_sig(r), vote_type: ty(r), height: num(r), round: num(r), block_hash: blob(r), leader: blob(r) }
}

fn agg_choke(r: &mut Rng) -> AggregatedChoke {
    let n = r.below(*r.clone().pick(&[1, 2, 5, 80]));
    AggregatedChoke { height: num(r), round: num(r), signature: blob(r), voters: (0..n).map(|_| blob(r)).collect() }
}

fn from(r: &mut Rng) -> UpdateFrom {
    match r.below(3) {
        0 => UpdateFrom::PrevoteQC(agg_vote(r)),
        1 => UpdateFrom::PrecommitQC(agg_vote(r)),
        _ => UpdateFrom::ChokeQC(agg_choke(r)),
    }
}

fn polc(r: &mut Rng) -> PoLC {
    PoLC { lock_round: num(r), lock_votes: agg_vote(r) }
}

fn proposal(r: &mut Rng) -> Proposal<Blk> {
    Proposal { height: num(r), round: num(r), content: blk(r), block_hash: blob(r), lock: if r.pm(500) { Some(polc(r)) } else { None }, proposer: blob(r) }
}

fn vote(r: &mut Rng) -> Vote {
    Vote { height: num(r), round: num(r), vote_type: ty(r), block_hash: blob(r) }
}

fn proof(r: &mut Rng) -> Proof {
    Proof { height: num(r), round: num(r), block_hash: blob(r), signature: agg_sig(r) }
}

fn node(r: &mut Rng) -> Node {
    let mut n = Node::new(blob(r));
    n.set_propose_weight(num(r) as u32);
    n.set_vote_weight(num(r) as u32);
    n
}

fn ratios(r: &mut Rng) -> DurationConfig {
    DurationConfig::new(num(r), num(r), num(r), num(r))
}

fn status(r: &mut Rng) -> Status {
    // an absent interval or timer configuration travels as zeros
    let n = r.below(*r.clone().pick(&[1, 2, 5, 120]));
    Status {
        height: num(r),
        interval: if r.pm(400) { None } else { Some(num(r).max(1)) },
        timer_config: if r.pm(400) { None } else { Some(ratios(r)).filter(|c| *c != DurationConfig::default()) },
        authority_list: (0..n).map(|_| node(r)).collect(),
    }
}

fn choke(r: &mut Rng) -> Choke {
    Choke { height: num(r), round: num(r), from: from(r) }
}

/// A log record as its documented layout has it: height, round, step, optional lock, cause.
fn wal_bytes(h: u64, rd: u64, step: u8, lock: Option<(u64, &AggregatedVote, &[u8])>, f: &UpdateFrom) -> Vec<u8> {
    let mut s = RlpStream::new_list(5);
    s.append(&h).append(&rd).append(&step);
    match lock {
        None => {
            s.begin_list(0);
        }
        Some((lr, q, c)) => {
            s.begin_list(1);
            s.begin_list(3);
            s.append(&lr).append(q).append(&c.to_vec());
        }
    }
    s.append(f);
    s.out().to_vec()
}

fn wal(r: &mut Rng) -> Option<WalInfo<Blk>> {
    let f = from(r);
    let lock = if r.pm(600) { Some((num(r), agg_vote(r), blk_bytes(&blk(r)))) } else { None };
    let b = wal_bytes(num(r), num(r), r.below(5) as u8, lock.as_ref().map(|(a, b, c)| (*a, b, c.as_slice())), &f);
    rlp::decode(&b).ok()
}

// ------------------------------------------------------------------ round trips

fn short(x: &impl Debug) -> String {
    let s = format!("{:?}", x);
    s.chars().take(300).collect()
}

fn trip<T: Encodable + Decodable + PartialEq + Debug>(out: &mut CaseResult, what: &str, x: &T) -> Vec<u8> {
    out.stats.add("values_encoded", 1);
    let b = rlp::encode(x).to_vec();
    match rlp::decode::<T>(&b) {
        Ok(y) if &y == x => {}
        Ok(y) => out.bad("C15", format!("{} comes back changed from its encoding: {} became {}", what, short(x), short(&y))),
        Err(e) => out.bad("C15", format!("{} does not decode from its own encoding ({:?}): {}", what, e, short(x))),
    }
    // as an element among others
    let mut s = RlpStream::new_list(3);
    s.append(x).append(&7u64).append(x);
    let l = s.out().to_vec();
    let r = Rlp::new(&l);
    match (r.val_at::<T>(0), r.val_at::<u64>(1), r.val_at::<T>(2)) {
        (Ok(a), Ok(7), Ok(c)) if &a == x && &c == x => {}
        _ => out.bad("C15", format!("{} does not survive inside a list: {}", what, short(x))),
    }
    b
}

fn serde_trip<T: Serialize + DeserializeOwned + PartialEq + Debug>(out: &mut CaseResult, what: &str, x: &T) {
    out.stats.add("values_serialized", 1);
    match serde_json::to_string(x).map_err(|e| e.to_string()).and_then(|s| serde_json::from_str::<T>(&s).map_err(|e| e.to_string())) {
        Ok(y) if &y == x => {}
        Ok(y) => out.bad("C15", format!("{} comes back changed from json: {} became {}", what, short(x), short(&y))),
        Err(e) => out.bad("C15", format!("{} does not survive json ({}): {}", what, e, short(x))),
    }
    match bincode::serialize(x).map_err(|e| e.to_string()).and_then(|s| bincode::deserialize::<T>(&s).map_err(|e| e.to_string())) {
        Ok(y) if &y == x => {}
        Ok(y) => out.bad("C15", format!("{} comes back changed from bincode: {} became {}", what, short(x), short(&y))),
        Err(e) => out.bad("C15", format!("{} does not survive bincode ({}): {}", what, e, short(x))),
    }
}

/// Distinct values must have distinct encodings.
struct Table<T>(HashMap<Vec<u8>, T>);
impl<T: PartialEq + Debug + Clone> Table<T> {
    fn add(&mut self, out: &mut CaseResult, what: &str, b: Vec<u8>, x: &T) {
        if let Some(y) = self.0.get(&b) {
            if y != x {
                out.bad("C15", format!("{} share their encoding: {} and {}", what, short(x), short(y)));
            }
            return;
        }
        out.stats.add("encodings_compared", 1);
        self.0.insert(b, x.clone());
    }
}

fn near(r: &mut Rng, x: u64) -> u64 {
    match r.below(7) {
        0 => x.wrapping_add(1),
        1 => x.wrapping_sub(1),
        2 => x ^ (1 << r.below(64)),
        3 => x << 8,
        4 => x >> 8,
        5 => x as u32 as u64,
        _ => num(r),
    }
}

fn near_blob(r: &mut Rng, x: &Bytes) -> Bytes {
    let mut v = x.to_vec();
    match r.below(6) {
        0 => v.push(0),
        1 => v.insert(0, 0),
        2 => {
            v.pop();
        }
        3 if !v.is_empty() => {
            let i = r.usize(v.len());
            v[i] ^= 1 << r.below(8);
        }
        4 => v.reverse(),
        _ => return blob(r),
    }
    Bytes::from(v)
}

pub fn values(seed: u64, verbose: bool) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut out = CaseResult::default();
    let mut votes = Table(HashMap::new());
    let mut props = Table(HashMap::new());
    // vote, proposal: the signed bytes are the encoding itself
    for k in 0..60 {
        let mut v = vote(&mut r);
        let mut p = proposal(&mut r);
        for _ in 0..12 {
            let b = trip(&mut out, "a vote", &v);
            votes.add(&mut out, "two votes", b, &v);
            match r.below(4) {
                0 => v.height = near(&mut r, v.height),
                1 => v.round = near(&mut r, v.round),
                2 => v.vote_type = vty(3 - vt(&v.vote_type)),
                _ => v.block_hash = near_blob(&mut r, &v.block_hash),
            }
            if r.pm(100) {
                std::mem::swap(&mut v.height, &mut v.round);
            }
            let b = trip(&mut out, "a proposal", &p);
            props.add(&mut out, "two proposals", b, &p);
            match r.below(7) {
                0 => p.height = near(&mut r, p.height),
                1 => p.round = near(&mut r, p.round),
                2 => p.block_hash = near_blob(&mut r, &p.block_hash),
                3 => p.proposer = near_blob(&mut r, &p.proposer),
                4 => p.content.alt ^= 1,
                5 => p.lock = if p.lock.is_some() { None } else { Some(polc(&mut r)) },
                _ => {
                    if let Some(l) = &mut p.lock {
                        match r.below(3) {
                            0 => l.lock_round = near(&mut r, l.lock_round),
                            1 => l.lock_votes.round = near(&mut r, l.lock_votes.round),
                            _ => l.lock_votes.signature.address_bitmap = near_blob(&mut r, &l.lock_votes.signature.address_bitmap),
                        }
                    }
                }
            }
        }
        trip(&mut out, "a signed vote", &SignedVote { signature: blob(&mut r), vote: v.clone(), voter: blob(&mut r) });
        trip(&mut out, "a signed proposal", &SignedProposal { signature: blob(&mut r), proposal: p });
        trip(&mut out, "a proof of lock", &polc(&mut r));
        let q = agg_vote(&mut r);
        trip(&mut out, "an aggregated vote", &q);
        serde_trip(&mut out, "an aggregated vote", &q);
        let w = Vote { height: q.height, round: q.round, vote_type: q.vote_type.clone(), block_hash: q.block_hash.clone() };
        if q.to_vote() != w || rlp::encode(&q.to_vote()) != rlp::encode(&w) {
            out.bad("C15", format!("the vote behind a certificate is not the vote in it: {} of {}", short(&q.to_vote()), short(&q)));
        }
        let s = agg_sig(&mut r);
        trip(&mut out, "an aggregated signature", &s);
        serde_trip(&mut out, "an aggregated signature", &s);
        trip(&mut out, "a commit", &Commit { height: num(&mut r), content: blk(&mut r), proof: proof(&mut r) });
        trip(&mut out, "a proof", &proof(&mut r));
        let c = ratios(&mut r);
        trip(&mut out, "a timer configuration", &c);
        serde_trip(&mut out, "a timer configuration", &c);
        trip(&mut out, "a status", &status(&mut r));
        let n = node(&mut r);
        trip(&mut out, "a node", &n);
        serde_trip(&mut out, "a node", &n);
        let f = from(&mut r);
        trip(&mut out, "a cause", &f);
        serde_trip(&mut out, "a cause", &f);
        let c = choke(&mut r);
        trip(&mut out, "a choke", &c);
        trip(&mut out, "a signed choke", &SignedChoke { signature: blob(&mut r), choke: c, address: blob(&mut r) });
        let c = agg_choke(&mut r);
        trip(&mut out, "an aggregated choke", &c);
        serde_trip(&mut out, "an aggregated choke", &c);
        serde_trip(&mut out, "a vote type", &ty(&mut r));
        // log records
        let f = from(&mut r);
        let lock = if r.pm(600) { Some((num(&mut r), agg_vote(&mut r), blk(&mut r))) } else { None };
        let (h, rd, step) = (num(&mut r), num(&mut r), (k % 5) as u8);
        let lb = lock.as_ref().map(|x| blk_bytes(&x.2));
        let b = wal_bytes(h, rd, step, lock.as_ref().map(|x| (x.0, &x.1, lb.as_ref().unwrap().as_slice())), &f);
        match rlp::decode::<WalInfo<Blk>>(&b) {
            Err(e) => out.bad("C15", format!("a log record does not decode: {:?} (height {} round {} step {} lock {})", e, h, rd, step, lock.is_some())),
            Ok(w) => {
                let same = w.height == h
                    && w.round == rd
                    && step_of(&w) == step
                    && w.from == f
                    && match (&w.lock, &lock) {
                        (None, None) => true,
                        (Some(a), Some(b)) => a.lock_round == b.0 && a.lock_votes == b.1 && a.content == b.2,
                        _ => false,
                    };
                if !same {
                    out.bad("C15", format!("a log record of height {} round {} step {} decodes to {}", h, rd, step, short(&w)));
                }
                trip(&mut out, "a log record", &w);
                serde_trip(&mut out, "a log record", &w);
                if let Some(l) = &w.lock {
                    trip(&mut out, "a lock record", l);
                    serde_trip(&mut out, "a lock record", l);
                }
            }
        }
    }
    out.evals = out.stats.get("values_encoded") + out.stats.get("values_serialized");
    out.shapes.push(crate::prng::mix_all(&[seed, out.evals]));
    out.sample = Some(serde_json::json!({"seed": seed, "vote": short(&vote(&mut r)), "choke": short(&choke(&mut r)), "observed": out.stats.0}));
    if verbose {
        out.log.push(format!("{:?}", out.stats.0));
    }
    out
}

/// What running nodes send and record, encoded and decoded again, also with fields changed.
pub fn records(seed: u64, verbose: bool) -> CaseResult {
    let mut p = crate::gen::Profile::base();
    p.gst = (5, 30);
    p.adv = 600;
    let o = run_case(crate::gen::gen(seed, &p));
    let mut r = Rng::new(seed ^ 0x7ec0);
    let mut out = CaseResult { evals: 1, ..Default::default() };
    let mut steps: BTreeMap<u8, u64> = BTreeMap::new();
    for e in &o.trace {
        match &e.k {
            K::Codec { what } => out.bad("C15", format!("message of node {} does not survive its wire encoding: {}", e.slot, what)),
            K::WalSave { info: None, .. } => out.bad("C15", format!("node {} saved a log record that does not decode", e.slot)),
            K::WalSave { info: Some(w), .. } => {
                let mut w = (**w).clone();
                *steps.entry(step_of(&w)).or_default() += 1;
                trip(&mut out, "a saved log record", &w);
                serde_trip(&mut out, "a saved log record", &w);
                w.height = near(&mut r, w.height);
                w.round = near(&mut r, w.round);
                if r.pm(300) {
                    w.from = from(&mut r);
                }
                if let Some(l) = &mut w.lock {
                    l.lock_round = near(&mut r, l.lock_round);
                    l.content = blk(&mut r);
                    if r.pm(300) {
                        l.lock_votes = agg_vote(&mut r);
                    }
                }
                trip(&mut out, "a log record", &w);
                serde_trip(&mut out, "a log record", &w);
            }
            K::Commit { c, .. } => {
                trip(&mut out, "a commit", &**c);
            }
            K::Status { st, .. } => {
                if st.interval != Some(0) && st.timer_config.as_ref() != Some(&DurationConfig::default()) {
                    trip(&mut out, "a status", &**st);
                }
            }
            _ => {}
        }
    }
    out.stats.add("records_saved", steps.values().sum());
    for (s, n) in &steps {
        out.stats.add(["records_propose", "records_prevote", "records_precommit", "records_brake", "records_commit"][(*s as usize).min(4)], *n);
    }
    if steps.len() > 2 {
        out.shapes.push(crate::checks::shape(&o));
        out.sample = Some(serde_json::json!({"seed": seed, "records per step": steps.iter().map(|(k, v)| format!("{}: {}", k, v)).collect::<Vec<_>>(), "observed": out.stats.0}));
    }
    if verbose {
        for e in &o.trace {
            out.log.push(show(e));
        }
    }
    out
}

/// One node among silent validators at chosen, also extreme, heights.
async fn wait(ms: u64) {
    sleep(Duration::from_millis(ms)).await;
}

fn lone_cfg(seed: u64, n: usize) -> Cfg {
    let mut c = Cfg::plain(seed, n);
    c.roles = vec![Role::Puppet; n];
    c.roles[0] = Role::Honest;
    c.d_check = Lat::new(1, 1);
    c.d_get = Lat::new(1, 1);
    c.d_commit = Lat::new(1, 1);
    c.sync.every = 0;
    c
}

fn hand(w: &W, m: Msg) {
    deliver(w, 1, 0, Arc::new(m));
}

/// Everything a node signs at heights whose encodings could run together.
pub fn signatures(seed: u64, verbose: bool) -> CaseResult {
    let mut r = Rng::new(seed);
    let n = r.range(4, 7) as usize;
    let base = r.range(1, 300);
    let mut hs: BTreeSet<u64> = BTreeSet::new();
    for _ in 0..5 {
        let x = match r.below(7) {
            0 => base + 1,
            5 => base * *r.pick(&[10u64, 100, 1000]) + r.below(4),
            6 => base + r.range(2, 40),
            1 => base << 8,
            2 => base + (1 << *r.pick(&[8u32, 16, 32, 48, 62])),
            3 => base << *r.pick(&[16u32, 32, 40]),
            _ => base,
        };
        hs.insert(x);
    }
    let hs: Vec<u64> = hs.into_iter().collect();
    let mut c = lone_cfg(seed, n);
    c.epochs[0].interval = 200;
    let hs2 = hs.clone();
    let mut r2 = r.fork();
    let o = run_with(c, move |w| {
        Box::pin(async move {
            w.lock().slots[0].latest = hs2[0] - 1;
            start_node(&w, 0);
            for (i, h) in hs2.iter().enumerate() {
                if i > 0 {
                    w.lock().slots[0].latest = h - 1;
                    send_status(&w, 0, *h, true);
                }
                // consecutive rounds by chokes, or any rounds by certificates of the round before
                let mut rounds: Vec<u64> = if r2.pm(400) {
                    (0..r2.range(1, 3)).collect()
                } else {
                    let mut v: Vec<u64> = (0..r2.range(1, 4)).map(|_| *r2.pick(&[1, 2, 3, 10, 11, 16, 100, 255, 256, 1000, 65536, 1 << 32, 1 << 48, 1 << 62])).collect();
                    v.extend([0, 1]);
                    v
                };
                rounds.sort();
                rounds.dedup();
                let jump = rounds.last().copied().unwrap_or(0) + 1 > rounds.len() as u64 || r2.pm(300);
                for (k, rd) in rounds.clone().into_iter().enumerate() {
                    if r2.pm(500) {
                        // the leader's proposal
                        let auth = w.auth(*h);
                        let l = ref_leader(*h, rd, &auth);
                        let b = Blk { height: *h, proposer: 9, nonce: rd, body: vec![], alt: 0 };
                        let p = Proposal { height: *h, round: rd, block_hash: b.hash(), content: b, lock: None, proposer: l.clone() };
                        let sig = sig_of(&l, &hash_msg(&rlp::encode(&p)));
                        hand(&w, OverlordMsg::SignedProposal(SignedProposal { signature: sig, proposal: p }));
                    }
                    wait(200 * 6 * (1 << rd.min(5))).await;
                    if jump {
                        if let Some(next) = rounds.get(k + 1) {
                            let auth = w.auth(*h);
                            let me = w.addr(0);
                            let v = Vote { height: *h, round: next - 1, vote_type: VoteType::Precommit, block_hash: Bytes::new() };
                            let hash = hash_msg(&rlp::encode(&v));
                            let idx: Vec<usize> = (0..auth.len()).filter(|i| auth[*i].address != me).collect();
                            let sigs: Vec<Bytes> = idx.iter().map(|i| sig_of(&auth[*i].address, &hash)).collect();
                            hand(
                                &w,
                                OverlordMsg::AggregatedVote(AggregatedVote {
                                    signature: AggregatedSignature { signature: agg_of(&sigs), address_bitmap: bitmap(auth.len(), &idx) },
                                    vote_type: VoteType::Precommit,
                                    height: *h,
                                    round: next - 1,
                                    block_hash: Bytes::new(),
                                    leader: ref_leader(*h, next - 1, &auth),
                                }),
                            );
                            wait(20).await;
                        }
                        continue;
                    }
                    let from = UpdateFrom::PrecommitQC(AggregatedVote { signature: AggregatedSignature { signature: Bytes::new(), address_bitmap: Bytes::new() }, vote_type: VoteType::Precommit, height: 0, round: 0, block_hash: Bytes::new(), leader: Bytes::new() });
                    for s in 1..w.cfg.roles.len() {
                        let a = w.addr(s);
                        hand(&w, OverlordMsg::SignedChoke(SignedChoke { signature: sig_of(&a, &choke_hash(*h, rd)), choke: Choke { height: *h, round: rd, from: from.clone() }, address: a }));
                    }
                    wait(20).await;
                }
            }
            true
        })
    });
    let mut out = CaseResult { evals: 1, ..Default::default() };
    let me = o.addrs[0].clone();
    let mut seen: HashMap<Bytes, (u64, u64, u8, Bytes)> = HashMap::new();
    let mut rounds = BTreeSet::new();
    for e in &o.trace {
        if verbose {
            out.log.push(show(e));
        }
        let K::Send { msg, .. } = &e.k else { continue };
        let (sig, x) = match &**msg {
            OverlordMsg::SignedVote(v) if v.voter == me => (v.signature.clone(), (v.vote.height, v.vote.round, vt(&v.vote.vote_type), v.vote.block_hash.clone())),
            OverlordMsg::SignedChoke(c) if c.address == me => (c.signature.clone(), (c.choke.height, c.choke.round, 3, Bytes::new())),
            OverlordMsg::SignedProposal(p) if p.proposal.proposer == me => (p.signature.clone(), (p.proposal.height, p.proposal.round, 4, p.proposal.block_hash.clone())),
            _ => continue,
        };
        rounds.insert((x.0, x.1));
        out.stats.add("signatures_compared", 1);
        match seen.get(&sig) {
            Some(y) if *y != x => out.bad("C15", format!("one signature stands for {:?} and {:?}", (x.0, x.1, x.2, hx(&x.3)), (y.0, y.1, y.2, hx(&y.3)))),
            _ => {
                seen.insert(sig, x);
            }
        }
    }
    for p in &o.panics {
        out.bad(if crate::panics::is_harness(p) { "HARNESS" } else { "PANIC" }, p.clone());
    }
    if rounds.len() > 2 {
        out.shapes.push(crate::checks::shape(&o));
        out.sample = Some(serde_json::json!({"seed": seed, "heights": hs, "signed for (height, round)": rounds.len(), "observed": out.stats.0}));
    }
    out
}

// ------------------------------------------------------------------ decoders

#[derive(Clone, Debug)]
enum Tree {
    D(Vec<u8>),
    L(Vec<Tree>),
}

fn parse(r: &Rlp, depth: usize) -> Option<Tree> {
    if depth > 20 {
        return None;
    }
    if r.is_list() {
        let mut v = vec![];
        for i in 0..r.item_count().ok()? {
            v.push(parse(&r.at(i).ok()?, depth + 1)?);
        }
        Some(Tree::L(v))
    } else {
        Some(Tree::D(r.data().ok()?.to_vec()))
    }
}

fn header(out: &mut Vec<u8>, base: u8, n: usize, odd: bool, r: &mut Rng) {
    if n < 56 && !odd {
        out.push(base + n as u8);
        return;
    }
    // non-minimal, wrong or huge lengths when odd
    let claim = if odd { *r.pick(&[n as u64, n as u64 + 1, (n as u64).saturating_sub(1), u64::MAX, u64::MAX - 9, 1 << 63, 1 << 32, 1 << 31]) } else { n as u64 };
    let mut b: Vec<u8> = claim.to_be_bytes().iter().cloned().skip_while(|x| *x == 0).collect();
    if b.is_empty() || (odd && r.pm(300)) {
        b.insert(0, 0);
    }
    b.truncate(8);
    out.push(base + 55 + b.len() as u8);
    out.extend(b);
}

fn write(t: &Tree, odd: u32, r: &mut Rng) -> Vec<u8> {
    let o = r.pm(odd);
    let mut out = vec![];
    match t {
        Tree::D(d) => {
            if d.len() == 1 && d[0] < 0x80 && !o {
                out.push(d[0]);
            } else {
                header(&mut out, 0x80, d.len(), o, r);
                out.extend(d);
            }
        }
        Tree::L(v) => {
            let mut body = vec![];
            for x in v {
                body.extend(write(x, odd, r));
            }
            header(&mut out, 0xc0, body.len(), o, r);
            out.extend(body);
        }
    }
    out
}

fn size(t: &Tree) -> usize {
    match t {
        Tree::D(_) => 1,
        Tree::L(v) => 1 + v.iter().map(size).sum::<usize>(),
    }
}

fn edit(t: &mut Tree, at: &mut usize, r: &mut Rng, other: &Tree) {
    if *at == 0 {
        *at = usize::MAX;
        match t {
            Tree::D(d) => match r.below(11) {
                0 => d.clear(),
                1 => d.insert(0, 0),
                2 => *d = r.bytes(9),
                3 => *d = vec![0xff; 8],
                4 => *t = Tree::L(vec![]),
                5 => *t = Tree::L(vec![Tree::D(d.clone())]),
                6 => *d = vec![r.below(8) as u8],
                7 => *d = vec![r.next() as u8],
                8 => *t = other.clone(),
                9 => {
                    let n = r.usize(d.len() + 1);
                    d.truncate(n);
                }
                _ => *d = num(r).to_be_bytes().iter().cloned().skip_while(|x| *x == 0).collect(),
            },
            Tree::L(v) => match r.below(9) {
                0 => v.clear(),
                1 => {
                    v.pop();
                }
                2 => v.push(other.clone()),
                3 if !v.is_empty() => {
                    let i = r.usize(v.len());
                    let x = v[i].clone();
                    v.insert(i, x);
                }
                4 if v.len() > 1 => {
                    let i = r.usize(v.len());
                    let j = r.usize(v.len());
                    v.swap(i, j);
                }
                5 if !v.is_empty() => {
                    let i = r.usize(v.len());
                    v.remove(i);
                }
                6 => *t = Tree::D(r.bytes(3)),
                7 => {
                    for _ in 0..r.range(1, 60) {
                        *t = Tree::L(vec![t.clone()]);
                    }
                }
                _ => *t = other.clone(),
            },
        }
        return;
    }
    *at -= 1;
    if let Tree::L(v) = t {
        for x in v {
            if *at == usize::MAX {
                return;
            }
            edit(x, at, r, other);
        }
    }
}

fn pick_bytes(r: &mut Rng) -> Vec<u8> {
    match r.below(17) {
        0 => rlp::encode(&SignedProposal { signature: blob(r), proposal: proposal(r) }).to_vec(),
        1 => rlp::encode(&proposal(r)).to_vec(),
        2 => rlp::encode(&polc(r)).to_vec(),
        3 => rlp::encode(&agg_sig(r)).to_vec(),
        4 => rlp::encode(&agg_vote(r)).to_vec(),
        5 => rlp::encode(&SignedVote { signature: blob(r), vote: vote(r), voter: blob(r) }).to_vec(),
        6 => rlp::encode(&vote(r)).to_vec(),
        7 => rlp::encode(&Commit { height: num(r), content: blk(r), proof: proof(r) }).to_vec(),
        8 => rlp::encode(&proof(r)).to_vec(),
        9 => rlp::encode(&ratios(r)).to_vec(),
        10 => rlp::encode(&status(r)).to_vec(),
        11 => rlp::encode(&node(r)).to_vec(),
        12 => rlp::encode(&from(r)).to_vec(),
        13 => rlp::encode(&choke(r)).to_vec(),
        14 => rlp::encode(&SignedChoke { signature: blob(r), choke: choke(r), address: blob(r) }).to_vec(),
        15 => rlp::encode(&agg_choke(r)).to_vec(),
        _ => wal(r).map(|w| rlp::encode(&w).to_vec()).unwrap_or_default(),
    }
}

fn damage(b: &mut Vec<u8>, r: &mut Rng) {
    match r.below(8) {
        0 => {
            let n = r.usize(b.len() + 1);
            b.truncate(n);
        }
        1 => {
            let n = r.range(1, 9) as usize;
            b.extend(r.bytes(n));
        }
        2 if !b.is_empty() => {
            for _ in 0..r.range(1, 4) {
                let i = r.usize(b.len());
                b[i] ^= 1 << r.below(8);
            }
        }
        3 if !b.is_empty() => {
            let i = r.usize(b.len());
            b[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0x81, 0xb7, 0xb8, 0xbf, 0xc0, 0xc1, 0xf7, 0xf8, 0xff]);
        }
        4 if !b.is_empty() => {
            let i = r.usize(b.len());
            let j = i + r.usize(b.len() - i);
            b.drain(i..j);
        }
        5 if !b.is_empty() => {
            let i = r.usize(b.len());
            let n = r.range(1, 9) as usize;
            let x = r.bytes(n);
            b.splice(i..i, x);
        }
        6 => {
            let o = pick_bytes(r);
            let i = r.usize(b.len() + 1);
            b.truncate(i);
            let j = r.usize(o.len() + 1);
            b.extend_from_slice(&o[j..]);
        }
        _ => {
            let n = r.range(0, 40) as usize;
            *b = r.bytes(n);
            if r.pm(500) && !b.is_empty() {
                b[0] = *r.pick(&[0xc0, 0xc4, 0xf7, 0xf8, 0xf9, 0xff, 0xbf, 0xb8]);
            }
        }
    }
}

/// Input for the decoders: valid, damaged in bytes, or damaged in structure.
fn hostile(r: &mut Rng) -> Vec<u8> {
    let mut b = pick_bytes(r);
    if b.len() > 20_000 {
        b.truncate(3000);
    }
    match r.below(10) {
        0 => {}
        1..=4 => {
            for _ in 0..r.range(1, 3) {
                damage(&mut b, r);
            }
        }
        _ => {
            let o = pick_bytes(r);
            if let (Some(mut t), Some(u)) = (parse(&Rlp::new(&b), 0), parse(&Rlp::new(&o), 0)) {
                for _ in 0..r.range(1, 3) {
                    let mut at = r.usize(size(&t));
                    edit(&mut t, &mut at, r, &u);
                }
                let odd = *r.pick(&[0, 0, 100, 400]);
                b = write(&t, odd, r);
            }
            if r.pm(150) {
                damage(&mut b, r);
            }
        }
    }
    b
}

fn hex(b: &[u8]) -> String {
    b.iter().take(400).map(|x| format!("{:02x}", x)).collect()
}

fn feed<T: Encodable + Decodable + PartialEq + Debug>(out: &mut CaseResult, what: &'static str, b: &[u8]) {
    out.stats.add("decodings", 1);
    let res = std::panic::catch_unwind(|| match rlp::decode::<T>(b) {
        Err(_) => Ok(false),
        Ok(x) => {
            let c = rlp::encode(&x).to_vec();
            match rlp::decode::<T>(&c) {
                Ok(y) if y == x => Ok(true),
                Ok(y) => Err(format!("decodes as {} {} whose encoding decodes to {}", what, short(&x), short(&y))),
                Err(e) => Err(format!("decodes as {} {} whose encoding does not decode: {:?}", what, short(&x), e)),
            }
        }
    });
    match res {
        Ok(Ok(true)) => out.stats.add("decoded_values", 1),
        Ok(Ok(false)) => out.stats.add("decoding_errors", 1),
        Ok(Err(m)) => out.bad("C16", format!("{}: {}", hex(b), m)),
        Err(_) => {
            let p = crate::panics::take().join("; ");
            out.bad("C16", format!("decoding {} as {} panics: {}", hex(b), what, p));
        }
    }
}

fn feed_all(out: &mut CaseResult, b: &[u8]) {
    feed::<SignedProposal<Blk>>(out, "a signed proposal", b);
    feed::<Proposal<Blk>>(out, "a proposal", b);
    feed::<PoLC>(out, "a proof of lock", b);
    feed::<AggregatedSignature>(out, "an aggregated signature", b);
    feed::<AggregatedVote>(out, "an aggregated vote", b);
    feed::<SignedVote>(out, "a signed vote", b);
    feed::<Vote>(out, "a vote", b);
    feed::<Commit<Blk>>(out, "a commit", b);
    feed::<Proof>(out, "a proof", b);
    feed::<DurationConfig>(out, "a timer configuration", b);
    feed::<Status>(out, "a status", b);
    feed::<Node>(out, "a node", b);
    feed::<UpdateFrom>(out, "a cause", b);
    feed::<Choke>(out, "a choke", b);
    feed::<SignedChoke>(out, "a signed choke", b);
    feed::<AggregatedChoke>(out, "an aggregated choke", b);
    feed::<WalInfo<Blk>>(out, "a log record", b);
}

pub fn decoders(seed: u64, verbose: bool) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut out = CaseResult::default();
    let mut first = String::new();
    for _ in 0..150 {
        let b = hostile(&mut r);
        if verbose {
            out.log.push(hex(&b));
        }
        let had = out.stats.get("decoded_values");
        feed_all(&mut out, &b);
        if out.stats.get("decoded_values") > had && first.is_empty() {
            first = hex(&b);
        }
        let d = b.iter().fold(0u64, |a, x| crate::prng::mix(a ^ *x as u64));
        out.shapes.push(d);
    }
    out.evals = out.stats.get("decodings");
    out.sample = Some(serde_json::json!({"seed": seed, "an input that decodes": first, "observed": out.stats.0}));
    out
}

fn text<T: Serialize + DeserializeOwned + PartialEq + Debug>(out: &mut CaseResult, what: &'static str, x: &T, r: &mut Rng) {
    let mut s = serde_json::to_vec(x).unwrap_or_default();
    let mut b = bincode::serialize(x).unwrap_or_default();
    for _ in 0..r.below(4) {
        damage(&mut b, r);
        if !s.is_empty() {
            let i = r.usize(s.len());
            match r.below(6) {
                0 => s[i] = *r.pick(b"{}[]\",:0123456789abcdefxyz-.e\\ "),
                1 => {
                    s.remove(i);
                }
                2 => s.insert(i, *r.pick(b"{}[]\",:0123456789abcdefxyz-.e\\ ")),
                3 => {
                    let j = i + r.usize(s.len() - i);
                    s.drain(i..j);
                }
                4 => s.truncate(i),
                _ => s[i] = r.next() as u8,
            }
        }
    }
    for (k, d) in [("json", &s), ("bincode", &b)] {
        out.stats.add("texts", 1);
        let res = std::panic::catch_unwind(|| {
            if k == "json" {
                match serde_json::from_slice::<T>(d) {
                    Err(_) => Ok(false),
                    Ok(x) => match serde_json::to_vec(&x).map_err(|e| e.to_string()).and_then(|s| serde_json::from_slice::<T>(&s).map_err(|e| e.to_string())) {
                        Ok(y) if y == x => Ok(true),
                        e => Err(short(&e)),
                    },
                }
            } else {
                match bincode::deserialize::<T>(d) {
                    Err(_) => Ok(false),
                    Ok(x) => match bincode::serialize(&x).map_err(|e| e.to_string()).and_then(|s| bincode::deserialize::<T>(&s).map_err(|e| e.to_string())) {
                        Ok(y) if y == x => Ok(true),
                        e => Err(short(&e)),
                    },
                }
            }
        });
        match res {
            Ok(Ok(true)) => out.stats.add("texts_accepted", 1),
            Ok(Ok(false)) => out.stats.add("texts_refused", 1),
            Ok(Err(m)) => out.bad("C16", format!("{} {} decodes as {} that does not come back: {}", k, hex(d), what, m)),
            Err(_) => {
                let p = crate::panics::take().join("; ");
                out.bad("C16", format!("{} {} as {} panics: {}", k, hex(d), what, p));
            }
        }
    }
}

pub fn texts(seed: u64, _verbose: bool) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut out = CaseResult::default();
    for _ in 0..60 {
        let x = agg_vote(&mut r);
        text(&mut out, "an aggregated vote", &x, &mut r);
        let x = agg_choke(&mut r);
        text(&mut out, "an aggregated choke", &x, &mut r);
        let x = from(&mut r);
        text(&mut out, "a cause", &x, &mut r);
        let x = node(&mut r);
        text(&mut out, "a node", &x, &mut r);
        let x = ratios(&mut r);
        text(&mut out, "a timer configuration", &x, &mut r);
        if let Some(x) = wal(&mut r) {
            text(&mut out, "a log record", &x, &mut r);
        }
    }
    out.evals = out.stats.get("texts");
    out.shapes.push(seed);
    out
}

/// A node started on a log record that cannot be decoded.
pub fn bad_log(seed: u64, verbose: bool) -> CaseResult {
    let mut r = Rng::new(seed);
    let n = r.range(1, 5) as usize;
    let h = r.range(1, 9);
    let mut rec = vec![];
    for _ in 0..50 {
        rec = hostile(&mut r);
        if std::panic::catch_unwind(|| rlp::decode::<WalInfo<Blk>>(&rec).is_err()).unwrap_or(true) {
            break;
        }
        rec.clear();
    }
    let _ = crate::panics::take();
    if rec.is_empty() {
        rec = vec![0xff; r.range(1, 20) as usize];
    }
    let rec2 = rec.clone();
    let said = crate::logs::count();
    let o = run_with(lone_cfg(seed, n), move |w| {
        Box::pin(async move {
            {
                let mut g = w.lock();
                g.slots[0].wal = Some(Bytes::from(rec2));
                g.slots[0].latest = h;
            }
            start_node(&w, 0);
            wait(80).await;
            true
        })
    });
    let mut out = CaseResult { evals: 1, ..Default::default() };
    for p in &o.panics {
        out.bad(if crate::panics::is_harness(p) { "HARNESS" } else { "C16" }, format!("started on log {}: {}", hex(&rec), p));
    }
    let mut told = crate::logs::count() > said;
    for e in &o.trace {
        if verbose {
            out.log.push(show(e));
        }
        told |= matches!(e.k, K::RunEnd { err: true } | K::Error { .. });
    }
    out.stats.add("undecodable_logs", 1);
    if !told {
        out.bad("C16", format!("started on the undecodable log {} without a word", hex(&rec)));
    }
    out.shapes.push(rec.iter().fold(1u64, |a, x| crate::prng::mix(a ^ *x as u64)));
    out.sample = Some(serde_json::json!({"seed": seed, "log": hex(&rec)}));
    out
}

// ------------------------------------------------------------------ leaders

fn addr(r: &mut Rng, i: u64) -> Bytes {
    match r.below(3) {
        0 => Bytes::from(i.to_be_bytes().to_vec()),
        1 => Bytes::from({
            let n = r.range(9, 40) as usize;
            let mut v = r.bytes(n);
            v.extend(i.to_le_bytes());
            v
        }),
        _ => {
            let mut v = r.bytes(12);
            v.extend(i.to_le_bytes());
            Bytes::from(v)
        }
    }
}

fn list(r: &mut Rng, n: usize) -> Vec<Node> {
    let style = r.below(5);
    let mut v: Vec<Node> = (0..n as u64)
        .map(|i| {
            let mut x = Node::new(addr(r, i));
            let w = |r: &mut Rng| match style {
                0 => 1,
                1 => r.range(0, 5) as u32,
                2 => u32::MAX - r.below(3) as u32,
                3 => r.next() as u32,
                _ => *r.pick(&[0, 1, 1000, u32::MAX]),
            };
            x.set_propose_weight(w(r));
            x.set_vote_weight(w(r));
            x
        })
        .collect();
    if v.iter().all(|x| x.propose_weight == 0) {
        v[0].set_propose_weight(1);
    }
    r.shuffle(&mut v);
    v
}

pub fn weighted() -> bool {
    cfg!(feature = "random_leader")
}

pub fn leaders(seed: u64, verbose: bool) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut out = CaseResult::default();
    for _ in 0..12 {
        let n = match r.below(6) {
            0 => r.range(1, 4),
            1 => r.range(100, 260),
            2 => *r.pick(&[2, 3, 5, 7, 11, 13, 17, 31, 61, 97, 127]),
            _ => r.range(2, 40),
        } as usize;
        let l = list(&mut r, n);
        let mut sorted = l.clone();
        sorted.sort_by(|a, b| a.address.cmp(&b.address));
        let (h, rd) = (num(&mut r), num(&mut r));
        let a = overlord::get_leader(h, rd, l.clone());
        out.stats.add("leaders", 1);
        let who = sorted.iter().position(|x| x.address == a);
        if who.is_none() {
            out.bad("C17", format!("the leader of height {} round {} is no member of the list of {}", h, rd, n));
        }
        for _ in 0..3 {
            let mut l2 = l.clone();
            r.shuffle(&mut l2);
            out.stats.add("leaders", 1);
            if overlord::get_leader(h, rd, l2) != a {
                out.bad("C17", format!("the leader of height {} round {} among {} depends on the order of the list", h, rd, n));
            }
        }
        if weighted() {
            if let Some(i) = who {
                if sorted[i].propose_weight == 0 {
                    out.bad("C17", format!("height {} round {} falls on a validator without propose weight", h, rd));
                }
            }
            continue;
        }
        // rotation: n rounds of a height, and the first rounds of n heights
        let k = n as u64;
        let (h, rd) = (h.min(u64::MAX - k), rd.min(u64::MAX - k));
        let a: BTreeSet<Bytes> = (0..k).map(|i| overlord::get_leader(h, rd + i, l.clone())).collect();
        let b: BTreeSet<Bytes> = (0..k).map(|i| overlord::get_leader(h + i, 0, l.clone())).collect();
        out.stats.add("leaders", 2 * k);
        out.stats.add("rotations", 2);
        if a.len() != n {
            out.bad("C17", format!("rounds {}..+{} of height {} are led by {} of {} validators", rd, k, h, a.len(), n));
        }
        if b.len() != n {
            out.bad("C17", format!("round 0 of heights {}..+{} is led by {} of {} validators", h, k, b.len(), n));
        }
        if verbose {
            out.log.push(format!("n {} h {} r {}: {} and {} distinct leaders", n, h, rd, a.len(), b.len()));
        }
    }
    if weighted() {
        // the choice follows the weights
        let n = r.range(2, 12) as usize;
        let mut l = list(&mut r, n);
        for x in l.iter_mut() {
            let w = r.below(9) as u32;
            x.set_propose_weight(w);
        }
        l[0].set_propose_weight(3);
        let sum: u64 = l.iter().map(|x| x.propose_weight as u64).sum();
        let h0 = r.next() >> 1;
        let m = 4000u64;
        let mut got: HashMap<Bytes, u64> = HashMap::new();
        for i in 0..m {
            *got.entry(overlord::get_leader(h0 + i, 0, l.clone())).or_default() += 1;
        }
        out.stats.add("leaders", m);
        out.stats.add("distributions", 1);
        for x in &l {
            let p = x.propose_weight as f64 / sum as f64;
            let g = *got.get(&x.address).unwrap_or(&0) as f64;
            let sd = (m as f64 * p * (1.0 - p)).sqrt();
            if (g - m as f64 * p).abs() > 7.0 * sd + 1.0 || (x.propose_weight == 0 && g > 0.0) {
                out.bad("C17", format!("a validator with propose weight {} of {} leads {} of {} heights", x.propose_weight, sum, g, m));
            }
        }
    }
    out.evals = out.stats.get("leaders");
    out.shapes.push(seed);
    out.sample = Some(serde_json::json!({"seed": seed, "weighted": weighted(), "observed": out.stats.0}));
    out
}

/// Running nodes: who proposes, and who gets the votes.
/// Votes go to, and proposals come from, the validator that the public function names.
pub fn routed(o: &Outcome, seed: u64, out: &mut CaseResult) -> BTreeSet<(u64, u64)> {
    let mut sh = Rng::new(seed);
    let mut rounds = BTreeSet::new();
    for (i, e) in o.trace.iter().enumerate() {
        let K::Send { to, msg, .. } = &e.k else { continue };
        if !matches!(o.cfg.roles[e.slot], Role::Honest) {
            continue;
        }
        let (h, rd, _) = msg_pos(msg);
        let Some(a) = o.auths.get(&h) else { continue };
        let mut l = a.clone();
        sh.shuffle(&mut l);
        match &**msg {
            OverlordMsg::SignedVote(_) => {
                out.stats.add("votes_routed", 1);
                let x = overlord::get_leader(h, rd, l);
                rounds.insert((h, rd));
                if to.as_ref() != Some(&x) {
                    out.bad("C17", format!("event {}: node {} sends its vote of h{} r{} to {:?}; the leader is {}", i, e.slot, h, rd, to.as_ref().map(|x| hx(x)), hx(&x)));
                }
            }
            OverlordMsg::SignedProposal(p) if p.proposal.proposer == o.addrs[e.slot] => {
                out.stats.add("proposals_judged", 1);
                rounds.insert((h, rd));
                if overlord::get_leader(h, rd, l) != o.addrs[e.slot] {
                    out.bad("C17", format!("event {}: node {} proposes in h{} r{} without being its leader", i, e.slot, h, rd));
                }
            }
            _ => {}
        }
    }
    rounds
}

pub fn led(seed: u64, verbose: bool) -> CaseResult {
    let mut p = crate::gen::Profile::base();
    p.gst = (5, 30);
    p.adv = 500;
    p.weights = 700;
    p.epochs = 500;
    let mut c = crate::gen::gen(seed, &p);
    if weighted() {
        let mut r = Rng::new(seed ^ 0xface);
        for e in c.epochs.iter_mut() {
            for v in e.vals.iter_mut() {
                v.1 = *r.pick(&[0, 1, 1, 2, 5, 1000, u32::MAX]);
            }
            if e.vals.iter().all(|v| v.1 == 0) {
                e.vals[0].1 = 1;
            }
        }
    }
    let o = run_case(c);
    let mut out = CaseResult { evals: 1, ..Default::default() };
    if verbose {
        for (i, e) in o.trace.iter().enumerate() {
            out.log.push(format!("{:>6} {}", i, show(e)));
        }
    }
    let rounds = routed(&o, seed, &mut out);
    for p in &o.panics {
        out.bad(if crate::panics::is_harness(p) { "HARNESS" } else { "PANIC" }, p.clone());
    }
    if !o.reached && p.live {
        out.inconclusive = true;
    }
    let top = o.latest.iter().max().cloned().unwrap_or(0);
    out.stats.add("heights_committed", top);
    if rounds.len() > 2 {
        out.shapes.push(crate::checks::shape(&o));
        out.sample = Some(serde_json::json!({"seed": seed, "weighted": weighted(), "rounds seen": rounds.len(), "observed": out.stats.0}));
    }
    out
}

// ------------------------------------------------------------------ bitmaps

pub fn bitmaps(seed: u64, _verbose: bool) -> CaseResult {
    let mut r = Rng::new(seed);
    let mut out = CaseResult::default();
    for _ in 0..40 {
        let n = match r.below(5) {
            0 => r.range(1, 9),
            1 => *r.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]),
            2 => r.range(100, 300),
            _ => r.range(1, 40),
        } as usize;
        let l = list(&mut r, n);
        let mut sorted = l.clone();
        sorted.sort_by(|a, b| a.address.cmp(&b.address));
        let p = *r.pick(&[0, 100, 500, 900, 1000]);
        let idx: Vec<usize> = (0..n).filter(|_| r.pm(p)).collect();
        let mut bm = bitmap(n, &idx).to_vec();
        let mut want: Vec<Bytes> = idx.iter().map(|i| sorted[*i].address.clone()).collect();
        match r.below(6) {
            0 => {
                // bits beyond the list
                for i in n..bm.len() * 8 {
                    if r.pm(600) {
                        bm[i / 8] |= 0x80 >> (i % 8);
                    }
                }
            }
            1 => {
                let k = r.range(1, 40) as usize;
                bm.extend(r.bytes(k));
            }
            2 => {
                let k = r.usize(bm.len() + 1);
                bm.truncate(k);
                want = idx.iter().filter(|i| **i < k * 8).map(|i| sorted[*i].address.clone()).collect();
            }
            _ => {}
        }
        for _ in 0..2 {
            let mut l2 = l.clone();
            r.shuffle(&mut l2);
            out.stats.add("bitmaps_read", 1);
            let b = Bytes::from(bm.clone());
            match std::panic::catch_unwind(move || overlord::extract_voters(&mut l2, &b).map_err(|e| e.to_string())) {
                Err(_) => out.bad("C18", format!("reading bitmap {} of {} validators panics: {}", hex(&bm), n, crate::panics::take().join("; "))),
                Ok(Err(e)) => out.bad("C18", format!("bitmap {} of {} validators is refused: {}", hex(&bm), n, e)),
                Ok(Ok(v)) => {
                    if v != want {
                        out.bad("C18", format!("bitmap {} of {} validators reads as {} voters, {} were set", hex(&bm), n, v.len(), want.len()));
                    }
                }
            }
        }
    }
    out.evals = out.stats.get("bitmaps_read");
    out.shapes.push(seed);
    out.sample = Some(serde_json::json!({"seed": seed, "observed": out.stats.0}));
    out
}

/// A node that leads a height among up to 90 validators: what its certificates say about the
/// votes that went into them, and how it reads those of others.
pub fn node_bitmaps(seed: u64, verbose: bool) -> CaseResult {
    let mut r = Rng::new(seed);
    let n = match r.below(4) {
        0 => r.range(1, 9),
        1 => *r.pick(&[7, 8, 9, 15, 16, 17, 24, 25, 63, 64, 65]),
        _ => r.range(2, 90),
    } as usize;
    let mut c = lone_cfg(seed, n);
    c.d_wal = Lat::new(0, 0);
    c.epochs[0].interval = 20_000;
    let style = r.below(4);
    for v in c.epochs[0].vals.iter_mut() {
        v.2 = match style {
            0 => r.range(1, 9) as u32,
            1 => u32::MAX - r.below(9) as u32,
            2 => *r.pick(&[0, 1, 1, 2]),
            _ => 1,
        };
    }
    c.epochs[0].vals[0].2 = c.epochs[0].vals[0].2.max(1);
    let lead = r.pm(600);
    let mut r2 = r.fork();
    let o = run_with(c, move |w| {
        Box::pin(async move {
            let me = w.addr(0);
            let h = (1..5000).find(|h| (w.leader(*h, 0) == me) == (lead || w.cfg.roles.len() == 1)).unwrap_or(1);
            w.lock().slots[0].latest = h - 1;
            let auth = w.auth(h);
            let lead = w.leader(h, 0) == me;
            let n = auth.len();
            let others: Vec<Bytes> = auth.iter().map(|x| x.address.clone()).filter(|a| *a != me).collect();
            start_node(&w, 0);
            wait(1).await;
            let bh = if lead {
                // the interval of the height before
                let mut t = 0;
                loop {
                    wait(50).await;
                    t += 50;
                    let p = w.lock().trace.iter().find_map(|e| match &e.k {
                        K::Send { msg, .. } => match &**msg {
                            OverlordMsg::SignedProposal(p) => Some(p.proposal.block_hash.clone()),
                            _ => None,
                        },
                        _ => None,
                    });
                    if let Some(b) = p {
                        break b;
                    }
                    if t > 60_000 {
                        return false;
                    }
                }
            } else {
                let l = w.leader(h, 0);
                let b = Blk { height: h, proposer: 1, nonce: 5, body: vec![], alt: 0 };
                let bh = b.hash();
                let p = Proposal { height: h, round: 0, block_hash: bh.clone(), content: b, lock: None, proposer: l.clone() };
                let sig = sig_of(&l, &hash_msg(&rlp::encode(&p)));
                hand(&w, OverlordMsg::SignedProposal(SignedProposal { signature: sig, proposal: p }));
                wait(5).await;
                bh
            };
            for ty in [1u8, 2] {
                if lead {
                    let mut v = others.clone();
                    r2.shuffle(&mut v);
                    let burst = r2.pm(300);
                    for a in v {
                        let vote = Vote { height: h, round: 0, vote_type: vty(ty), block_hash: bh.clone() };
                        hand(&w, OverlordMsg::SignedVote(SignedVote { signature: sig_of(&a, &vote_hash(h, 0, ty, &bh)), vote, voter: a }));
                        if !burst {
                            wait(2).await;
                        }
                    }
                    wait(10).await;
                } else {
                    // certificates with every reading of the bitmap, the plain one last
                    for k in 0..r2.range(2, 6) {
                        let mut idx: Vec<usize> = (0..n).filter(|_| r2.pm(850)).collect();
                        let mut bm;
                        if k == 0 {
                            idx = (0..n).collect();
                            bm = bitmap(n, &idx).to_vec();
                        } else {
                            bm = bitmap(n, &idx).to_vec();
                            match r2.below(5) {
                                0 => {
                                    for i in n..bm.len() * 8 {
                                        if r2.pm(600) {
                                            bm[i / 8] |= 0x80 >> (i % 8);
                                        }
                                    }
                                }
                                1 => {
                                    let k = r2.range(1, 9) as usize;
                                    bm.extend(r2.bytes(k));
                                }
                                2 => {
                                    let k = r2.usize(bm.len() + 1);
                                    bm.truncate(k);
                                }
                                _ => {}
                            }
                        }
                        let voters: Vec<Bytes> = idx.iter().map(|i| auth[*i].address.clone()).collect();
                        let read: Vec<Bytes> = bits(&bm, n).iter().map(|i| auth[*i].address.clone()).collect();
                        let sigs: Vec<Bytes> = (if r2.pm(700) { &read } else { &voters }).iter().map(|a| sig_of(a, &vote_hash(h, 0, ty, &bh))).collect();
                        let q = AggregatedVote {
                            signature: AggregatedSignature { signature: agg_of(&sigs), address_bitmap: Bytes::from(bm) },
                            vote_type: vty(ty),
                            height: h,
                            round: 0,
                            block_hash: bh.clone(),
                            leader: w.leader(h, 0),
                        };
                        hand(&w, OverlordMsg::AggregatedVote(q));
                        wait(5).await;
                        if w.lock().slots[0].latest >= h {
                            return true;
                        }
                    }
                }
            }
            wait(20).await;
            true
        })
    });
    let mut out = CaseResult { evals: 1, ..Default::default() };
    let mut cast: HashMap<(u8, Bytes), BTreeSet<Bytes>> = HashMap::new();
    let me = o.addrs[0].clone();
    let mut sh = Rng::new(seed ^ 3);
    let mut offered: Option<AggregatedVote> = None;
    let (mut made, mut reads) = (0u64, 0u64);
    for (i, e) in o.trace.iter().enumerate() {
        if verbose {
            out.log.push(format!("{:>6} {}", i, show(e)));
        }
        match &e.k {
            K::Recv { msg, .. } => match &**msg {
                OverlordMsg::SignedVote(v) => {
                    cast.entry((vt(&v.vote.vote_type), v.vote.block_hash.clone())).or_default().insert(v.voter.clone());
                }
                OverlordMsg::AggregatedVote(q) => offered = Some(q.clone()),
                _ => {}
            },
            K::VerifyAgg { voters, .. } => {
                // the leader does not verify what it has built itself, or verifies just that
                let Some(q) = &offered else { continue };
                let a = &o.auths[&q.height];
                let mut l = a.clone();
                sh.shuffle(&mut l);
                reads += 1;
                match overlord::extract_voters(&mut l, &q.signature.address_bitmap) {
                    Ok(v) if v.iter().collect::<BTreeSet<_>>() == voters.iter().collect::<BTreeSet<_>>() && v.len() == voters.len() => {}
                    Ok(v) => out.bad("C18", format!("event {}: the node reads {} voters from bitmap {} of {} validators, the public helper {}", i, voters.len(), hex(&q.signature.address_bitmap), a.len(), v.len())),
                    Err(x) => out.bad("C18", format!("event {}: the public helper refuses bitmap {}, which the node read: {}", i, hex(&q.signature.address_bitmap), x)),
                }
            }
            K::Send { msg, .. } => {
                let OverlordMsg::AggregatedVote(q) = &**msg else { continue };
                if q.leader != me || offered.is_some() {
                    continue;
                }
                made += 1;
                check_made(&mut out, &o, q, &cast, &me, i, &mut sh);
            }
            K::Commit { h, c } => {
                let q = AggregatedVote { signature: c.proof.signature.clone(), vote_type: VoteType::Precommit, height: *h, round: c.proof.round, block_hash: c.proof.block_hash.clone(), leader: Bytes::new() };
                if offered.is_none() {
                    made += 1;
                    check_made(&mut out, &o, &q, &cast, &me, i, &mut sh);
                }
            }
            _ => {}
        }
    }
    for p in &o.panics {
        out.bad(if crate::panics::is_harness(p) { "HARNESS" } else { "C18" }, p.clone());
    }
    out.stats.add("certificates_built", made);
    out.stats.add("certificates_read", reads);
    if made + reads > 0 {
        out.shapes.push(crate::checks::shape(&o));
        out.sample = Some(serde_json::json!({"seed": seed, "validators": n, "leads": made > 0, "observed": out.stats.0}));
    }
    out
}

fn check_made(out: &mut CaseResult, o: &Outcome, q: &AggregatedVote, cast: &HashMap<(u8, Bytes), BTreeSet<Bytes>>, me: &Bytes, i: usize, sh: &mut Rng) {
    let t = vt(&q.vote_type);
    let mut l = o.auths[&q.height].clone();
    sh.shuffle(&mut l);
    let none = BTreeSet::new();
    let cast = cast.get(&(t, q.block_hash.clone())).unwrap_or(&none);
    match overlord::extract_voters(&mut l, &q.signature.address_bitmap) {
        Err(e) => out.bad("C18", format!("event {}: the bitmap {} of a certificate the node built is refused: {}", i, hex(&q.signature.address_bitmap), e)),
        Ok(v) => {
            if let Some(x) = v.iter().find(|x| *x != me && !cast.contains(*x)) {
                out.bad("C18", format!("event {}: a certificate the node built names {}, whose vote it did not have", i, hx(x)));
            }
            if q.signature.signature != agg_expected(&vote_hash(q.height, q.round, t, &q.block_hash), &v) {
                out.bad("C18", format!("event {}: the bitmap {} of a certificate the node built among {} validators does not read as the voters whose signatures it holds", i, hex(&q.signature.address_bitmap), l.len()));
            }
        }
    }
}
