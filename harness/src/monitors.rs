//! The trace oracle: one forward pass over the recorded events of a case, with a ledger of every
//! signature really made. Every rule judges observable behaviour only (calls that cross the
//! library's public traits), never internal state.
use crate::app::*;
use crate::sim::*;
use bytes::Bytes;
use overlord::types::*;
use overlord::WalInfo;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct Viol {
    pub prop: &'static str,
    pub idx: usize,
    pub msg: String,
}

#[derive(Default, Clone, Debug)]
pub struct Stats(pub BTreeMap<&'static str, u64>);
impl Stats {
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.0.entry(k).or_default() += n;
    }
    pub fn merge(&mut self, o: &Stats) {
        for (k, v) in &o.0 {
            *self.0.entry(k).or_default() += v;
        }
    }
    pub fn get(&self, k: &str) -> u64 {
        self.0.get(k).cloned().unwrap_or(0)
    }
}

type VKey = (u64, u64, u8, Bytes);

#[derive(Default)]
pub struct Ledger {
    pub votes: HashMap<VKey, BTreeSet<Bytes>>,
    pub chokes: HashMap<(u64, u64), BTreeSet<Bytes>>,
    pub props: HashMap<(u64, u64, Bytes), BTreeSet<Bytes>>,
    /// quorums that formed: (h, ty) -> set of (round, hash)
    pub quorums: HashMap<(u64, u8), BTreeSet<(u64, Bytes)>>,
    pub choke_q: BTreeSet<(u64, u64)>,
}

impl Ledger {
    pub fn add(&mut self, pre: &Pre, who: &Bytes, auths: &BTreeMap<u64, Vec<Node>>) {
        match pre {
            Pre::Vote(h, r, t, b) => {
                let s = self.votes.entry((*h, *r, *t, b.clone())).or_default();
                if s.insert(who.clone()) {
                    if let Some(a) = auths.get(h) {
                        if weight_ok(a, s) {
                            self.quorums.entry((*h, *t)).or_default().insert((*r, b.clone()));
                        }
                    }
                }
            }
            Pre::Choke(h, r) => {
                let s = self.chokes.entry((*h, *r)).or_default();
                if s.insert(who.clone()) {
                    if let Some(a) = auths.get(h) {
                        if weight_ok(a, s) {
                            self.choke_q.insert((*h, *r));
                        }
                    }
                }
            }
            Pre::Proposal(h, r, b) => {
                self.props.entry((*h, *r, b.clone())).or_default().insert(who.clone());
            }
            Pre::Other => {}
        }
    }
    pub fn quorum(&self, h: u64, r: u64, t: u8, b: &[u8]) -> bool {
        self.quorums
            .get(&(h, t))
            .is_some_and(|s| s.contains(&(r, Bytes::copy_from_slice(b))))
    }
    /// a prevote quorum for something other than `x` at a round > `after`
    pub fn released(&self, h: u64, x: &[u8], after: u64) -> bool {
        self.quorums
            .get(&(h, 1))
            .is_some_and(|s| s.iter().any(|(r, b)| *r > after && b.as_ref() != x))
    }
    /// newest round <= r with a prevote quorum for x
    pub fn lock_round(&self, h: u64, x: &[u8], r: u64) -> Option<u64> {
        self.quorums
            .get(&(h, 1))
            .and_then(|s| s.iter().filter(|(q, b)| *q <= r && b.as_ref() == x).map(|(q, _)| *q).max())
    }
    /// evidence that lets a node enter round r >= 1 of h
    pub fn may_enter(&self, h: u64, r: u64) -> bool {
        if r == 0 {
            return true;
        }
        let p = r - 1;
        self.quorums.get(&(h, 1)).is_some_and(|s| s.iter().any(|(q, _)| *q == r))
            || self.quorum(h, p, 2, &[])
            || self.choke_q.contains(&(h, p))
    }
    pub fn check_qc(&self, q: &AggregatedVote, auths: &BTreeMap<u64, Vec<Node>>) -> Result<Vec<Bytes>, String> {
        let a = auths.get(&q.height).ok_or_else(|| format!("certificate for unknown height {}", q.height))?;
        let vs: Vec<Bytes> = bits(&q.signature.address_bitmap, a.len())
            .into_iter()
            .map(|i| a[i].address.clone())
            .collect();
        let set: BTreeSet<Bytes> = vs.iter().cloned().collect();
        if !weight_ok(a, &set) {
            return Err(format!("voters of {} do not hold over two thirds", show_qc(q)));
        }
        let t = vt(&q.vote_type);
        let none = BTreeSet::new();
        let led = self.votes.get(&(q.height, q.round, t, q.block_hash.clone())).unwrap_or(&none);
        for v in &vs {
            if !led.contains(v) {
                return Err(format!("{}: {} never signed it", show_qc(q), hx(v)));
            }
        }
        let vh = vote_hash(q.height, q.round, t, &q.block_hash);
        if q.signature.signature != agg_expected(&vh, &vs) {
            return Err(format!("{}: aggregate is not that of the selected voters", show_qc(q)));
        }
        Ok(vs)
    }
    pub fn check_choke_qc(&self, q: &AggregatedChoke, auths: &BTreeMap<u64, Vec<Node>>) -> Result<(), String> {
        let a = auths.get(&q.height).ok_or_else(|| format!("choke certificate for unknown height {}", q.height))?;
        let set: BTreeSet<Bytes> = q.voters.iter().cloned().collect();
        if set.len() != q.voters.len() {
            return Err("choke certificate names a voter twice".into());
        }
        if !set.iter().all(|v| a.iter().any(|n| &n.address == v)) {
            return Err("choke certificate names an outsider".into());
        }
        if !weight_ok(a, &set) {
            return Err(format!(
                "choke certificate h{} r{} with {} of {} voters does not hold over two thirds of the weight",
                q.height,
                q.round,
                set.len(),
                a.len()
            ));
        }
        let none = BTreeSet::new();
        let led = self.chokes.get(&(q.height, q.round)).unwrap_or(&none);
        for v in &set {
            if !led.contains(v) {
                return Err(format!("choke certificate h{} r{}: {} never signed it", q.height, q.round, hx(v)));
            }
        }
        if q.signature != agg_expected(&choke_hash(q.height, q.round), &q.voters) {
            return Err("choke certificate aggregate is not that of its voters".into());
        }
        Ok(())
    }
    /// from-field of a choke or log record of (h, r)
    pub fn check_from(&self, f: &UpdateFrom, h: u64, r: u64, auths: &BTreeMap<u64, Vec<Node>>) -> Result<(), String> {
        let (qh, qr) = match f {
            UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) => {
                if q.signature.address_bitmap.is_empty() && q.signature.signature.is_empty() && q.height == 0 {
                    // start of a height: nothing to justify
                    return if r == 0 {
                        Ok(())
                    } else {
                        Err(format!("round {} justified by the empty certificate", r))
                    };
                }
                let pv = matches!(f, UpdateFrom::PrevoteQC(_));
                if pv != (q.vote_type == VoteType::Prevote) {
                    return Err(format!("justification of the wrong kind: {}", show_qc(q)));
                }
                if !pv && !q.block_hash.is_empty() {
                    return Err(format!("precommit justification for a block: {}", show_qc(q)));
                }
                self.check_qc(q, auths)?;
                (q.height, q.round)
            }
            UpdateFrom::ChokeQC(q) => {
                self.check_choke_qc(q, auths)?;
                (q.height, q.round)
            }
        };
        if r == 0 {
            // The first round needs no justification; a restarted node may still carry the one
            // it entered the previous height with.
            return if qh <= h { Ok(()) } else { Err("justification from a later height".into()) };
        }
        let at = if matches!(f, UpdateFrom::PrevoteQC(_)) { qr } else { qr.saturating_add(1) };
        if qh != h || at != r {
            return Err(format!("round {} of height {} justified by evidence of h{} r{}", r, h, qh, qr));
        }
        Ok(())
    }
}

/// Value exposed for one (h, r, kind).
#[derive(Clone, PartialEq, Debug)]
struct Expo {
    val: Vec<u8>,
    idx: usize,
}

struct Node_ {
    addr: Bytes,
    inc: u32,
    wal: Option<Arc<WalInfo<Blk>>>,
    wal_try: Option<(u64, u64)>,
    expo: HashMap<(u64, u64, u8), Expo>,
    last: Option<((u64, u64, u8), usize)>,
    views: Option<(u64, u64)>,
    /// lock by exposed precommit: height, hash, round
    lock: Option<(u64, Bytes, u64)>,
    heights: BTreeSet<u64>,
    checked: HashMap<(u64, Bytes), Vec<Arc<Blk>>>,
    inc_commits: u32,
    inc_last_commit: Option<u64>,
    refused: Option<u64>,
    commits: BTreeMap<u64, Arc<Commit<Blk>>>,
    got_props: HashSet<(u64, u64, Bytes)>,
    wal_failed: bool,
    /// the last save attempt failed and nothing was saved since
    stopped: bool,
    ended: bool,
    /// C24: number of reports for the pending entry
    cur: Option<(u64, u64)>,
    pend_views: Vec<(u64, u64, String, usize)>,
}

pub struct Verdict {
    pub viols: Vec<Viol>,
    pub stats: Stats,
}

const PROPOSE: u8 = 0;
const PREVOTE: u8 = 1;
const PRECOMMIT: u8 = 2;
const BRAKE: u8 = 3;
const COMMIT: u8 = 4;

struct M<'a> {
    o: &'a Outcome,
    led: Ledger,
    v: Vec<Viol>,
    st: Stats,
}

impl<'a> M<'a> {
    fn bad(&mut self, prop: &'static str, idx: usize, msg: String) {
        if self.v.iter().filter(|x| x.prop == prop).count() < 3 {
            self.v.push(Viol { prop, idx, msg });
        }
    }
    /// No quorum of height `h`'s validators backs what the node does. Where the validators or
    /// weights of `h` differ from those of the height before, the rule that a height's own
    /// validators and weights count is broken as well.
    fn unbacked(&mut self, h: u64, idx: usize, msg: String) {
        let show = |h: u64| {
            self.o.auths.get(&h).map(|l| {
                let mut l: Vec<_> = l.iter().map(|n| (n.address.clone(), n.vote_weight)).collect();
                l.sort();
                l
            })
        };
        if h > 0 && show(h - 1).is_some() && show(h) != show(h - 1) {
            self.bad("C20", idx, format!("{} (validators changed at this height)", msg));
        }
        self.bad("C07", idx, msg);
    }
    fn leader(&self, h: u64, r: u64) -> Option<Bytes> {
        self.o.auths.get(&h).filter(|a| !a.is_empty()).map(|a| ref_leader(h, r, a))
    }
    fn member(&self, h: u64, a: &Bytes) -> bool {
        self.o.auths.get(&h).is_some_and(|l| l.iter().any(|n| &n.address == a))
    }

    /// Common rules for anything that leaves the node and shows it is at (h, r, stage).
    fn exposure(&mut self, n: &mut Node_, i: usize, h: u64, r: u64, stage: u8, val: Vec<u8>, ordered: bool) {
        self.st.add("exposures", 1);
        // C04
        if stage <= PRECOMMIT {
            let e = n.expo.get(&(h, r, stage)).cloned();
            match e {
                Some(e) => {
                    if e.val != val {
                        self.bad(
                            "C04",
                            i,
                            format!(
                                "two different {} values at height {} round {} (first at event {})",
                                ["proposal", "prevote", "precommit"][stage as usize],
                                h,
                                r,
                                e.idx
                            ),
                        );
                    }
                    self.st.add("repeated_exposures", 1);
                }
                None => {
                    n.expo.insert((h, r, stage), Expo { val: val.clone(), idx: i });
                }
            }
        }
        // C11
        if ordered {
            if let Some((l, at)) = n.last {
                if (h, r, stage) < l {
                    self.bad(
                        "C11",
                        i,
                        format!("went back to h{} r{} stage {} after h{} r{} stage {} (event {})", h, r, stage, l.0, l.1, l.2, at),
                    );
                }
            }
            n.last = Some(((h, r, stage), i));
        }
        // C07: position is backed by evidence
        if !self.led.may_enter(h, r) {
            self.unbacked(h, i, format!("is in round {} of height {} without any quorum for leaving round {}", r, h, r - 1));
        }
        if !n.heights.contains(&h) {
            self.bad("C20", i, format!("acts at height {} which its application never announced", h));
        }
        if !self.member(h, &n.addr) {
            self.bad("C20", i, format!("acts at height {} without being a validator of it", h));
        }
        // C08
        let ok = n.wal.as_ref().is_some_and(|w| (w.height, w.round, step_of(w)) >= (h, r, stage));
        if !ok {
            self.bad(
                "C08",
                i,
                format!(
                    "exposes h{} r{} step {} while the durable log is at {:?}",
                    h,
                    r,
                    stage,
                    n.wal.as_ref().map(|w| (w.height, w.round, step_of(w)))
                ),
            );
        }
        // locks
        let hash: Bytes = match stage {
            PROPOSE => Bytes::copy_from_slice(&val[..32.min(val.len())]),
            _ => Bytes::from(val.clone()),
        };
        if stage == PROPOSE || stage == PREVOTE || (stage == PRECOMMIT && !hash.is_empty()) {
            if let Some((lh, x, lr)) = n.lock.clone() {
                if lh == h && x != hash && !self.led.released(h, &x, lr) {
                    self.bad(
                        "C05",
                        i,
                        format!(
                            "{} for {} at round {} although locked on {} since round {}",
                            ["proposal", "prevote", "precommit"][stage as usize],
                            if hash.is_empty() { "nil".into() } else { hx(&hash) },
                            r,
                            hx(&x),
                            lr
                        ),
                    );
                }
                if lh == h {
                    self.st.add("exposures_while_locked", 1);
                }
            }
        }
        if stage == PRECOMMIT && !hash.is_empty() {
            // C07 evidence for a precommit
            if !self.led.quorum(h, r, 1, &hash) {
                self.unbacked(h, i, format!("precommits {} at h{} r{} without a prevote quorum for it", hx(&hash), h, r));
            }
            // C03
            match n.checked.get(&(h, hash.clone())) {
                None => self.bad("C03", i, format!("precommits {} at height {} although its block check never succeeded", hx(&hash), h)),
                Some(list) => {
                    if let Some(l) = n.wal.as_ref().and_then(|w| w.lock.as_ref()) {
                        if l.lock_votes.block_hash == hash && !list.iter().any(|b| **b == l.content) {
                            self.bad("C03", i, format!("precommits {} holding other content than the content that was checked", hx(&hash)));
                        }
                    }
                }
            }
            // C08: the lock is in the log
            let lock_ok = n.wal.as_ref().and_then(|w| w.lock.as_ref().map(|l| (w, l))).is_some_and(|(w, l)| {
                w.height > h || l.lock_votes.block_hash == hash && l.lock_votes.height == h && l.content.hash() == hash
            });
            if ok && !lock_ok && n.wal.as_ref().is_some_and(|w| w.height == h) {
                self.bad("C08", i, format!("precommits {} at h{} r{} while the log holds no lock on it", hx(&hash), h, r));
            }
            let lr = self.led.lock_round(h, &hash, r).unwrap_or(r);
            let lr = match &n.lock {
                Some((lh, x, old)) if *lh == h && *x == hash => lr.max(*old),
                _ => lr,
            };
            n.lock = Some((h, hash, lr));
            self.st.add("locks_taken", 1);
        }
    }

    fn on_send(&mut self, n: &mut Node_, i: usize, to: &Option<Bytes>, m: &Msg) {
        match m {
            OverlordMsg::SignedProposal(sp) => {
                let p = &sp.proposal;
                self.st.add("proposals", 1);
                let mut val = p.block_hash.to_vec();
                val.extend_from_slice(&blk_bytes(&p.content));
                if let Some(l) = &p.lock {
                    val.extend_from_slice(&l.lock_round.to_le_bytes());
                    val.extend_from_slice(&l.lock_votes.block_hash);
                }
                let was_locked = n.lock.as_ref().is_some_and(|(lh, x, lr)| *lh == p.height && !self.led.released(p.height, x, *lr));
                self.exposure(n, i, p.height, p.round, PROPOSE, val, true);
                if was_locked && p.lock.is_none() {
                    self.bad("C05", i, format!("proposal h{} r{} made while locked carries no proof of lock", p.height, p.round));
                }
                if let Some(l) = &p.lock {
                    self.st.add("locked_proposals", 1);
                    let q = &l.lock_votes;
                    if q.vote_type != VoteType::Prevote
                        || q.height != p.height
                        || q.round != l.lock_round
                        || l.lock_round >= p.round
                        || q.block_hash != p.block_hash
                    {
                        self.bad("C06", i, format!("proof of lock {} (lock round {}) does not fit proposal h{} r{} {}", show_qc(q), l.lock_round, p.height, p.round, hx(&p.block_hash)));
                    } else if let Err(e) = self.led.check_qc(q, &self.o.auths) {
                        self.bad("C06", i, format!("proof of lock: {}", e));
                    }
                }
                if p.content.hash() != p.block_hash {
                    self.bad("C03", i, "proposes content that does not match its hash".into());
                }
                if p.proposer != n.addr || Some(&p.proposer) != self.leader(p.height, p.round).as_ref() {
                    self.bad("C23", i, format!("proposes at h{} r{} without being its leader", p.height, p.round));
                }
                if to.is_some() {
                    self.bad("C23", i, "proposal not broadcast".into());
                }
            }
            OverlordMsg::SignedVote(sv) => {
                let v = &sv.vote;
                let t = vt(&v.vote_type);
                self.st.add(if t == 1 { "prevotes" } else { "precommits" }, 1);
                if v.block_hash.is_empty() {
                    self.st.add("nil_votes", 1);
                }
                self.prevote_ok(n, i, v.height, v.round, t, &v.block_hash);
                self.exposure(n, i, v.height, v.round, t, v.block_hash.to_vec(), true);
                if sv.voter != n.addr {
                    self.bad("C06", i, "sends a vote under another address".into());
                }
                match (to, self.leader(v.height, v.round)) {
                    (Some(a), Some(l)) if *a == l && *a != n.addr => {}
                    (a, l) => self.bad(
                        "C23",
                        i,
                        format!("vote h{} r{} sent to {:?}, leader is {:?}", v.height, v.round, a.as_ref().map(|x| hx(x)), l.map(|x| hx(&x))),
                    ),
                }
            }
            OverlordMsg::AggregatedVote(q) => {
                let t = vt(&q.vote_type);
                self.st.add("qcs", 1);
                match self.led.check_qc(q, &self.o.auths) {
                    Err(e) => self.bad("C06", i, e),
                    Ok(vs) => {
                        if vs.contains(&n.addr) {
                            self.prevote_ok(n, i, q.height, q.round, t, &q.block_hash);
                            self.exposure(n, i, q.height, q.round, t, q.block_hash.to_vec(), false);
                        }
                    }
                }
                if Some(&q.leader) != self.leader(q.height, q.round).as_ref() {
                    // harmless: somebody redirected genuine votes to this node
                    self.st.add("qcs_by_non_leaders", 1);
                }
            }
            OverlordMsg::SignedChoke(sc) => {
                self.st.add("chokes", 1);
                self.exposure(n, i, sc.choke.height, sc.choke.round, BRAKE, vec![], true);
                if sc.address != n.addr {
                    self.bad("C06", i, "sends a choke under another address".into());
                }
                // The choke of the round may be sent again with the certificate that ends that round.
                let ends = match &sc.choke.from {
                    UpdateFrom::ChokeQC(q) => q.height == sc.choke.height && q.round == sc.choke.round,
                    _ => false,
                };
                let r = sc.choke.round.saturating_add(ends as u64);
                if let Err(e) = self.led.check_from(&sc.choke.from, sc.choke.height, r, &self.o.auths) {
                    self.bad("C06", i, format!("choke h{} r{}: {}", sc.choke.height, sc.choke.round, e));
                }
            }
            _ => {}
        }
    }

    /// C23: a block is prevoted only with the lock on it or the legitimate proposal for it.
    fn prevote_ok(&mut self, n: &mut Node_, i: usize, h: u64, r: u64, t: u8, hash: &Bytes) {
        if t != 1 || hash.is_empty() {
            return;
        }
        let locked = n.wal.as_ref().is_some_and(|w| w.height == h && w.lock.as_ref().is_some_and(|l| l.lock_votes.block_hash == *hash));
        let own = n.expo.contains_key(&(h, r, PROPOSE))
            || self.led.props.get(&(h, r, hash.clone())).is_some_and(|s| s.contains(&n.addr));
        if !(locked || n.got_props.contains(&(h, r, hash.clone())) || own) {
            self.bad("C23", i, format!("prevotes {} at h{} r{} without a lock on it or its leader's proposal", hx(hash), h, r));
        }
    }
}

/// Runs every safety rule over the case.
pub fn safety(o: &Outcome) -> Verdict {
    let mut m = M { o, led: Ledger::default(), v: vec![], st: Stats::default() };
    let mut ns: Vec<Option<Node_>> = (0..o.cfg.roles.len())
        .map(|i| {
            (o.cfg.roles[i] == Role::Honest).then(|| Node_ {
                addr: o.addrs[i].clone(),
                inc: 0,
                wal: None,
                wal_try: None,
                expo: HashMap::new(),
                last: None,
                views: None,
                lock: None,
                heights: BTreeSet::new(),
                checked: HashMap::new(),
                inc_commits: 0,
                inc_last_commit: None,
                refused: None,
                commits: BTreeMap::new(),
                got_props: HashSet::new(),
                wal_failed: false,
                stopped: false,
                ended: false,
                cur: None,
                pend_views: vec![],
            })
        })
        .collect();
    let mut chain: BTreeMap<u64, (Bytes, Vec<u8>, usize, usize)> = BTreeMap::new();
    let mut shuffle = crate::prng::Rng::new(o.cfg.seed ^ 0x55);

    for (i, e) in o.trace.iter().enumerate() {
        if let K::Sign { pre, ok: true } = &e.k {
            m.led.add(pre, &o.addrs[e.slot], &o.auths);
            m.st.add("signatures", 1);
        }
        if let K::Codec { what } = &e.k {
            m.bad("C15", i, format!("message of node {} does not survive its wire encoding: {}", e.slot, what));
        }
        let Some(mut n) = ns[e.slot].take() else { continue };
        match &e.k {
            K::Start { init, .. } => {
                n.inc = e.inc;
                n.heights.insert(*init);
                n.inc_commits = 0;
                n.inc_last_commit = None;
                n.wal_try = None;
                n.cur = n.wal.as_ref().map(|w| (w.height, w.round));
                n.pend_views.clear();
                n.wal_failed = false;
                n.stopped = false;
                n.ended = false;
                n.views = None;
                m.st.add("starts", 1);
            }
            K::Crash { .. } => m.st.add("crashes", 1),
            K::RunEnd { .. } => {
                n.ended = true;
                m.st.add("run_returns", 1);
            }
            K::Stop => n.stopped = true,
            K::Committed { h, ok: false } => n.refused = Some(*h),
            K::Status { st, .. } => {
                n.heights.insert(st.height);
                m.st.add("statuses", 1);
            }
            K::WalSave { info, ok } => {
                m.st.add("wal_records", 1);
                match info {
                    None => m.bad("C15", i, "a written log record does not decode".into()),
                    Some(w) => {
                        on_wal(&mut m, &mut n, i, w, *ok);
                    }
                }
                if !*ok {
                    n.wal_failed = true;
                    m.st.add("wal_failures", 1);
                }
            }
            K::Send { to, msg, ok } => {
                if n.ended {
                    m.bad("C21", i, "sends after its run call returned".into());
                }
                if *ok {
                    m.on_send(&mut n, i, to, msg);
                }
            }
            K::Recv { msg, .. } => {
                m.st.add("deliveries", 1);
                if let OverlordMsg::SignedProposal(sp) = msg.as_ref() {
                    let p = &sp.proposal;
                    if m.leader(p.height, p.round).as_ref() == Some(&p.proposer)
                        && m.led.props.get(&(p.height, p.round, p.block_hash.clone())).is_some_and(|s| s.contains(&p.proposer))
                    {
                        n.got_props.insert((p.height, p.round, p.block_hash.clone()));
                    }
                }
            }
            K::Checked { h, hash, blk, ok } => {
                m.st.add("checks", 1);
                if *ok {
                    n.checked.entry((*h, hash.clone())).or_default().push(blk.clone());
                } else {
                    m.st.add("rejected_checks", 1);
                }
            }
            K::Commit { h, c } => {
                m.st.add("commits", 1);
                if n.ended {
                    m.bad("C21", i, "commits after its run call returned".into());
                }
                on_commit(&mut m, &mut n, i, *h, c, &mut shuffle);
                // C01
                let body = blk_bytes(&c.content);
                match chain.get(h) {
                    None => {
                        chain.insert(*h, (c.proof.block_hash.clone(), body, e.slot, i));
                    }
                    Some((hash, b, s, at)) => {
                        if *hash != c.proof.block_hash || *b != body {
                            let msg = format!(
                                "height {}: node {} commits {} while node {} committed {} (event {}){}",
                                h,
                                e.slot,
                                hx(&c.proof.block_hash),
                                s,
                                hx(hash),
                                at,
                                if *hash == c.proof.block_hash { ", same hash but other content" } else { "" }
                            );
                            m.bad("C01", i, msg);
                        }
                        m.st.add("cross_checked_commits", 1);
                    }
                }
            }
            K::View { h, r, reason } => {
                m.st.add("view_changes", 1);
                if let Some(at) = n.wal_try {
                    if at.0 != *h {
                        m.bad("C11", i, format!("view change names height {} while at height {}", h, at.0));
                        m.bad("C24", i, format!("view change names height {} while at height {}", h, at.0));
                    }
                }
                if let Some((lh, lr)) = n.views {
                    if (*h, *r) < (lh, lr) {
                        m.bad("C11", i, format!("view change h{} r{} after h{} r{}", h, r, lh, lr));
                    }
                }
                n.views = Some((*h, *r));
                n.pend_views.push((*h, *r, reason.clone(), i));
            }
            _ => {}
        }
        ns[e.slot] = Some(n);
    }
    for p in &o.panics {
        if crate::panics::is_harness(p) {
            m.bad("HARNESS", o.trace.len(), p.clone());
        } else {
            m.bad("PANIC", o.trace.len(), format!("panic: {}", p));
        }
    }
    m.st.add("heights_committed", chain.len() as u64);
    Verdict { viols: m.v, stats: m.st }
}

fn on_wal(m: &mut M, n: &mut Node_, i: usize, w: &Arc<WalInfo<Blk>>, ok: bool) {
    let o = m.o;
    let pos = (w.height, w.round, step_of(w));
    // C07: evidence for the round and the lock that is about to be recorded
    if !m.led.may_enter(w.height, w.round) {
        m.unbacked(w.height, i, format!("enters round {} of height {} without any quorum for leaving the round before", w.round, w.height));
    }
    if !n.heights.contains(&w.height) {
        m.bad("C20", i, format!("enters height {} which its application never announced", w.height));
    }
    if let Err(e) = m.led.check_from(&w.from, w.height, w.round, &o.auths) {
        {
            m.bad("C06", i, format!("log record h{} r{}: justification: {}", w.height, w.round, e));
        }
    }
    if let Some(l) = &w.lock {
        let q = &l.lock_votes;
        let want = if pos.2 == COMMIT { VoteType::Precommit } else { VoteType::Prevote };
        if q.vote_type != want || q.height != w.height || q.block_hash.is_empty() {
            m.bad("C07", i, format!("records a lock backed by {}", show_qc(q)));
        } else if let Err(e) = m.led.check_qc(q, &o.auths) {
            m.unbacked(w.height, i, format!("records a lock that no quorum backs: {}", e));
        }
        if pos.2 != COMMIT && (q.round != l.lock_round || l.lock_round > w.round) {
            m.bad("C07", i, format!("records lock round {} at round {} with {}", l.lock_round, w.round, show_qc(q)));
        }
        if l.content.hash() != q.block_hash {
            m.bad("C08", i, "log record holds content that does not match the lock's hash".into());
        }
        m.st.add("wal_locks", 1);
    }
    // C24: entering a round
    if pos.2 == PROPOSE {
        let new = (w.height, w.round);
        let entering = match n.cur {
            None => true,
            Some(c) => new > c,
        };
        if entering {
            if w.round > 0 {
                let left = match n.cur {
                    Some((h, r)) if h == w.height => r,
                    _ => 0,
                };
                let pv = std::mem::take(&mut n.pend_views);
                if pv.len() != 1 {
                    m.bad("C24", i, format!("entering round {} of height {} reported {} view changes", w.round, w.height, pv.len()));
                }
                if let Some((h, r, reason, at)) = pv.last() {
                    m.st.add("view_reports_judged", 1);
                    if *h != w.height || *r != left {
                        m.bad("C24", *at, format!("reports leaving h{} r{} when it left h{} r{}", h, r, w.height, left));
                    }
                    judge_reason(m, *at, w, left, reason);
                }
            } else if let Some((h, r, _, at)) = n.pend_views.pop() {
                n.pend_views.clear();
                m.bad("C24", at, format!("reports a view change (h{} r{}) on entering the first round of height {}", h, r, w.height));
            }
            n.cur = Some(new);
        }
    }
    n.wal_try = Some((w.height, w.round));
    if !ok {
        return;
    }
    // C08: records never go back, locks are not dropped
    if let Some(p) = n.wal.clone() {
        let ppos = (p.height, p.round, step_of(&p));
        if pos < ppos {
            m.bad("C08", i, format!("log goes back from {:?} to {:?}", ppos, pos));
        }
        if p.height == w.height && step_of(&p) != COMMIT {
            if let Some(pl) = &p.lock {
                let x = &pl.lock_votes.block_hash;
                let keeps = w.lock.as_ref().is_some_and(|l| l.lock_votes.block_hash == *x);
                if !keeps && !m.led.released(w.height, x, pl.lock_round) && pos.2 != COMMIT {
                    m.bad("C08", i, format!("log drops the lock on {} (round {}) at h{} r{} step {}", hx(x), pl.lock_round, w.height, w.round, pos.2));
                }
                if keeps && pos.2 != COMMIT && w.lock.as_ref().is_some_and(|l| l.lock_round < pl.lock_round) {
                    m.bad("C08", i, "log moves a lock to an earlier round".into());
                }
            }
        }
    }
    n.wal = Some(w.clone());
}

fn judge_reason(m: &mut M, at: usize, w: &WalInfo<Blk>, left: u64, reason: &str) {
    let (kind, r) = match &w.from {
        UpdateFrom::PrevoteQC(q) => ("Prevote", q.round),
        UpdateFrom::PrecommitQC(q) => ("Precommit", q.round),
        UpdateFrom::ChokeQC(q) => ("Choke", q.round),
    };
    if w.round != if kind == "Prevote" { r } else { r + 1 } {
        return;
    }
    let higher = format!("UpdateFromHigher{}QC({}, {})", kind, left, r);
    if r != left {
        if reason != higher {
            m.bad("C24", at, format!("reason {} although pulled up by evidence: expected {}", reason, higher));
        }
    } else if reason.starts_with("UpdateFromHigher") {
        m.bad("C24", at, format!("reason {} although the round was left by its own evidence", reason));
    }
}

fn on_commit(m: &mut M, n: &mut Node_, i: usize, h: u64, c: &Arc<Commit<Blk>>, sh: &mut crate::prng::Rng) {
    let o = m.o;
    let p = &c.proof;
    // C02
    let mut why = None;
    if c.height != h || p.height != h {
        why = Some(format!("commit of height {} carries heights {} and {}", h, c.height, p.height));
    } else if c.content.hash() != p.block_hash || p.block_hash.is_empty() {
        why = Some("content does not match the proof's hash".into());
    } else if let Some(a) = o.auths.get(&h) {
        let mut l = a.clone();
        sh.shuffle(&mut l);
        match overlord::extract_voters(&mut l, &p.signature.address_bitmap) {
            Err(e) => why = Some(format!("bitmap does not decode: {}", e)),
            Ok(vs) => {
                let set: BTreeSet<Bytes> = vs.iter().cloned().collect();
                let none = BTreeSet::new();
                let led = m.led.votes.get(&(h, p.round, 2, p.block_hash.clone())).unwrap_or(&none);
                if set.len() != vs.len() {
                    why = Some("proof names a validator twice".into());
                } else if !set.iter().all(|v| a.iter().any(|x| x.address == *v)) {
                    why = Some("proof names an outsider".into());
                } else if !weight_ok(a, &set) {
                    why = Some("signers do not hold over two thirds of the weight".into());
                } else if let Some(v) = vs.iter().find(|v| !led.contains(*v)) {
                    why = Some(format!("{} never precommitted it at round {}", hx(v), p.round));
                } else if p.signature.signature != agg_expected(&vote_hash(h, p.round, 2, &p.block_hash), &vs) {
                    why = Some("aggregated signature does not verify".into());
                }
            }
        }
    } else {
        why = Some(format!("unknown height {}", h));
    }
    if let Some(x) = why {
        m.bad("C02", i, format!("height {}: {}", h, x));
    } else {
        m.st.add("proofs_verified", 1);
    }
    // C07
    if !m.led.quorums.get(&(h, 2)).is_some_and(|s| s.iter().any(|(_, b)| *b == p.block_hash)) {
        m.unbacked(h, i, format!("commits {} at height {} without any precommit quorum", hx(&p.block_hash), h));
    }
    // C03
    match n.checked.get(&(h, p.block_hash.clone())) {
        None => m.bad("C03", i, format!("commits {} at height {} although its block check never succeeded", hx(&p.block_hash), h)),
        Some(l) => {
            if !l.iter().any(|b| **b == c.content) {
                m.bad("C03", i, format!("commits {} at height {} with content that was not checked", hx(&p.block_hash), h));
            }
        }
    }
    // C08
    let cov = n.wal.as_ref().is_some_and(|w| {
        w.height == h
            && step_of(w) == COMMIT
            && w.lock.as_ref().is_some_and(|l| {
                l.lock_votes.vote_type == VoteType::Precommit
                    && l.lock_votes.block_hash == p.block_hash
                    && l.content == c.content
                    && l.lock_votes.round == p.round
                    && l.lock_votes.signature == p.signature
            })
    });
    if !cov {
        m.bad("C08", i, format!("hands over height {} while the durable log does not record that decision", h));
    }
    // C10
    if !n.heights.contains(&h) {
        m.bad("C10", i, format!("commits height {} which its application never announced", h));
    }
    let redeliver = n.commits.get(&h).cloned();
    // a commit which the application refused may be offered to it again
    let refused = n.refused == Some(h);
    n.refused = None;
    match n.inc_last_commit {
        Some(l) if l >= h && !(refused && l == h) => m.bad("C10", i, format!("commits height {} after height {} in one run", h, l)),
        _ => {}
    }
    if let Some(prev) = redeliver {
        if n.inc_last_commit != Some(h) {
            m.st.add("redeliveries", 1);
        }
        if n.inc_commits > 0 && n.inc_last_commit != Some(h) {
            m.bad("C10", i, format!("delivers height {} again although the run had already committed another", h));
        }
        if (prev.proof != p.clone() && !refused) || prev.content != c.content {
            m.bad("C10", i, format!("delivers height {} again with another block or proof", h));
        }
    }
    let max = n.commits.keys().next_back().cloned();
    if let Some(mx) = max {
        if h < mx {
            m.bad("C10", i, format!("delivers height {} after it had delivered {}", h, mx));
        }
    }
    n.inc_commits += 1;
    n.inc_last_commit = Some(h);
    n.commits.insert(h, c.clone());
}
