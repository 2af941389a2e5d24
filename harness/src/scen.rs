//! Model-based runs of one real node (slot 0) among scripted validators: every input is injected
//! into a quiet node, and everything the node does, and when, is compared with a reference model.
use crate::app::*;
use crate::byz::{make_choke, make_proposal, make_vote, mock_qc, new_block, qc_from};
use crate::monitors::{self, Viol};
use crate::prng::{mix_all, Rng};
use crate::run::CaseResult;
use crate::sim::*;
use bytes::Bytes;
use overlord::Context;
use overlord::types::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::sync::Arc;
use std::time::Duration;
use tokio::time::sleep;

const HGAP: u64 = 5;
const RGAP: u64 = 10;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum O {
    Vote { to: Bytes, h: u64, r: u64, t: u8, hash: Bytes },
    Prop { h: u64, r: u64, hash: Bytes, lock: Option<u64> },
    Qc { h: u64, r: u64, t: u8, hash: Bytes },
    Choke { h: u64, r: u64 },
    /// the quorum of chokes that ends the round, for the others
    Relay { h: u64, r: u64 },
    Commit { h: u64, r: u64, hash: Bytes },
    View { h: u64, r: u64, why: String },
}

impl O {
    fn show(&self) -> String {
        match self {
            O::Vote { to, h, r, t, hash } => format!("vote type {} h{} r{} [{}] to {}", t, h, r, hx(hash), hx(to)),
            O::Prop { h, r, hash, lock } => format!("proposal h{} r{} [{}] lock {:?}", h, r, hx(hash), lock),
            O::Qc { h, r, t, hash } => format!("certificate type {} h{} r{} [{}]", t, h, r, hx(hash)),
            O::Choke { h, r } => format!("choke h{} r{}", h, r),
            O::Relay { h, r } => format!("choke certificate of h{} r{}", h, r),
            O::Commit { h, r, hash } => format!("commit h{} [{}] proof r{}", h, hx(hash), r),
            O::View { h, r, why } => format!("view-change report h{} r{} ({})", h, r, why),
        }
    }
}

/// What an expectation rests on; decides which properties a missing or wrong output refutes.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Why {
    Timer,
    Input,
    Early,
    Status,
    Restart,
    Choke,
    Check,
}

#[derive(Clone, Debug)]
struct Exp {
    t: u64,
    o: O,
    why: Why,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Tk {
    Propose,
    Prevote,
    Precommit,
    Brake,
}

fn prop_signed(p: &SignedProposal<Blk>) -> bool {
    p.signature == sig_of(&p.proposal.proposer, &hash_msg(&rlp::encode(&p.proposal)))
}
fn prop_valid(p: &SignedProposal<Blk>, auth: &[Node]) -> bool {
    let q = &p.proposal;
    if !prop_signed(p) {
        return false;
    }
    match &q.lock {
        None => true,
        Some(l) => {
            let c = &l.lock_votes;
            c.vote_type == VoteType::Prevote
                && c.height == q.height
                && c.round == l.lock_round
                && c.block_hash == q.block_hash
                && l.lock_round < q.round
                && qc_valid(c, auth)
        }
    }
}
fn vote_valid(v: &SignedVote) -> bool {
    v.signature == sig_of(&v.voter, &vote_hash(v.vote.height, v.vote.round, vt(&v.vote.vote_type), &v.vote.block_hash))
}
fn qc_valid(q: &AggregatedVote, auth: &[Node]) -> bool {
    let idx = bits(&q.signature.address_bitmap, auth.len());
    let who: BTreeSet<Bytes> = idx.iter().map(|i| auth[*i].address.clone()).collect();
    let voters: Vec<Bytes> = who.iter().cloned().collect();
    weight_ok(auth, &who) && q.signature.signature == agg_expected(&vote_hash(q.height, q.round, vt(&q.vote_type), &q.block_hash), &voters)
}
fn choke_valid(c: &SignedChoke) -> bool {
    c.signature == sig_of(&c.address, &choke_hash(c.choke.height, c.choke.round))
}
fn choke_qc_valid(q: &AggregatedChoke, auth: &[Node]) -> bool {
    let who: BTreeSet<Bytes> = q.voters.iter().cloned().collect();
    who.len() == q.voters.len()
        && who.iter().all(|a| auth.iter().any(|n| n.address == a))
        && weight_ok(auth, &who)
        && q.signature == agg_expected(&choke_hash(q.height, q.round), &q.voters)
}

/// Reference model of one validator.
#[derive(Clone)]
struct M {
    last_ev: u64,
    w: W,
    me: Bytes,
    h: u64,
    r: u64,
    /// 0 propose, 1 prevote, 2 precommit, 3 brake, 4 commit
    step: u8,
    lock: Option<(u64, Bytes)>,
    member: bool,
    leader: bool,
    /// whether the node's first height has begun
    begun: bool,
    auth: Vec<Node>,
    interval: u64,
    ratios: [u64; 4],
    timers: Vec<(u64, Tk, u64, u64)>,
    checks: Vec<(u64, u64, Bytes)>,
    busy: Option<(u64, u64)>,
    start: u64,
    passed: HashSet<Bytes>,
    props: BTreeMap<(u64, u64), SignedProposal<Blk>>,
    votes: BTreeMap<(u64, u64, u8), BTreeMap<Bytes, SignedVote>>,
    qcs: BTreeMap<(u64, u64, u8), AggregatedVote>,
    by_hash: HashMap<(u64, Bytes, u8), u64>,
    chokes: BTreeMap<u64, BTreeSet<Bytes>>,
    gets: VecDeque<(u64, Bytes)>,
    exp: Vec<Exp>,
    why: Why,
    now: u64,
    d_check: u64,
    rounds: u64,
    commits: u64,
    fired: u64,
    /// QC broadcasts seen, may be repeated
    seen_qc: BTreeSet<(u64, u64, u8, Bytes)>,
    /// the round that the last restart resumed
    resumed: Option<(u64, u64)>,
    /// the validators of this height are not those of the height before
    new_set: bool,
    early: BTreeSet<(u64, u64)>,
}

impl M {
    fn put(&mut self, o: O) {
        if let O::Qc { h, r, t, hash } = &o {
            if !self.seen_qc.insert((*h, *r, *t, hash.clone())) {
                return;
            }
        }
        self.exp.push(Exp { t: self.now, o, why: self.why });
    }
    fn timer(&mut self, k: Tk, ratio: usize) {
        let base = self.interval * self.ratios[ratio] / 10;
        let x = if k == Tk::Brake { base } else { base << self.r.min(5) };
        self.timers.push((self.now + x, k, self.h, self.r));
    }
    fn lead(&self, h: u64, r: u64) -> Bytes {
        ref_leader(h, r, &self.auth)
    }
    fn is_member(&self, a: &Bytes) -> bool {
        self.auth.iter().any(|n| n.address == a)
    }
    fn set_qc(&mut self, q: &AggregatedVote) {
        let t = vt(&q.vote_type);
        self.by_hash.insert((q.height, q.block_hash.clone(), t), q.round);
        self.qcs.insert((q.height, q.round, t), q.clone());
    }
    fn ok(&self, hash: &Bytes) -> bool {
        hash.is_empty() || self.passed.contains(hash)
    }
    fn start_check(&mut self, hash: &Bytes, blk: Option<&Blk>) {
        let ok = blk.is_none_or(|b| (b.height == self.h || b.height == ANY_HEIGHT) && b.hash() == hash && b.alt == 0) && !rejected(&self.w.cfg, 0, hash);
        if ok && self.d_check < 100_000_000 {
            self.checks.push((self.now + self.d_check, self.h, hash.clone()));
        }
    }

    // ---- state machine

    /// Why the round is left, given the kind and the round of the evidence.
    fn reason(&self, ev: (&str, u64)) -> String {
        let (h, r) = (self.h, self.r);
        if ev.1 != r {
            return format!("UpdateFromHigher{}QC({}, {})", ev.0, r, ev.1);
        }
        let pv = self.qcs.get(&(h, r, 1));
        if self.leader {
            let of_block = pv.is_some_and(|q| !q.block_hash.is_empty());
            return format!("LeaderReceivedVoteBelowThreshold({})", if of_block { "Precommit" } else { "Prevote" });
        }
        let x = match self.props.get(&(h, r)) {
            None => "NoProposalFromNetwork",
            Some(p) if !self.passed.contains(&p.proposal.block_hash) => "CheckBlockNotPass",
            _ if pv.is_none() => "NoPrevoteQCFromNetwork",
            _ if !self.qcs.contains_key(&(h, r, 2)) => "NoPrecommitQCFromNetwork",
            _ => "Others",
        };
        x.to_string()
    }
    fn enter_round(&mut self, r: u64, prevoted: bool, ev: (&str, u64)) {
        let last = self.r;
        let why = if r == 0 { String::new() } else { self.reason(ev) };
        self.r = r;
        self.rounds += 1;
        if r != 0 {
            self.put(O::View { h: self.h, r: last, why });
        }
        self.leader = self.lead(self.h, r) == self.me;
        self.timer(Tk::Propose, 0);
        if !self.leader {
            if let Some(p) = self.props.get(&(self.h, r)).cloned() {
                let old = self.why;
                if old != Why::Status {
                    self.why = Why::Early;
                }
                self.handle_proposal(&p);
                self.why = old;
            }
            return;
        }
        if prevoted {
            return;
        }
        match self.lock.clone() {
            None => {
                let hash = match self.gets.iter().position(|g| g.0 == self.h) {
                    Some(i) => self.gets.remove(i).unwrap().1,
                    None => Bytes::from_static(b"no block was asked for"),
                };
                self.put(O::Prop { h: self.h, r, hash: hash.clone(), lock: None });
                self.start_check(&hash, None);
                self.smr_proposal(hash, r, None);
            }
            Some((lr, hash)) => {
                self.put(O::Prop { h: self.h, r, hash: hash.clone(), lock: Some(lr) });
                self.start_check(&hash, None);
                self.smr_proposal(hash, r, Some(lr));
            }
        }
    }
    fn smr_proposal(&mut self, hash: Bytes, r: u64, lr: Option<u64>) {
        if r != self.r || self.step > 0 {
            return;
        }
        let x = match (&self.lock, lr) {
            (None, _) => hash,
            (Some((l, _)), Some(p)) if p > *l => hash,
            (Some((_, x)), _) => x.clone(),
        };
        self.step = 1;
        self.vote(1, x);
    }
    fn vote(&mut self, t: u8, hash: Bytes) {
        if t == 1 {
            self.timer(Tk::Prevote, 1);
        } else {
            self.timer(Tk::Precommit, 2);
        }
        let (h, r) = (self.h, self.r);
        if self.leader {
            let v = SignedVote {
                signature: Bytes::new(),
                vote: Vote { height: h, round: r, vote_type: vty(t), block_hash: hash },
                voter: self.me.clone(),
            };
            self.votes.entry((h, r, t)).or_default().entry(self.me.clone()).or_insert(v);
            self.try_count(t);
        } else {
            let to = self.lead(h, r);
            self.put(O::Vote { to, h, r, t, hash });
            if let Some(q) = self.qcs.get(&(h, r, t)).cloned() {
                if self.ok(&q.block_hash) {
                    self.smr_qc(t, q.block_hash, r);
                }
            }
        }
    }
    fn try_count(&mut self, t: u8) {
        let (h, r) = (self.h, self.r);
        let Some(m) = self.votes.get(&(h, r, t)) else { return };
        let mut by: BTreeMap<Bytes, BTreeSet<Bytes>> = BTreeMap::new();
        for (a, v) in m {
            by.entry(v.vote.block_hash.clone()).or_default().insert(a.clone());
        }
        let Some(hash) = by.into_iter().find(|(_, s)| weight_ok(&self.auth, s)).map(|x| x.0) else { return };
        let q = AggregatedVote {
            signature: AggregatedSignature { signature: Bytes::new(), address_bitmap: Bytes::new() },
            vote_type: vty(t),
            height: h,
            round: r,
            block_hash: hash.clone(),
            leader: self.me.clone(),
        };
        self.set_qc(&q);
        self.put(O::Qc { h, r, t, hash: hash.clone() });
        if self.ok(&hash) {
            self.smr_qc(t, hash, r);
        }
    }
    fn smr_qc(&mut self, t: u8, hash: Bytes, r: u64) {
        if t == 1 {
            if r < self.r || (r == self.r && self.step > 1) {
                return;
            }
            self.lock = if hash.is_empty() { None } else { Some((r, hash.clone())) };
            self.step = 2;
            if r > self.r {
                self.enter_round(r, true, ("Prevote", r));
            }
            self.vote(2, hash);
        } else {
            if self.step == 4 {
                return;
            }
            if hash.is_empty() {
                if r < self.r {
                    return;
                }
                self.step = 0;
                self.enter_round(r + 1, false, ("Precommit", r));
            } else {
                self.step = 4;
                self.commit(hash);
            }
        }
    }
    fn smr_continue(&mut self, r: u64) {
        if r <= self.r {
            return;
        }
        self.step = 0;
        self.enter_round(r, false, ("Choke", r - 1));
    }
    fn commit(&mut self, hash: Bytes) {
        let Some(r) = self.by_hash.get(&(self.h, hash.clone(), 2)).cloned() else { return };
        self.put(O::Commit { h: self.h, r, hash });
        self.commits += 1;
        let next = self.h + 1;
        self.auth = self.w.auth(next);
        let cost = self.now - self.start;
        if self.lead(next, 0) == self.me && cost < self.interval {
            self.busy = Some((self.start + self.interval, next));
        } else {
            self.enter_height(next);
        }
    }
    fn enter_height(&mut self, h: u64) {
        if self.begun && h <= self.h {
            return;
        }
        self.begun = true;
        self.h = h;
        self.r = 0;
        self.timers.clear();
        let auth = self.w.auth(h);
        self.member = auth.iter().any(|n| n.address == self.me);
        if !self.member {
            return;
        }
        self.new_set = h > 1 && self.w.auth(h - 1) != auth;
        self.auth = auth;
        self.start = self.now;
        let e = self.w.cfg.epoch(h).clone();
        if e.announce {
            self.interval = e.interval;
            if let Some(x) = e.ratios {
                self.ratios = x;
            }
        }
        self.passed.clear();
        self.chokes.clear();
        self.lock = None;
        self.step = 0;
        let ps: Vec<SignedProposal<Blk>> = self.props.iter().filter(|p| p.0 .0 == h).map(|p| p.1.clone()).collect();
        let vs: Vec<SignedVote> = self.votes.iter().filter(|v| v.0 .0 == h).flat_map(|v| v.1.values().cloned()).collect();
        let qs: Vec<AggregatedVote> = self.qcs.iter().filter(|q| q.0 .0 == h).map(|q| q.1.clone()).collect();
        self.props.retain(|k, _| k.0 > h);
        self.votes.retain(|k, _| k.0 > h);
        self.qcs.retain(|k, _| k.0 > h);
        self.by_hash.retain(|k, _| k.0 > h);
        self.enter_round(0, false, ("", 0));
        let old = self.why;
        self.why = Why::Early;
        for p in ps {
            self.msg(&OverlordMsg::SignedProposal(p));
        }
        for v in vs {
            self.msg(&OverlordMsg::SignedVote(v));
        }
        for q in qs {
            self.msg(&OverlordMsg::AggregatedVote(q));
        }
        self.why = old;
    }

    // ---- messages

    fn filtered(&self, h: u64, r: u64) -> bool {
        if h == self.h {
            r < self.r || r > self.r.saturating_add(RGAP)
        } else {
            h < self.h || h - self.h > HGAP || r > RGAP
        }
    }
    fn handle_proposal(&mut self, p: &SignedProposal<Blk>) {
        let q = &p.proposal;
        if self.lead(q.height, q.round) != q.proposer {
            return;
        }
        self.start = self.now;
        if self.filtered(q.height, q.round) {
            return;
        }
        let e = self.props.entry((q.height, q.round)).or_insert_with(|| p.clone());
        if e != p || q.height != self.h || q.round != self.r {
            return;
        }
        self.start_check(&q.block_hash.clone(), Some(&q.content));
        if !q.block_hash.is_empty() {
            self.smr_proposal(q.block_hash.clone(), q.round, q.lock.as_ref().map(|l| l.lock_round));
        }
    }
    fn handle_vote(&mut self, v: &SignedVote) {
        let (h, r, t) = (v.vote.height, v.vote.round, vt(&v.vote.vote_type));
        if self.filtered(h, r) || !self.is_member(&v.voter) || (h == self.h && self.qcs.contains_key(&(h, r, t))) {
            return;
        }
        self.votes.entry((h, r, t)).or_default().entry(v.voter.clone()).or_insert_with(|| v.clone());
        if h == self.h {
            self.try_count(t);
        }
    }
    fn handle_qc(&mut self, q: &AggregatedVote) {
        let (h, r, t) = (q.height, q.round, vt(&q.vote_type));
        if h > self.h {
            // what may be forged does not replace anything
            if h - self.h < HGAP && r < RGAP && (!self.qcs.contains_key(&(h, r, t)) || qc_valid(q, &self.auth)) {
                self.set_qc(q);
            }
            return;
        }
        if r < self.r && (t == 1 || q.block_hash.is_empty()) {
            return;
        }
        self.set_qc(q);
        if self.ok(&q.block_hash) {
            self.smr_qc(t, q.block_hash.clone(), r);
        }
    }
    fn choke_quorum(&mut self) -> bool {
        let r = self.r;
        let Some(s) = self.chokes.get(&r) else { return false };
        if !weight_ok(&self.auth, s) {
            return false;
        }
        let relay = s.contains(&self.me);
        self.why = Why::Choke;
        if relay {
            self.put(O::Relay { h: self.h, r });
        }
        self.smr_continue(r + 1);
        true
    }
    fn handle_choke(&mut self, c: &SignedChoke) {
        let (h, r) = (c.choke.height, c.choke.round);
        if h != self.h || r < self.r || !self.is_member(&c.address) {
            return;
        }
        let auth = self.auth.clone();
        if r > self.r {
            match &c.choke.from {
                UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) => {
                    if q.height == self.h && qc_valid(q, &auth) {
                        self.handle_qc(q);
                    }
                }
                UpdateFrom::ChokeQC(q) => {
                    if q.height == self.h && choke_qc_valid(q, &auth) {
                        self.smr_continue(q.round + 1);
                    }
                }
            }
            return;
        }
        self.chokes.entry(r).or_default().insert(c.address.clone());
        if !self.choke_quorum() {
            if let UpdateFrom::ChokeQC(q) = &c.choke.from {
                if q.round == self.r && q.height == self.h && choke_qc_valid(q, &auth) {
                    self.smr_continue(q.round + 1);
                }
            }
        }
    }
    fn msg(&mut self, m: &Msg) {
        if let OverlordMsg::RichStatus(s) = m {
            self.enter_height(s.height);
            return;
        }
        if !self.member || !self.begun {
            return;
        }
        let (h, _, _) = msg_pos(m);
        if h < self.h {
            return;
        }
        let now = h == self.h;
        let auth = self.auth.clone();
        match m {
            OverlordMsg::SignedProposal(p) if prop_signed(p) && (!now || prop_valid(p, &auth)) => self.handle_proposal(p),
            OverlordMsg::SignedVote(v) if vote_valid(v) => self.handle_vote(v),
            OverlordMsg::AggregatedVote(q) if !now || qc_valid(q, &auth) => self.handle_qc(q),
            OverlordMsg::SignedChoke(c) if now && choke_valid(c) => self.handle_choke(c),
            _ => {}
        }
    }

    // ---- time

    fn next_event(&self) -> Option<u64> {
        let mut t: Option<u64> = None;
        let mut up = |x: u64| t = Some(t.map_or(x, |y| y.min(x)));
        if let Some(b) = self.busy {
            up(b.0);
            return t;
        }
        for x in &self.timers {
            up(x.0);
        }
        for x in &self.checks {
            up(x.0);
        }
        t
    }
    /// events of the model around `t`
    fn near(&self, t: u64, gap: u64) -> bool {
        self.timers.iter().map(|x| x.0).chain(self.checks.iter().map(|x| x.0)).chain(self.busy.iter().map(|x| x.0)).any(|x| x.abs_diff(t) <= gap)
    }
    /// Whether two different kinds of events collide, so that their order is not defined.
    fn collision(&self) -> bool {
        let mut v: Vec<(u64, u8)> = self.timers.iter().filter(|x| x.2 == self.h && x.3 == self.r).map(|x| (x.0, 0)).collect();
        v.extend(self.checks.iter().filter(|x| x.1 == self.h).map(|x| (x.0, 1)));
        v.extend(self.busy.iter().map(|x| (x.0, 2)));
        v.sort();
        v.windows(2).any(|w| w[0].1 != w[1].1 && w[1].0 - w[0].0 <= 3)
    }
    /// Runs the model up to and including `t`. Returns false when the order of events is open.
    fn advance(&mut self, t: u64) -> bool {
        loop {
            if self.collision() {
                return false;
            }
            let Some(x) = self.next_event() else { break };
            if x > t {
                break;
            }
            self.now = x;
            self.last_ev = x;
            if let Some((b, h)) = self.busy {
                if b == x {
                    self.busy = None;
                    self.why = Why::Timer;
                    // what came in meanwhile has expired or was not injected
                    self.checks.retain(|c| c.0 > x);
                    self.why = Why::Status;
                    self.enter_height(h);
                    continue;
                }
            }
            if let Some(i) = self.checks.iter().position(|c| c.0 == x) {
                let (_, h, hash) = self.checks.remove(i);
                if h == self.h && self.member {
                    self.why = Why::Check;
                    self.passed.insert(hash.clone());
                    if let Some(r) = self.by_hash.get(&(h, hash.clone(), 2)).cloned() {
                        self.smr_qc(2, hash, r);
                    } else if let Some(r) = self.by_hash.get(&(h, hash.clone(), 1)).cloned() {
                        if r == self.r {
                            self.smr_qc(1, hash, r);
                        }
                    }
                }
                continue;
            }
            let i = self.timers.iter().position(|c| c.0 == x).unwrap();
            let (_, k, h, r) = self.timers.remove(i);
            if h != self.h || r != self.r || !self.member || self.step == 4 {
                continue;
            }
            self.why = Why::Timer;
            match k {
                Tk::Propose if self.step == 0 => {
                    self.fired += 1;
                    self.step = 1;
                    let x = self.lock.clone().map(|l| l.1).unwrap_or_default();
                    self.vote(1, x);
                }
                Tk::Prevote if self.step <= 1 => {
                    self.fired += 1;
                    self.step = 2;
                    self.vote(2, Bytes::new());
                }
                Tk::Precommit => {
                    self.fired += 1;
                    self.step = 3;
                    self.brake();
                }
                Tk::Brake => {
                    self.fired += 1;
                    self.brake();
                }
                _ => {}
            }
        }
        self.now = self.now.max(t);
        true
    }
    fn brake(&mut self) {
        self.put(O::Choke { h: self.h, r: self.r });
        self.timer(Tk::Brake, 3);
        let r = self.r;
        let me = self.me.clone();
        self.chokes.entry(r).or_default().insert(me);
        self.choke_quorum();
    }
    /// Restart from the log; `latest` is the application's newest block.
    fn restart(&mut self, latest: u64) {
        self.why = Why::Restart;
        self.timers.clear();
        self.checks.clear();
        self.passed.clear();
        self.props.clear();
        self.votes.clear();
        self.qcs.retain(|k, _| false && k.0 > 0);
        self.chokes.clear();
        self.start = self.now;
        let in_commit = self.busy.take().is_some();
        let e = self.w.cfg.epoch(latest + 1).clone();
        self.interval = e.interval;
        self.ratios = e.ratios.unwrap_or([24, 10, 5, 3]);
        let auth = self.w.auth(latest + 1);
        let member = auth.iter().any(|n| n.address == self.me);
        self.auth = auth;
        if !member {
            self.h = latest;
            self.member = false;
            self.begun = true;
            self.enter_height(latest + 1);
            return;
        }
        if !self.member {
            // the log is of an earlier height, if there is one at all
            self.member = true;
            self.h = self.h.min(latest);
            self.enter_height(latest + 1);
            return;
        }
        self.leader = self.lead(self.h, self.r) == self.me;
        if in_commit {
            let x = self.by_hash.iter().find(|(k, _)| k.0 == self.h && k.2 == 2 && !k.1.is_empty()).map(|(k, r)| (k.1.clone(), *r));
            self.by_hash.clear();
            if let Some((hash, r)) = x {
                self.by_hash.insert((self.h, hash.clone(), 2), r);
                self.step = 4;
                self.commit(hash);
            }
        } else {
            self.by_hash.clear();
            if let Some((lr, hash)) = self.lock.clone() {
                self.set_qc(&AggregatedVote {
                    signature: AggregatedSignature { signature: Bytes::new(), address_bitmap: Bytes::new() },
                    vote_type: VoteType::Prevote,
                    height: self.h,
                    round: lr,
                    block_hash: hash,
                    leader: Bytes::new(),
                });
            }
            match self.step {
                0 => self.timer(Tk::Propose, 0),
                1 => self.timer(Tk::Prevote, 1),
                2 => self.timer(Tk::Precommit, 2),
                _ => self.brake(),
            }
        }
        self.resumed = Some((self.h, self.r));
        if latest + 1 > self.h && self.busy.is_none() && self.w.cfg.style_b == 0 {
            self.why = Why::Status;
            self.enter_height(latest + 1);
        }
    }
}

pub fn rejected(cfg: &Cfg, slot: usize, hash: &Bytes) -> bool {
    let d = mix_all(&[cfg.seed, slot as u64, hash.get(0..8).map_or(0, |x| u64::from_le_bytes(x.try_into().unwrap_or([0; 8])))]);
    d % 1000 < cfg.reject as u64
}

// ------------------------------------------------------------------ scenario generator

/// Weights of the actions.
#[derive(Clone, Debug)]
pub struct Mix {
    pub silence: u32,
    pub wait: u32,
    pub happy: u32,
    pub proposal: u32,
    pub votes: u32,
    pub qc: u32,
    pub nil: u32,
    pub jump: u32,
    pub early: u32,
    pub choke: u32,
    pub status: u32,
    pub stale_status: u32,
    pub invalid: u32,
    pub far: u32,
    pub restart: u32,
    /// permille of cases with changing validator sets and timing
    pub epochs: u32,
    /// permille of cases with slow or hanging checks
    pub slow_check: u32,
    pub reject: u32,
    pub steps: (u64, u64),
    /// permille of blocks that fit any height, and of those proposed again
    pub any: u32,
    /// permille of forged messages for a height to come
    pub ahead: u32,
    /// stop the node at the end, or before it has begun
    pub stop: bool,
}

impl Mix {
    pub fn base() -> Mix {
        Mix {
            silence: 6,
            wait: 5,
            happy: 6,
            proposal: 8,
            votes: 8,
            qc: 8,
            nil: 4,
            jump: 3,
            early: 4,
            choke: 4,
            status: 1,
            stale_status: 1,
            invalid: 4,
            far: 2,
            restart: 1,
            epochs: 400,
            slow_check: 300,
            reject: 100,
            steps: (20, 60),
            any: 150,
            ahead: 300,
            stop: false,
        }
    }
    /// Mostly silence: the node's own timeouts drive it.
    pub fn timers() -> Mix {
        Mix { silence: 20, wait: 10, nil: 8, jump: 6, choke: 8, restart: 3, happy: 4, epochs: 600, slow_check: 500, ..Mix::base() }
    }
    pub fn early() -> Mix {
        Mix { early: 20, far: 10, happy: 10, invalid: 8, ahead: 800, epochs: 200, ..Mix::base() }
    }
    pub fn hostile() -> Mix {
        Mix { invalid: 25, far: 5, stale_status: 3, ..Mix::base() }
    }
    /// Heights that go well, one after the other.
    pub fn pace() -> Mix {
        Mix { happy: 40, wait: 10, silence: 3, status: 2, epochs: 700, reject: 0, slow_check: 150, ..Mix::base() }
    }
    /// Statuses and changing validator sets.
    pub fn status() -> Mix {
        Mix { status: 8, stale_status: 12, happy: 14, epochs: 900, ..Mix::base() }
    }
    pub fn chokes() -> Mix {
        Mix { choke: 20, silence: 10, jump: 6, nil: 8, ..Mix::base() }
    }
    /// Blocks that come up again at later heights, with checks that take their time.
    pub fn blocks() -> Mix {
        Mix { any: 600, slow_check: 900, happy: 20, restart: 2, reject: 300, ..Mix::base() }
    }
    pub fn bursts() -> Mix {
        Mix { steps: (15, 60), epochs: 500, slow_check: 600, reject: 150, ..Mix::base() }
    }
    pub fn jumps() -> Mix {
        Mix { jump: 14, happy: 4, silence: 4, epochs: 700, ..Mix::base() }
    }
    pub fn stops() -> Mix {
        Mix { stop: true, steps: (0, 25), epochs: 700, slow_check: 600, ..Mix::base() }
    }
    /// Rounds that fail after a lock, with restarts in between.
    pub fn locked() -> Mix {
        Mix { invalid: 8, restart: 10, jump: 12, choke: 10, nil: 6, qc: 10, proposal: 10, happy: 0, status: 0, silence: 3, slow_check: 600, ..Mix::base() }
    }
    pub fn restarts() -> Mix {
        Mix { restart: 14, ..Mix::base() }
    }
}

pub struct Script {
    any: u32,
    ahead: u32,
    w: W,
    rng: Rng,
    m: M,
    cursor: usize,
    seen: Vec<(u64, O)>,
    last: String,
    last_class: &'static str,
    blocks: HashMap<Bytes, Blk>,
    pv: BTreeMap<(u64, u64), Bytes>,
    pc: BTreeMap<(u64, u64), Bytes>,
    decided: BTreeMap<u64, Bytes>,
    early_qc: BTreeSet<u64>,
    bad: Vec<(Vec<&'static str>, String)>,
    steps: u64,
    matched: u64,
    ambiguous: bool,
    classes: BTreeMap<&'static str, u64>,
    sent: Vec<Arc<Msg>>,
}

fn position(m: &Msg) -> (u64, u64) {
    match m {
        OverlordMsg::SignedProposal(p) => (p.proposal.height, p.proposal.round),
        OverlordMsg::SignedVote(v) => (v.vote.height, v.vote.round),
        OverlordMsg::AggregatedVote(q) => (q.height, q.round),
        _ => (0, 0),
    }
}

const REASONS: [(&str, &str); 9] = [
    ("NoProposal", "reason_no_proposal"),
    ("CheckBlock", "reason_not_checked"),
    ("NoPrevote", "reason_no_prevote_qc"),
    ("NoPrecommit", "reason_no_precommit_qc"),
    ("LeaderReceivedVoteBelowThreshold(Prevote", "reason_leader_prevotes"),
    ("LeaderReceivedVoteBelowThreshold(Precommit", "reason_leader_precommits"),
    ("UpdateFromHigherPrevote", "reason_higher_prevote_qc"),
    ("UpdateFromHigherPrecommit", "reason_higher_precommit_qc"),
    ("UpdateFromHigherChoke", "reason_higher_choke_qc"),
];

fn reason_class(why: &str) -> &'static str {
    REASONS.iter().find(|r| why.starts_with(r.0)).map_or("reason_other", |r| r.1)
}

fn tags_missing(why: Why, o: &O) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = match why {
        Why::Timer => vec!["C19"],
        Why::Input => vec!["C23"],
        Why::Check => vec!["C23"],
        Why::Early => vec!["C22"],
        Why::Status => vec!["C20"],
        Why::Restart => vec!["C09"],
        Why::Choke => vec!["C12"],
    };
    match o {
        O::View { .. } => v.push("C24"),
        O::Prop { r: 0, .. } => v.push("C25"),
        O::Prop { .. } => v.push("C12"),
        O::Commit { .. } => v.push("C23"),
        O::Qc { .. } | O::Relay { .. } => v.push("C12"),
        _ => {}
    }
    v
}

impl Script {
    fn observe(&mut self) {
        let mut add = vec![];
        let mut gets = vec![];
        {
            let g = self.w.lock();
            while self.cursor < g.trace.len() {
                let e = &g.trace[self.cursor];
                self.cursor += 1;
                if e.slot != 0 {
                    continue;
                }
                match &e.k {
                    K::Get { h, hash, ok: true } => gets.push((*h, hash.clone())),
                    K::Send { to, msg, ok: true } => {
                        let o = match &**msg {
                            OverlordMsg::SignedVote(v) => O::Vote {
                                to: to.clone().unwrap_or_default(),
                                h: v.vote.height,
                                r: v.vote.round,
                                t: vt(&v.vote.vote_type),
                                hash: v.vote.block_hash.clone(),
                            },
                            OverlordMsg::SignedProposal(p) => O::Prop {
                                h: p.proposal.height,
                                r: p.proposal.round,
                                hash: p.proposal.block_hash.clone(),
                                lock: p.proposal.lock.as_ref().map(|l| l.lock_round),
                            },
                            OverlordMsg::AggregatedVote(q) => O::Qc { h: q.height, r: q.round, t: vt(&q.vote_type), hash: q.block_hash.clone() },
                            OverlordMsg::SignedChoke(c) => {
                                if matches!(&c.choke.from, UpdateFrom::ChokeQC(q) if q.round == c.choke.round) {
                                    O::Relay { h: c.choke.height, r: c.choke.round }
                                } else {
                                    O::Choke { h: c.choke.height, r: c.choke.round }
                                }
                            }
                            _ => continue,
                        };
                        add.push((e.t, o));
                    }
                    K::Commit { h, c } => add.push((e.t, O::Commit { h: *h, r: c.proof.round, hash: c.proof.block_hash.clone() })),
                    K::View { h, r, reason } => add.push((e.t, O::View { h: *h, r: *r, why: reason.clone() })),
                    _ => {}
                }
            }
        }
        self.m.gets.extend(gets);
        self.seen.extend(add);
    }
    /// Compares what the node did with what the model expects up to `t`.
    fn compare(&mut self, t: u64) {
        let mut seen = std::mem::take(&mut self.seen);
        seen.sort_by_key(|s| s.0);
        let mut left = vec![];
        for (ts, o) in seen {
            if let Some(i) = self.m.exp.iter().position(|e| e.o == o && e.t.abs_diff(ts) <= 2) {
                self.m.exp.remove(i);
                self.matched += 1;
                if let O::View { why, .. } = &o {
                    *self.classes.entry(reason_class(why)).or_insert(0) += 1;
                }
                continue;
            }
            if let O::View { h, r, why } = &o {
                let same = self.m.exp.iter().position(|e| matches!(&e.o, O::View { h: a, r: b, .. } if (a, b) == (h, r)) && e.t.abs_diff(ts) <= 2);
                if let Some(i) = same {
                    let e = self.m.exp.remove(i);
                    self.bad.push((vec!["C24"], format!("after {}: expected {}, saw {}", self.last, e.o.show(), why)));
                    continue;
                }
            }
            if let O::Qc { h, r, t, hash } = &o {
                if self.m.seen_qc.contains(&(*h, *r, *t, hash.clone())) {
                    continue;
                }
            }
            left.push((ts, o));
        }
        let missing: Vec<Exp> = self.m.exp.iter().filter(|e| e.t + 2 <= t).cloned().collect();
        self.m.exp.retain(|e| e.t + 2 > t);
        if left.is_empty() && missing.is_empty() {
            return;
        }
        let mut tags: Vec<&'static str> = vec![];
        // the same output at another time
        for e in &missing {
            tags.extend(tags_missing(e.why, &e.o));
        }
        if missing.is_empty() || self.last_class == "invalid" || self.last_class == "far" || self.last_class == "stale status" {
            match self.last_class {
                "silence" | "wait" => tags.push("C19"),
                "far" => tags.push("C22"),
                "early" => tags.push("C22"),
                "invalid" => tags.extend(["C23", "C07"]),
                "status" | "stale status" => tags.push("C20"),
                "restart" => tags.push("C09"),
                "choke" => tags.push("C07"),
                _ => tags.push("C23"),
            }
            for (_, o) in &left {
                match o {
                    O::View { .. } => tags.push("C24"),
                    O::Prop { r: 0, .. } => tags.push("C25"),
                    O::Vote { .. } if !self.m.member => tags.push("C20"),
                    _ => {}
                }
            }
        } else {
            for (ts, o) in &left {
                match o {
                    O::Vote { h, r, t, hash, .. } => {
                        // the vote went to somebody else, or for something else
                        if missing.iter().any(|e| matches!(&e.o, O::Vote { h: a, r: b, t: c, hash: d, .. } if (a, b, c, d) == (h, r, t, hash)) && e.t.abs_diff(*ts) <= 2) {
                            tags.extend(["C23", "C20"]);
                        } else {
                            tags.push("C23");
                        }
                    }
                    O::View { .. } => tags.push("C24"),
                    O::Prop { r: 0, .. } => tags.push("C25"),
                    _ => {}
                }
            }
        }
        let at = (self.m.h, self.m.r);
        if self.m.resumed == Some(at) {
            tags.push("C09");
        }
        if self.m.new_set && self.m.member {
            tags.push("C20");
        }
        if self.m.early.contains(&at) && !missing.is_empty() {
            tags.push("C22");
        }
        tags.sort();
        tags.dedup();
        let show = |v: Vec<String>| if v.is_empty() { "nothing".to_string() } else { v.join("; ") };
        self.bad.push((
            tags,
            format!(
                "after {} at {} ms (h{} r{} step {} lock {:?} member {} leader {}): expected but did not see {}; saw but did not expect {}",
                self.last,
                self.m.now,
                self.m.h,
                self.m.r,
                self.m.step,
                self.m.lock.as_ref().map(|l| (l.0, hx(&l.1))),
                self.m.member,
                self.m.leader,
                show(missing.iter().map(|e| format!("[{} ms] {} ({:?})", e.t, e.o.show(), e.why)).collect()),
                show(left.iter().map(|(t, o)| format!("[{} ms] {}", t, o.show())).collect()),
            ),
        ));
    }
    /// Lets time pass until `t` and checks what happened.
    async fn until(&mut self, t: u64) -> bool {
        let now = self.w.now();
        // not at a moment at which something happens, as that has no order
        let mut t = t;
        loop {
            let mut d = self.m.clone();
            d.exp.clear();
            d.last_ev = 0;
            d.advance(t);
            if d.last_ev + 2 < t && !d.near(t, 2) {
                break;
            }
            t += 3;
        }
        if t > now {
            sleep(Duration::from_millis(t - now)).await;
        }
        self.observe();
        if !self.m.advance(t) {
            self.ambiguous = true;
            return false;
        }
        self.compare(t);
        self.bad.is_empty()
    }
    /// A moment at which nothing of the model is due.
    fn quiet(&mut self, t: u64) -> u64 {
        let mut t = t.max(self.w.now() + 5);
        while self.m.near(t, 6) || self.m.near(t + 4, 6) {
            t += 3;
        }
        t
    }
    async fn settle(&mut self) -> bool {
        let mut t = self.w.now() + 3;
        while self.m.near(t, 2) {
            t += 3;
        }
        self.until(t).await
    }
    async fn inject(&mut self, class: &'static str, m: Msg) -> bool {
        if self.m.busy.is_some() {
            let b = self.m.busy.unwrap().0;
            if !self.until(b + 4).await {
                return false;
            }
        }
        let gap = self.rng.range(5, 40);
        let now = self.w.now();
        let t = self.quiet(now + gap);
        if !self.until(t).await {
            return false;
        }
        if self.m.busy.is_some() {
            return true;
        }
        self.last = format!("{} ({})", show_msg(&m), class);
        self.last_class = class;
        *self.classes.entry(class).or_default() += 1;
        self.steps += 1;
        if class == "early" {
            self.m.early.insert(position(&m));
        }
        let m = Arc::new(m);
        if self.sent.len() < 200 {
            self.sent.push(m.clone());
        }
        if let OverlordMsg::RichStatus(s) = &*m {
            if class == "status" {
                self.w.lock().slots[0].latest = s.height - 1;
            }
            send_status(&self.w, 0, s.height, true);
        } else {
            deliver(&self.w, 1, 0, m.clone());
        }
        sleep(Duration::from_millis(1)).await;
        self.observe();
        self.m.now = self.m.now.max(t).max(self.w.now() - 1);
        self.m.why = match class {
            "status" | "stale status" => Why::Status,
            "choke" => Why::Choke,
            _ => Why::Input,
        };
        self.m.msg(&m);
        self.settle().await
    }

    // ---- pieces

    fn puppets(&self, h: u64) -> Vec<usize> {
        self.w.cfg.epoch(h).vals.iter().map(|v| v.0).filter(|i| *i != 0).collect()
    }
    /// A puppet quorum, at random.
    fn quorum(&mut self, h: u64) -> Vec<usize> {
        let mut p = self.puppets(h);
        self.rng.shuffle(&mut p);
        let auth = self.w.auth(h);
        let mut who = BTreeSet::new();
        let mut out = vec![];
        for i in p {
            if weight_ok(&auth, &who) && !self.rng.pm(300) {
                break;
            }
            who.insert(self.w.addr(i));
            out.push(i);
        }
        out
    }
    fn make_qc(&mut self, h: u64, r: u64, t: u8, hash: &Bytes) -> AggregatedVote {
        let q = self.quorum(h);
        let who: BTreeSet<Bytes> = q.iter().map(|i| self.w.addr(*i)).collect();
        for i in q {
            make_vote(&self.w, i, h, r, t, hash);
        }
        qc_from(&self.w, h, r, t, hash, &who).unwrap()
    }
    fn leader_slot(&self, h: u64, r: u64) -> Option<usize> {
        let a = self.w.leader(h, r);
        (0..self.w.cfg.roles.len()).find(|i| self.w.addr(*i) == a)
    }
    fn decided(&self, h: u64) -> Option<Bytes> {
        self.decided.get(&h).cloned()
    }
    /// Hashes that are in play at (h, r).
    fn candidates(&self, h: u64, r: u64) -> Vec<Bytes> {
        let mut v = vec![];
        if h == self.m.h {
            if let Some(p) = self.m.props.get(&(h, r)) {
                v.push(p.proposal.block_hash.clone());
                v.push(p.proposal.block_hash.clone());
            }
            if let Some(l) = &self.m.lock {
                v.push(l.1.clone());
            }
            for x in &self.m.passed {
                v.push(x.clone());
            }
        } else if let Some(p) = self.m.props.get(&(h, r)) {
            v.push(p.proposal.block_hash.clone());
        }
        v.retain(|x| !x.is_empty());
        v.sort();
        v
    }
    /// The value of the only prevote quorum of (h, r), chosen when first asked for.
    fn pv_value(&mut self, h: u64, r: u64, nil: bool) -> Option<Bytes> {
        if let Some(x) = self.pv.get(&(h, r)) {
            return Some(x.clone());
        }
        // own votes of a leader may already make a quorum of something else
        if let Some(x) = self.m.qcs.get(&(h, r, 1)) {
            return Some(x.block_hash.clone());
        }
        if let Some(x) = self.decided(h) {
            let from = self.pc.iter().find(|(k, v)| k.0 == h && !v.is_empty()).map(|(k, _)| k.1).unwrap_or(0);
            if r > from {
                self.pv.insert((h, r), x.clone());
                return Some(x);
            }
        }
        let c = self.candidates(h, r);
        let x = if nil || c.is_empty() { Bytes::new() } else { self.rng.pick(&c).clone() };
        self.pv.insert((h, r), x.clone());
        Some(x)
    }
    fn pc_value(&mut self, h: u64, r: u64, nil: bool) -> Bytes {
        if let Some(x) = self.pc.get(&(h, r)) {
            return x.clone();
        }
        let mut x = if nil { Bytes::new() } else { self.pv_value(h, r, false).unwrap_or_default() };
        // a decision must not contradict another one, nor a later prevote quorum
        if self.decided(h).is_some_and(|d| d != x) || self.pv.iter().any(|(k, v)| k.0 == h && k.1 > r && *v != x) {
            x = Bytes::new();
        }
        if !x.is_empty() {
            self.pv.insert((h, r), x.clone());
            self.decided.insert(h, x.clone());
        }
        self.pc.insert((h, r), x.clone());
        x
    }
    /// A valid proposal of (h, r) by its leader, unless the node leads it.
    fn proposal(&mut self, h: u64, r: u64) -> Option<SignedProposal<Blk>> {
        let l = self.leader_slot(h, r)?;
        if l == 0 {
            return None;
        }
        let locks: Vec<AggregatedVote> = if h == self.m.h {
            self.m
                .qcs
                .values()
                .filter(|q| q.height == h && q.round < r && q.vote_type == VoteType::Prevote && !q.block_hash.is_empty() && self.blocks.contains_key(&q.block_hash))
                .cloned()
                .collect()
        } else {
            vec![]
        };
        if !locks.is_empty() && (self.decided(h).is_some() || self.rng.pm(600)) {
            let q = self.rng.pick(&locks).clone();
            if self.decided(h).is_none_or(|d| d == q.block_hash) {
                let hash = q.block_hash.clone();
                let c = self.make_qc(h, q.round, 1, &hash);
                let b = self.blocks[&hash].clone();
                return Some(make_proposal(&self.w, l, h, r, b, hash, Some(PoLC { lock_round: q.round, lock_votes: c })));
            }
        }
        let again: Vec<Blk> = self.blocks.values().filter(|b| b.height == ANY_HEIGHT).cloned().collect();
        let b = if !again.is_empty() && self.rng.pm(self.any) {
            // content that fits every height, and was proposed before
            let mut again = again;
            again.sort_by_key(|b| b.nonce);
            self.rng.pick(&again).clone()
        } else {
            let mut b = new_block(&mut self.rng, l, h);
            if self.rng.pm(self.any) {
                b.height = ANY_HEIGHT;
            }
            b
        };
        let hash = b.hash();
        self.blocks.insert(hash.clone(), b.clone());
        Some(make_proposal(&self.w, l, h, r, b, hash, None))
    }
    fn own_blocks(&mut self) {
        let g = self.w.lock();
        for p in &g.wire.props {
            self.blocks.entry(p.proposal.block_hash.clone()).or_insert_with(|| p.proposal.content.clone());
        }
    }

    // ---- actions

    async fn act(&mut self, mix: &Mix) -> bool {
        self.own_blocks();
        let (h, r) = (self.m.h, self.m.r);
        let tab = [
            ("silence", mix.silence),
            ("wait", mix.wait),
            ("happy", mix.happy),
            ("proposal", mix.proposal),
            ("votes", mix.votes),
            ("qc", mix.qc),
            ("nil", mix.nil),
            ("jump", mix.jump),
            ("early", mix.early),
            ("choke", mix.choke),
            ("status", mix.status),
            ("stale", mix.stale_status),
            ("invalid", mix.invalid),
            ("far", mix.far),
            ("restart", mix.restart),
        ];
        let tot: u32 = tab.iter().map(|x| x.1).sum();
        let mut k = self.rng.below(tot as u64) as u32;
        let mut a = "wait";
        for (n, x) in tab {
            if k < x {
                a = n;
                break;
            }
            k -= x;
        }
        if !self.m.member && !matches!(a, "restart" | "invalid" | "far" | "silence") {
            a = match self.rng.below(10) {
                0..=3 => "status",
                4..=5 => "stale",
                _ => a,
            };
        }
        match a {
            "silence" => {
                self.last = "silence".into();
                self.last_class = "silence";
                let n = self.rng.range(1, 6);
                for _ in 0..n {
                    let Some(x) = self.m.next_event() else { break };
                    if x > self.w.now() + 600_000 {
                        break;
                    }
                    let t = self.quiet(x + 3);
                    if !self.until(t).await {
                        return false;
                    }
                }
                *self.classes.entry("silence").or_default() += 1;
                true
            }
            "wait" => {
                self.last = "waiting".into();
                self.last_class = "wait";
                let x = self.w.now() + self.rng.range(5, self.m.interval);
                let t = self.quiet(x);
                self.until(t).await
            }
            "happy" => self.happy(h).await,
            "proposal" => match self.proposal(h, r) {
                Some(p) => self.inject("input", OverlordMsg::SignedProposal(p)).await,
                None => true,
            },
            "votes" => {
                let t = if self.rng.pm(600) { 1 } else { 2 };
                let hash = if t == 1 { self.pv_value(h, r, false).unwrap_or_default() } else { self.pc_value(h, r, false) };
                let mut ps = self.puppets(h);
                self.rng.shuffle(&mut ps);
                let n = self.rng.range(1, ps.len().max(1) as u64) as usize;
                for i in ps.into_iter().take(n) {
                    if (self.m.h, self.m.r) != (h, r) {
                        break;
                    }
                    let v = make_vote(&self.w, i, h, r, t, &hash);
                    if !self.inject("input", OverlordMsg::SignedVote(v)).await {
                        return false;
                    }
                }
                true
            }
            "qc" | "nil" => {
                let t = if self.rng.pm(650) { 1 } else { 2 };
                let nil = a == "nil";
                let hash = if t == 1 { self.pv_value(h, r, nil).unwrap_or_default() } else { self.pc_value(h, r, nil) };
                let q = self.make_qc(h, r, t, &hash);
                self.inject("input", OverlordMsg::AggregatedVote(q)).await
            }
            "jump" => {
                let up = if r < 100 && self.rng.pm(40) {
                    *self.rng.pick(&[7, 12, 40, 260, 1 << 16, (1 << 16) + 3, 1 << 32, (1 << 32) + 1])
                } else {
                    self.rng.range(1, 3)
                };
                let t = if self.rng.pm(600) { 1 } else { 2 };
                let nil = self.rng.pm(400);
                let r2 = if t == 2 && self.rng.pm(300) && r > 0 { self.rng.below(r) } else { r + up };
                let hash = if t == 1 { self.pv_value(h, r2, nil).unwrap_or_default() } else { self.pc_value(h, r2, nil) };
                let q = self.make_qc(h, r2, t, &hash);
                self.inject("input", OverlordMsg::AggregatedVote(q)).await
            }
            "early" => self.early(h, r).await,
            "choke" => self.choke(h, r).await,
            "status" => {
                if self.m.busy.is_some() {
                    return true;
                }
                let h2 = h + self.rng.range(1, 3);
                let st = self.w.status(h2, true);
                self.inject("status", OverlordMsg::RichStatus(st)).await
            }
            "stale" => {
                let h2 = if self.rng.pm(if self.m.member { 700 } else { 200 }) { h } else { h.saturating_sub(self.rng.range(1, 3)) };
                let st = self.w.status(h2, true);
                self.inject("stale status", OverlordMsg::RichStatus(st)).await
            }
            "invalid" => self.invalid(h, r).await,
            "far" => self.far(h, r).await,
            "restart" => self.restart().await,
            _ => true,
        }
    }
    async fn happy(&mut self, h: u64) -> bool {
        let r = self.m.r;
        if self.m.step == 0 && !self.m.leader && !self.m.props.contains_key(&(h, r)) {
            if let Some(p) = self.proposal(h, r) {
                if !self.inject("input", OverlordMsg::SignedProposal(p)).await {
                    return false;
                }
            }
        }
        self.own_blocks();
        for t in [1u8, 2] {
            if (self.m.h, self.m.r) != (h, r) || self.m.busy.is_some() || !self.m.member {
                return true;
            }
            let hash = if t == 1 { self.pv_value(h, r, false).unwrap_or_default() } else { self.pc_value(h, r, false) };
            if self.m.leader || self.rng.pm(200) {
                for i in self.quorum(h) {
                    if (self.m.h, self.m.r) != (h, r) || self.m.busy.is_some() {
                        break;
                    }
                    let v = make_vote(&self.w, i, h, r, t, &hash);
                    if !self.inject("input", OverlordMsg::SignedVote(v)).await {
                        return false;
                    }
                }
            } else {
                let q = self.make_qc(h, r, t, &hash);
                if !self.inject("input", OverlordMsg::AggregatedVote(q)).await {
                    return false;
                }
            }
            if self.m.d_check < 1000 {
                let t = self.quiet(self.w.now() + self.m.d_check + 2);
                if !self.until(t).await {
                    return false;
                }
            }
        }
        true
    }
    async fn early(&mut self, h: u64, r: u64) -> bool {
        let next_round = self.rng.pm(400);
        let (h2, r2) = if next_round {
            let top = if self.rng.pm(200) { RGAP } else { 2 };
            (h, r + self.rng.range(1, top))
        } else {
            let top = if self.rng.pm(200) { HGAP } else { 2 };
            (h + self.rng.range(1, top), if self.rng.pm(700) { 0 } else { self.rng.range(1, 2) })
        };
        // the validator set of that height must admit the senders now and then
        let same = self.w.cfg.epoch(h).from == self.w.cfg.epoch(h2).from;
        if !same && self.rng.pm(500) {
            return true;
        }
        let kind = self.rng.below(3);
        match kind {
            0 => match self.proposal(h2, r2) {
                Some(p) if !self.m.props.contains_key(&(h2, r2)) => self.inject("early", OverlordMsg::SignedProposal(p)).await,
                _ => true,
            },
            1 => {
                let t = if self.rng.pm(700) { 1 } else { 2 };
                let hash = if t == 1 { self.pv_value(h2, r2, false).unwrap_or_default() } else { self.pc_value(h2, r2, false) };
                if hash.is_empty() && h2 > h {
                    return true;
                }
                let n = self.rng.range(1, 5) as usize;
                for i in self.quorum(h2).into_iter().take(n) {
                    let v = make_vote(&self.w, i, h2, r2, t, &hash);
                    if !self.inject("early", OverlordMsg::SignedVote(v)).await {
                        return false;
                    }
                }
                true
            }
            _ => {
                if h2 == h || h2 - h >= HGAP || self.leader_slot(h2, 0) == Some(0) {
                    return true;
                }
                if self.early_qc.contains(&h2) {
                    return true;
                }
                let t = if self.rng.pm(700) { 1 } else { 2 };
                let hash = if t == 1 { self.pv_value(h2, r2, false).unwrap_or_default() } else { self.pc_value(h2, r2, self.rng.state() & 1 == 0) };
                if hash.is_empty() && (t == 1 || r2 > 0) {
                    return true;
                }
                self.early_qc.insert(h2);
                let q = self.make_qc(h2, r2, t, &hash);
                self.inject("early", OverlordMsg::AggregatedVote(q)).await
            }
        }
    }
    async fn choke(&mut self, h: u64, r: u64) -> bool {
        let up = if self.rng.pm(700) { 0 } else { self.rng.range(1, 2) };
        let cr = r + up;
        // the choke of the round along with the certificate that ends it
        let ended = up == 0 && self.rng.pm(200);
        let from = if ended {
            UpdateFrom::ChokeQC(self.make_choke_qc(h, cr))
        } else if cr == 0 {
            UpdateFrom::PrecommitQC(mock_qc())
        } else {
            match self.rng.below(3) {
                0 => {
                    let x = self.pv_value(h, cr, self.rng.state() & 1 == 0).unwrap_or_default();
                    UpdateFrom::PrevoteQC(self.make_qc(h, cr, 1, &x))
                }
                1 => {
                    let x = self.pc_value(h, cr - 1, true);
                    if !x.is_empty() {
                        return true;
                    }
                    UpdateFrom::PrecommitQC(self.make_qc(h, cr - 1, 2, &x))
                }
                _ => UpdateFrom::ChokeQC(self.make_choke_qc(h, cr - 1)),
            }
        };
        let all = self.rng.pm(500);
        let mut q = self.quorum(h);
        if !all {
            let n = self.rng.range(1, q.len().max(1) as u64) as usize;
            q.truncate(n);
        }
        for i in q {
            if self.m.h != h || self.m.r > cr {
                break;
            }
            let c = make_choke(&self.w, i, h, cr, from.clone());
            if !self.inject("choke", OverlordMsg::SignedChoke(c)).await {
                return false;
            }
            if up > 0 || ended {
                break;
            }
        }
        true
    }
    fn make_choke_qc(&mut self, h: u64, r: u64) -> AggregatedChoke {
        let q = self.quorum(h);
        let mut voters = vec![];
        let mut sigs = vec![];
        for i in q {
            let c = make_choke(&self.w, i, h, r, UpdateFrom::PrecommitQC(mock_qc()));
            voters.push(c.address);
            sigs.push(c.signature);
        }
        AggregatedChoke { height: h, round: r, signature: agg_of(&sigs), voters }
    }
    fn corrupt(&mut self, s: &Bytes) -> Bytes {
        let mut v = s.to_vec();
        if v.is_empty() {
            return Bytes::from(self.rng.bytes(32));
        }
        let i = self.rng.usize(v.len());
        v[i] ^= 1 << self.rng.below(8);
        Bytes::from(v)
    }
    /// Messages of the current height that must not have any effect.
    async fn invalid(&mut self, h: u64, r: u64) -> bool {
        if self.m.member && self.rng.pm(self.ahead) {
            // ahead of the genuine message of its kind
            let h2 = h + self.rng.range(1, 2);
            let r2 = if self.rng.pm(700) { 0 } else { self.rng.range(1, 2) };
            if self.w.cfg.epoch(h).from != self.w.cfg.epoch(h2).from {
                return true;
            }
            let (oh, or) = (self.m.h, self.m.r);
            let m = self.forge(h2, r2);
            (self.m.h, self.m.r) = (oh, or);
            return match m {
                Some(m) => self.inject("invalid", m).await,
                _ => true,
            };
        }
        match self.forge(h, r) {
            Some(m) => self.inject("invalid", m).await,
            None => true,
        }
    }
    fn forge(&mut self, h: u64, r: u64) -> Option<Msg> {
        let out = self.w.cfg.roles.len() - 1; // never a validator
        let r2 = r + if self.rng.pm(300) { self.rng.range(1, 3) } else { 0 };
        let lock = self.m.lock.clone().filter(|_| h == self.m.h);
        let kind = if lock.is_some() && self.m.step == 0 && self.rng.pm(500) { 16 } else { self.rng.below(18) };
        let some = {
            let c = self.candidates(h, r);
            if c.is_empty() || self.rng.pm(300) {
                if self.rng.pm(500) {
                    Bytes::new()
                } else {
                    Bytes::from(self.rng.bytes(32))
                }
            } else {
                self.rng.pick(&c).clone()
            }
        };
        let ty = 1 + self.rng.below(2) as u8;
        let ps = self.puppets(h);
        let p0 = *self.rng.pick(&ps);
        let unsigned_qc = |s: &mut Self| -> AggregatedVote {
            // no real signatures of its own behind it
            let n = s.w.auth(h).len();
            let all: Vec<usize> = (0..n).collect();
            AggregatedVote {
                signature: AggregatedSignature { signature: Bytes::from(s.rng.bytes(32)), address_bitmap: bitmap(n, &all) },
                vote_type: vty(ty),
                height: h,
                round: r2,
                block_hash: some.clone(),
                leader: s.w.leader(h, r2),
            }
        };
        let m: Msg = match kind {
            // proposals
            0 | 1 => {
                let Some(l) = self.leader_slot(h, r).filter(|l| *l != 0) else { return None };
                let b = new_block(&mut self.rng, l, h);
                let hash = b.hash();
                let mut p = make_proposal(&self.w, l, h, r, b, hash, None);
                if kind == 0 {
                    p.signature = self.corrupt(&p.signature);
                } else {
                    // signed by another validator in the leader's name
                    p.signature = sig_of(&self.w.addr(if p0 == l { out } else { p0 }), &hash_msg(&rlp::encode(&p.proposal)));
                }
                OverlordMsg::SignedProposal(p)
            }
            2 | 3 => {
                // by somebody who does not lead
                let who = if kind == 2 { out } else { p0 };
                if self.leader_slot(h, r) == Some(who) {
                    return None;
                }
                let b = new_block(&mut self.rng, who, h);
                let hash = b.hash();
                OverlordMsg::SignedProposal(make_proposal(&self.w, who, h, r, b, hash, None))
            }
            4 | 5 => {
                // proof of lock that proves nothing
                if r == 0 {
                    return None;
                }
                let Some(l) = self.leader_slot(h, r).filter(|l| *l != 0) else { return None };
                let b = new_block(&mut self.rng, l, h);
                let hash = b.hash();
                let mut q = unsigned_qc(self);
                q.vote_type = VoteType::Prevote;
                q.round = r - 1;
                q.block_hash = hash.clone();
                let mut lr = r - 1;
                if kind == 5 {
                    // a real certificate, but for another block or another round
                    let c: Vec<AggregatedVote> = self.m.qcs.values().filter(|q| q.height == h && q.round < r && q.vote_type == VoteType::Prevote && !q.block_hash.is_empty()).cloned().collect();
                    if c.is_empty() {
                        return None;
                    }
                    let c = self.rng.pick(&c).clone();
                    q = self.make_qc(h, c.round, 1, &c.block_hash);
                    lr = c.round;
                }
                OverlordMsg::SignedProposal(make_proposal(&self.w, l, h, r, b, hash, Some(PoLC { lock_round: lr, lock_votes: q })))
            }
            16 | 17 => {
                // a proof of lock in which one thing is wrong, every signature being genuine
                if r == 0 {
                    return None;
                }
                let Some(l) = self.leader_slot(h, r).filter(|l| *l != 0) else { return None };
                let c: Vec<AggregatedVote> = self.m.qcs.values().filter(|q| q.height == h && q.round < r && !q.block_hash.is_empty() && self.blocks.contains_key(&q.block_hash)).cloned().collect();
                if let (Some((l0, x)), true) = (&lock, self.rng.pm(700)) {
                    // an older certificate for another block, said to be newer than the lock
                    let c: Vec<&AggregatedVote> = c.iter().filter(|q| q.round <= *l0 && q.block_hash != x).collect();
                    let (b, hash, cr) = if c.is_empty() {
                        let b = new_block(&mut self.rng, l, h);
                        let hash = b.hash();
                        (b, hash, self.rng.below(*l0 + 1))
                    } else {
                        let c = *self.rng.pick(&c);
                        (self.blocks[&c.block_hash].clone(), c.block_hash.clone(), c.round)
                    };
                    let lr = self.rng.range(*l0 + 1, r.max(*l0 + 2) - 1);
                    let t = if self.rng.pm(700) { 1 } else { 2 };
                    let q = self.make_qc_unlogged(h, if t == 1 { cr } else { lr }, t, &hash);
                    return Some(OverlordMsg::SignedProposal(make_proposal(&self.w, l, h, r, b, hash, Some(PoLC { lock_round: lr, lock_votes: q }))));
                }
                let (b, hash, cr) = if c.is_empty() || self.rng.pm(300) {
                    let b = new_block(&mut self.rng, l, h);
                    let hash = b.hash();
                    (b, hash, self.rng.below(r))
                } else {
                    let c = self.rng.pick(&c).clone();
                    (self.blocks[&c.block_hash].clone(), c.block_hash, c.round)
                };
                let (q, lr) = match self.rng.below(5) {
                    // for precommits
                    0 => (self.make_qc_unlogged(h, cr, 2, &hash), cr),
                    // of another height
                    1 => {
                        let x = if h > 1 && self.rng.pm(600) { h - 1 } else { h + 1 };
                        (self.make_qc_unlogged(x, cr, 1, &hash), cr)
                    }
                    // not of the round claimed
                    2 => (self.make_qc_unlogged(h, cr, 1, &hash), if r >= cr + 2 { self.rng.range(cr + 1, r - 1) } else { cr + 1 }),
                    3 if cr > 0 => (self.make_qc_unlogged(h, cr, 1, &hash), cr - 1),
                    // of this round or a later one
                    _ => {
                        let x = r + self.rng.below(3);
                        (self.make_qc_unlogged(h, x, 1, &hash), x)
                    }
                };
                OverlordMsg::SignedProposal(make_proposal(&self.w, l, h, r, b, hash, Some(PoLC { lock_round: lr, lock_votes: q })))
            }
            // votes
            6 => {
                let mut v = make_vote(&self.w, out, h, r2, ty, &some);
                if self.rng.pm(500) {
                    v.voter = self.w.addr(p0);
                }
                OverlordMsg::SignedVote(v)
            }
            7 => {
                let s = self.rng.bytes(32);
                OverlordMsg::SignedVote(SignedVote {
                    signature: Bytes::from(s),
                    vote: Vote { height: h, round: r2, vote_type: vty(ty), block_hash: some },
                    voter: self.w.addr(p0),
                })
            }
            // certificates
            8 => OverlordMsg::AggregatedVote(unsigned_qc(self)),
            9 => {
                // too little weight, genuine signatures
                let auth = self.w.auth(h);
                let mut q = self.quorum(h);
                while weight_ok(&auth, &q.iter().map(|i| self.w.addr(*i)).collect()) {
                    q.pop();
                }
                if q.is_empty() {
                    return None;
                }
                if some.is_empty() && ty == 2 && r2 < 3 && self.rng.pm(500) {
                    return None;
                }
                let who: BTreeSet<Bytes> = q.iter().map(|i| self.w.addr(*i)).collect();
                let vh = vote_hash(h, r2, ty, &some);
                let idx: Vec<usize> = (0..auth.len()).filter(|i| who.contains(&auth[*i].address)).collect();
                let sigs: Vec<Bytes> = who.iter().map(|a| sig_of(a, &vh)).collect();
                let mut c = unsigned_qc(self);
                let mut bm = bitmap(auth.len(), &idx).to_vec();
                if self.rng.pm(400) {
                    // bits beyond the list
                    let n = auth.len();
                    if n % 8 != 0 {
                        let last = bm.len() - 1;
                        for b in n % 8..8 {
                            bm[last] |= 0x80 >> b;
                        }
                    } else {
                        bm.push(0xff);
                    }
                }
                c.signature = AggregatedSignature { signature: agg_of(&sigs), address_bitmap: Bytes::from(bm) };
                OverlordMsg::AggregatedVote(c)
            }
            10 => {
                // a genuine certificate relabelled: other round, type, hash or height
                let v: Vec<AggregatedVote> = self.sent.iter().rev().filter_map(|m| if let OverlordMsg::AggregatedVote(q) = &**m { Some(q.clone()) } else { None }).filter(|q| q.height == h).take(5).collect();
                if v.is_empty() {
                    return None;
                }
                let mut q = self.rng.pick(&v).clone();
                match self.rng.below(3) {
                    0 => q.round = r2.max(q.round + 1),
                    1 => q.vote_type = if q.vote_type == VoteType::Prevote { VoteType::Precommit } else { VoteType::Prevote },
                    _ => q.block_hash = if q.block_hash.is_empty() { Bytes::from(self.rng.bytes(32)) } else { Bytes::new() },
                }
                if qc_valid(&q, &self.m.auth) {
                    return None;
                }
                OverlordMsg::AggregatedVote(q)
            }
            11 => {
                // two validators' bits, one signature
                let mut q = self.make_qc_unlogged(h, r2, ty, &some);
                q.signature.signature = self.corrupt(&q.signature.signature);
                OverlordMsg::AggregatedVote(q)
            }
            // chokes
            12 => {
                let mut c = make_choke(&self.w, out, h, r2, UpdateFrom::PrecommitQC(mock_qc()));
                if self.rng.pm(500) {
                    c.address = self.w.addr(p0);
                }
                OverlordMsg::SignedChoke(c)
            }
            13 => {
                let mut q = unsigned_qc(self);
                q.round = r2 + 1;
                let from = if ty == 1 { UpdateFrom::PrevoteQC(q) } else { UpdateFrom::PrecommitQC(q) };
                OverlordMsg::SignedChoke(make_choke(&self.w, p0, h, r2 + 1, from))
            }
            14 => {
                // choke certificate with repeated voters, or with forged signatures
                let a = self.w.addr(p0);
                let n = self.w.auth(h).len();
                let s = sig_of(&a, &choke_hash(h, r2));
                let mut q = AggregatedChoke { height: h, round: r2, signature: agg_of(&vec![s; n]), voters: vec![a.clone(); n] };
                if self.rng.pm(500) {
                    q.voters = self.w.auth(h).iter().map(|n| n.address.clone()).collect();
                }
                OverlordMsg::SignedChoke(make_choke(&self.w, p0, h, r2 + 1, UpdateFrom::ChokeQC(q)))
            }
            _ => {
                let s = self.rng.bytes(32);
                OverlordMsg::SignedChoke(SignedChoke { signature: Bytes::from(s), choke: Choke { height: h, round: r2, from: UpdateFrom::PrecommitQC(mock_qc()) }, address: self.w.addr(p0) })
            }
        };
        Some(m)
    }
    fn make_qc_unlogged(&mut self, h: u64, r: u64, t: u8, hash: &Bytes) -> AggregatedVote {
        let auth = self.w.auth(h);
        let who: BTreeSet<Bytes> = self.quorum(h).iter().map(|i| self.w.addr(*i)).collect();
        let idx: Vec<usize> = (0..auth.len()).filter(|i| who.contains(&auth[*i].address)).collect();
        let vh = vote_hash(h, r, t, hash);
        let sigs: Vec<Bytes> = who.iter().map(|a| sig_of(a, &vh)).collect();
        AggregatedVote {
            signature: AggregatedSignature { signature: agg_of(&sigs), address_bitmap: bitmap(auth.len(), &idx) },
            vote_type: vty(t),
            height: h,
            round: r,
            block_hash: hash.clone(),
            leader: self.w.leader(h, r),
        }
    }
    /// Genuine messages that are too old or too far ahead.
    async fn far(&mut self, h: u64, r: u64) -> bool {
        let old = self.rng.pm(400);
        let (h2, r2) = if old {
            if self.rng.pm(500) && r > 0 {
                (h, self.rng.below(r))
            } else {
                (h.saturating_sub(1), self.rng.below(4))
            }
        } else if self.rng.pm(400) {
            (h, r + RGAP + 1 + self.rng.below(3))
        } else if self.rng.pm(500) {
            (h + HGAP + 1 + self.rng.below(2), 0)
        } else {
            (h + self.rng.range(1, 3), RGAP + 1 + self.rng.below(3))
        };
        if h2 == 0 {
            return true;
        }
        let kind = self.rng.below(4);
        let m: Msg = match kind {
            0 => {
                let Some(l) = self.leader_slot(h2, r2).filter(|l| *l != 0) else { return true };
                let b = new_block(&mut self.rng, l, h2);
                let hash = b.hash();
                OverlordMsg::SignedProposal(make_proposal(&self.w, l, h2, r2, b, hash, None))
            }
            1 | 2 => {
                let t = 1 + self.rng.below(2) as u8;
                let ps = self.puppets(h2);
                let i = *self.rng.pick(&ps);
                let hash = if let Some(x) = if t == 1 { self.pv.get(&(h2, r2)) } else { self.pc.get(&(h2, r2)) } { x.clone() } else { Bytes::new() };
                OverlordMsg::SignedVote(make_vote(&self.w, i, h2, r2, t, &hash))
            }
            _ => {
                if h2 == h && !old {
                    return true;
                }
                let t = 1 + self.rng.below(2) as u8;
                // nothing is decided by an old certificate that only names no block
                if old && t == 2 && self.pc_value(h2, r2, true) != Bytes::new() {
                    return true;
                }
                let hash = if t == 1 { self.pv_value(h2, r2, true).unwrap_or_default() } else { self.pc_value(h2, r2, true) };
                OverlordMsg::AggregatedVote(self.make_qc(h2, r2, t, &hash))
            }
        };
        self.inject("far", m).await
    }
    async fn restart(&mut self) -> bool {
        if !self.m.member && self.w.cfg.epoch(self.m.h).vals.iter().all(|v| v.0 != 0) && !self.excluded_after_restart() {
            // the log is of an earlier height, which the node would take up first
            return true;
        }
        let now = self.w.now();
        let g = self.rng.range(5, 30);
        let t = if self.m.busy.is_some() {
            let b = self.m.busy.unwrap().0;
            if b < now + 40 {
                return true;
            }
            now + g
        } else {
            self.quiet(now + g)
        };
        if !self.until(t).await {
            return false;
        }
        if self.m.busy.is_some_and(|b| b.0 < t + 20) {
            return true;
        }
        crash(&self.w, 0, None, "scripted");
        let down = self.rng.range(5, 500);
        sleep(Duration::from_millis(down)).await;
        self.observe();
        self.compare(t + 1);
        if !self.bad.is_empty() {
            return false;
        }
        let skip = self.m.busy.is_none() && self.w.cfg.style_b == 0 && self.rng.pm(150);
        if skip {
            let h2 = self.m.h + self.rng.range(1, 2);
            self.w.lock().slots[0].latest = h2 - 1;
        }
        let latest = self.w.lock().slots[0].latest;
        self.last = format!("restart with latest block {}", latest);
        self.last_class = "restart";
        *self.classes.entry("restart").or_default() += 1;
        self.steps += 1;
        let t2 = self.w.now();
        self.m.gets.clear();
        start_node(&self.w, 0);
        sleep(Duration::from_millis(1)).await;
        self.observe();
        self.m.now = t2;
        self.m.restart(latest);
        self.settle().await
    }
}

impl Script {
    fn excluded_after_restart(&self) -> bool {
        let latest = self.w.lock().slots[0].latest;
        (latest + 1..latest + 4).all(|h| self.w.cfg.epoch(h).vals.iter().all(|v| v.0 != 0))
    }
}

pub fn cfg(seed: u64, mix: &Mix) -> Cfg {
    let mut rng = Rng::new(seed);
    let n = rng.range(4, 8) as usize;
    let mut c = Cfg::plain(seed, n + 2);
    c.roles = vec![Role::Puppet; n + 2];
    c.roles[0] = Role::Honest;
    c.net.post = crate::sim::Lat::new(0, 0);
    c.d_check = Lat::new(7, 7);
    if rng.pm(mix.slow_check) {
        let x = [2u64, 60, 411, 5003, 1_000_000_000][rng.usize(5)];
        c.d_check = Lat::new(x, x);
    }
    c.d_get = Lat::new(0, 0);
    c.d_commit = Lat::new(0, 0);
    c.sync.every = 0;
    c.shuffle = true;
    // started at the height itself, without a status
    c.style_b = if rng.pm(150) { 1000 } else { 0 };
    // stopped before its first height
    c.no_status = mix.stop && c.style_b == 0 && rng.pm(150);
    c.reject = if rng.pm(300) { mix.reject * 3 } else { 0 };
    c.reject_until = u64::MAX;
    let mut epochs = vec![];
    let k = if rng.pm(mix.epochs) { rng.range(2, 5) } else { 1 };
    let mut from = 0;
    for e in 0..k {
        // slot n + 1 is never a validator, slot n sometimes
        let mut vals: Vec<(usize, u32, u32)> = vec![];
        loop {
            vals.clear();
            let equal = rng.pm(400);
            let m = rng.range(4, n as u64) as usize;
            let mut all: Vec<usize> = (1..=n).collect();
            rng.shuffle(&mut all);
            let excluded = e > 0 && rng.pm(250);
            if !excluded {
                vals.push((0, 1, if equal { 1 } else { rng.range(1, 6) as u32 }));
            }
            for i in all.into_iter().take(m) {
                vals.push((i, 1, if equal { 1 } else { rng.range(1, 8) as u32 }));
            }
            if crate::codec::weighted() {
                for v in vals.iter_mut() {
                    v.1 = *rng.pick(&[0, 1, 1, 2, 5, 1000, u32::MAX]);
                }
                if vals.iter().all(|v| v.1 == 0) {
                    vals[0].1 = 1;
                }
            }
            let tot: u64 = vals.iter().map(|v| v.2 as u64).sum();
            let me: u64 = vals.iter().filter(|v| v.0 == 0).map(|v| v.2 as u64).sum();
            if (tot - me) * 3 > tot * 2 {
                break;
            }
        }
        let mut interval = *rng.pick(&[300u64, 500, 1000, 1000, 2000, 3000]);
        if rng.pm(300) {
            interval += rng.range(1, 99);
        }
        match rng.below(25) {
            0 => interval = rng.range(200, 299),
            1 => interval = rng.range(3_000, 6_000),
            _ => {}
        }
        let ratios = if rng.pm(500) { Some([rng.range(2, 40), rng.range(2, 30), rng.range(2, 20), rng.range(2, 15)]) } else { None };
        epochs.push(Epoch { from, vals, interval, ratios, announce: true });
        from += rng.range(1, 4) + if e == 0 { 2 } else { 0 };
    }
    // an epoch without ratios keeps those of the epoch before
    c.epochs = epochs;
    if rng.pm(500) {
        c.recur = mix.any;
    }
    c
}

/// One scripted run.
pub fn run_script(seed: u64, mix: &Mix, verbose: bool) -> CaseResult {
    let c = cfg(seed, mix);
    let mix2 = mix.clone();
    let cell: Arc<std::sync::Mutex<Option<Report>>> = Arc::new(std::sync::Mutex::new(None));
    let cell2 = cell.clone();
    let mut out = run_with(c, move |w| {
        Box::pin(async move {
            let rep = script(&w, seed, &mix2).await;
            *cell2.lock().unwrap() = Some(rep);
            true
        })
    });
    out.reached = true;
    let rep = cell.lock().unwrap().take();
    judge_script(&out, rep, mix, verbose)
}

fn judge_script(out: &Outcome, rep: Option<Report>, mix: &Mix, verbose: bool) -> CaseResult {
    let mut r = CaseResult { evals: 1, ..Default::default() };
    if verbose {
        r.log.push(format!("{:#?}", out.cfg));
        for (i, e) in out.trace.iter().enumerate() {
            r.log.push(format!("{:>6} {}", i, show(e)));
        }
    }
    let v = monitors::safety(out);
    r.viols = v.viols;
    r.stats = v.stats;
    let mut led = CaseResult::default();
    crate::codec::routed(out, out.cfg.seed, &mut led);
    r.viols.extend(led.viols);
    r.stats.add("votes_routed", led.stats.get("votes_routed"));
    r.stats.add("proposals_judged", led.stats.get("proposals_judged"));
    if mix.stop {
        let (n, busy) = crate::calm::judge_stops(out, 4000, &mut r.viols);
        r.stats.add("stops", n);
        // nothing was recorded or announced before
        let end = out.trace.iter().position(|e| matches!(e.k, K::Stop)).unwrap_or(0);
        let begun = out.trace[..end].iter().any(|e| matches!(e.k, K::Status { .. } | K::WalSave { .. } | K::Sign { .. }));
        let zero = out.trace[..end].iter().any(|e| matches!(e.k, K::Start { init: 0, .. }));
        if n > 0 && !begun {
            r.stats.add(if zero { "stops_at_height_zero" } else { "stops_before_status" }, 1);
        }
        r.stats.add("actions_between_stop_and_return", busy);
        if n > 0 {
            r.shapes.push(crate::checks::shape(out));
        }
    }
    if let Some(rep) = rep {
        r.evals = rep.steps;
        r.stats.add("scripted_inputs", rep.steps);
        r.stats.add("outputs_matched", rep.matched);
        r.stats.add("timeouts_matched", rep.fired);
        r.stats.add("scripted_rounds", rep.rounds);
        r.stats.add("scripted_commits", rep.commits);
        if rep.ambiguous {
            r.stats.add("scripts_cut_short", 1);
        }
        for (k, n) in &rep.classes {
            r.stats.add(
                match *k {
                    "input" => "inputs_current",
                    "early" => "inputs_early",
                    "far" => "inputs_far_or_old",
                    "invalid" => "inputs_invalid",
                    "status" => "inputs_status",
                    "stale status" => "inputs_stale_status",
                    "choke" => "inputs_choke",
                    "restart" => "inputs_restart",
                    "silence" => "silences",
                    x if x.starts_with("reason_") => k,
                    _ => "inputs_other",
                },
                *n,
            );
        }
        for (tags, m) in &rep.bad {
            for t in tags {
                r.viols.push(Viol { prop: t, idx: 0, msg: m.clone() });
            }
        }
        if rep.matched > 3 {
            r.shapes.push(crate::checks::shape(out));
            r.stats.add("nontrivial_cases", 1);
            r.sample = Some(crate::checks::describe(out, &r.stats));
        }
    }
    r
}

pub struct Report {
    bad: Vec<(Vec<&'static str>, String)>,
    steps: u64,
    matched: u64,
    fired: u64,
    rounds: u64,
    commits: u64,
    ambiguous: bool,
    classes: BTreeMap<&'static str, u64>,
}

fn fresh(w: &W, seed: u64, mix: &Mix) -> (Script, u64, u64) {
    let mut rng = Rng::new(mix_all(&[seed, 77]));
    let h0 = if w.cfg.no_status && rng.pm(500) { 1 } else { rng.range(1, 6) };
    let first = w.cfg.epoch(h0).clone();
    w.lock().slots[0].latest = h0 - 1;
    let me = w.addr(0);
    let m = M {
        last_ev: 0,
        w: w.clone(),
        me,
        h: 0,
        r: 0,
        step: 0,
        lock: None,
        member: true,
        leader: false,
        begun: false,
        auth: w.auth(h0),
        interval: first.interval,
        ratios: first.ratios.unwrap_or([24, 10, 5, 3]),
        timers: vec![],
        checks: vec![],
        busy: None,
        start: 0,
        passed: HashSet::new(),
        props: BTreeMap::new(),
        votes: BTreeMap::new(),
        qcs: BTreeMap::new(),
        by_hash: HashMap::new(),
        chokes: BTreeMap::new(),
        gets: VecDeque::new(),
        exp: vec![],
        why: Why::Status,
        now: 0,
        d_check: w.cfg.d_check.lo,
        rounds: 0,
        commits: 0,
        fired: 0,
        seen_qc: BTreeSet::new(),
            resumed: None,
            new_set: false,
            early: BTreeSet::new(),
    };
    let steps = rng.range(mix.steps.0, mix.steps.1);
    let s = Script {
        any: mix.any,
        ahead: mix.ahead,
        w: w.clone(),
        rng,
        m,
        cursor: 0,
        seen: vec![],
        last: "start".into(),
        last_class: "status",
        blocks: HashMap::new(),
        pv: BTreeMap::new(),
        pc: BTreeMap::new(),
        decided: BTreeMap::new(),
        early_qc: BTreeSet::new(),
        bad: vec![],
        steps: 0,
        matched: 0,
        ambiguous: false,
        classes: BTreeMap::new(),
        sent: vec![],
    };
    (s, h0, steps)
}

async fn script(w: &W, seed: u64, mix: &Mix) -> Report {
    let (mut s, h0, steps) = fresh(w, seed, mix);
    start_node(w, 0);
    sleep(Duration::from_millis(1)).await;
    s.observe();
    if w.cfg.style_b > 0 {
        s.m.h = h0;
        s.m.begun = true;
        s.m.member = s.m.auth.iter().any(|n| n.address == s.m.me);
        s.m.leader = s.m.lead(h0, 0) == s.m.me;
        if s.m.member {
            s.m.timer(Tk::Propose, 0);
        }
    } else if !w.cfg.no_status {
        s.m.enter_height(h0);
    } else {
        s.m.h = h0;
        s.m.enter_height(h0);
        for _ in 0..s.rng.below(4) {
            let k = s.rng.range(1, 3) as u8;
            let q = s.make_qc(h0, 0, k.min(2), &Bytes::new());
            deliver(w, 1, 0, Arc::new(OverlordMsg::AggregatedVote(q)));
        }
    }
    if w.cfg.no_status {
        s.m.exp.clear();
    } else if s.settle().await {
        for _ in 0..steps {
            if !s.act(mix).await {
                break;
            }
        }
    }
    if mix.stop {
        let gap = if s.rng.pm(500) { s.rng.range(0, 30) } else { s.rng.range(0, 3 * s.m.interval) };
        sleep(Duration::from_millis(gap)).await;
        if s.rng.pm(300) {
            // something in flight at that very moment
            if let Some(p) = s.proposal(s.m.h, s.m.r) {
                deliver(w, 1, 0, Arc::new(OverlordMsg::SignedProposal(p)));
            }
            let h = s.m.h;
            let hash = s.pv_value(h, s.m.r, false).unwrap_or_default();
            let q = s.make_qc(h, s.m.r, 1, &hash);
            deliver(w, 1, 0, Arc::new(OverlordMsg::AggregatedVote(q)));
        }
        stop_node(w, 0);
        let sent = s.sent.clone();
        if s.rng.pm(500) {
            let x = s.rng.range(1, s.m.interval);
            sleep(Duration::from_millis(x)).await;
        }
        for k in 0..12 {
            let m = if sent.is_empty() || k % 4 == 3 {
                Arc::new(OverlordMsg::RichStatus(w.status(s.m.h + k / 4, true)))
            } else {
                s.rng.pick(&sent).clone()
            };
            let g = w.lock();
            let hd = g.slots[0].handler.clone();
            drop(g);
            if let Some(hd) = hd {
                let _ = hd.send_msg(Context::new(), (*m).clone());
            }
            let x = s.rng.range(0, s.m.interval);
            sleep(Duration::from_millis(x)).await;
        }
        sleep(Duration::from_millis(40 * s.m.interval)).await;
    }
    Report {
        bad: s.bad,
        steps: s.steps,
        matched: s.matched,
        fired: s.m.fired,
        rounds: s.m.rounds,
        commits: s.m.commits,
        ambiguous: s.ambiguous,
        classes: s.classes,
    }
}

// ------------------------------------------------------------------ bursts

impl Script {
    /// Where the node is, by its log.
    fn follow(&mut self) {
        let mut pos = None;
        {
            let g = self.w.lock();
            while self.cursor < g.trace.len() {
                let e = &g.trace[self.cursor];
                self.cursor += 1;
                if e.slot != 0 {
                    continue;
                }
                match &e.k {
                    K::WalSave { info: Some(x), .. } => pos = Some((x.height, x.round)),
                    K::Send { msg, .. } => match &**msg {
                        OverlordMsg::AggregatedVote(q) => {
                            self.m.qcs.insert((q.height, q.round, vt(&q.vote_type)), q.clone());
                            if q.vote_type == VoteType::Precommit && !q.block_hash.is_empty() {
                                self.decided.insert(q.height, q.block_hash.clone());
                            }
                        }
                        OverlordMsg::SignedProposal(p) => {
                            self.m.props.insert((p.proposal.height, p.proposal.round), p.clone());
                        }
                        _ => {}
                    },
                    _ => {}
                }
            }
        }
        if let Some((h, r)) = pos {
            self.m.h = h;
            self.m.r = r;
            self.m.auth = self.w.auth(h);
        }
    }
    /// One genuine or forged message for about (h, r).
    fn shot(&mut self, h: u64, r: u64, forged: u32) -> Vec<Msg> {
        if self.puppets(h).is_empty() {
            return vec![];
        }
        if self.rng.pm(forged) {
            let (oh, or, oa) = (self.m.h, self.m.r, self.m.auth.clone());
            self.m.auth = self.w.auth(h);
            let m = self.forge(h, r);
            (self.m.h, self.m.r, self.m.auth) = (oh, or, oa);
            return m.into_iter().collect();
        }
        match self.rng.below(8) {
            0 | 1 => match self.proposal(h, r) {
                Some(p) if !self.m.props.contains_key(&(h, r)) => {
                    self.m.props.insert((h, r), p.clone());
                    vec![OverlordMsg::SignedProposal(p)]
                }
                _ => match self.m.props.get(&(h, r)) {
                    Some(p) => vec![OverlordMsg::SignedProposal(p.clone())],
                    None => vec![],
                },
            },
            2 | 3 => {
                let t = 1 + self.rng.below(2) as u8;
                let hash = if t == 1 { self.pv_value(h, r, false).unwrap_or_default() } else { self.pc_value(h, r, false) };
                self.quorum(h).into_iter().map(|i| OverlordMsg::SignedVote(make_vote(&self.w, i, h, r, t, &hash))).collect()
            }
            4 | 5 | 6 => {
                let t = 1 + self.rng.below(2) as u8;
                let nil = self.rng.pm(250);
                let hash = if t == 1 { self.pv_value(h, r, nil).unwrap_or_default() } else { self.pc_value(h, r, nil) };
                let q = self.make_qc(h, r, t, &hash);
                self.m.qcs.insert((h, r, t), q.clone());
                vec![OverlordMsg::AggregatedVote(q)]
            }
            _ => {
                let from = if r == 0 { UpdateFrom::PrecommitQC(mock_qc()) } else { UpdateFrom::ChokeQC(self.make_choke_qc(h, r - 1)) };
                self.quorum(h).into_iter().map(|i| OverlordMsg::SignedChoke(make_choke(&self.w, i, h, r, from.clone()))).collect()
            }
        }
    }
}

async fn bursts(w: &W, seed: u64, mix: &Mix) -> Report {
    let (mut s, _h0, steps) = fresh(w, seed, mix);
    start_node(w, 0);
    sleep(Duration::from_millis(3)).await;
    let forged = *s.rng.pick(&[100u32, 300, 600]);
    for _ in 0..steps {
        s.follow();
        s.own_blocks();
        let (h, r) = (s.m.h, s.m.r);
        let n = s.rng.range(1, 6);
        let mut all = vec![];
        for _ in 0..n {
            let (a, b) = match s.rng.below(10) {
                0..=4 => (h, r),
                5 => (h, r + 1),
                6 => (h, r.saturating_sub(1)),
                7 | 8 => (h + 1, 0),
                _ => (h + 1 + s.rng.below(2), s.rng.below(2)),
            };
            if a == 0 {
                continue;
            }
            all.extend(s.shot(a, b, forged));
        }
        if s.rng.pm(60) {
            all.push(OverlordMsg::RichStatus(w.status(h + s.rng.range(0, 2), true)));
        }
        if s.rng.pm(300) {
            s.rng.shuffle(&mut all);
        }
        s.steps += all.len() as u64;
        for m in all {
            match &m {
                OverlordMsg::RichStatus(st) => {
                    {
                        let mut g = w.lock();
                        g.slots[0].latest = g.slots[0].latest.max(st.height.saturating_sub(1));
                    }
                    send_status(w, 0, st.height, true);
                }
                _ => {
                    let m = Arc::new(m);
                    if s.sent.len() < 300 {
                        s.sent.push(m.clone());
                    }
                    deliver(w, 1, 0, m);
                }
            }
            for _ in 0..s.rng.below(4) {
                tokio::task::yield_now().await;
            }
        }
        if s.rng.pm(40) && w.cfg.style_b == 0 {
            crash(w, 0, None, "scripted");
            sleep(Duration::from_millis(5)).await;
            start_node(w, 0);
        }
        let gap = match s.rng.below(5) {
            0 => 0,
            1 => 1,
            2 => s.rng.range(0, 20),
            3 => s.rng.range(0, s.m.interval / 4),
            _ => s.rng.range(0, s.m.interval),
        };
        sleep(Duration::from_millis(gap)).await;
    }
    Report { bad: vec![], steps: s.steps, matched: 4, fired: 0, rounds: 0, commits: 0, ambiguous: false, classes: s.classes }
}

/// One run of message bursts, judged by the trace monitors only.
pub fn run_bursts(seed: u64, mix: &Mix, verbose: bool) -> CaseResult {
    let mut c = cfg(seed, mix);
    let mut r = Rng::new(seed ^ 0xb0b);
    c.yields = r.below(4);
    if r.pm(300) {
        c.d_commit = Lat::new(0, 20);
        c.d_wal = Lat::new(0, 3);
        c.d_get = Lat::new(0, 20);
        c.d_send = Lat::new(0, 2);
    }
    let mix2 = mix.clone();
    let cell: Arc<std::sync::Mutex<Option<Report>>> = Arc::new(std::sync::Mutex::new(None));
    let cell2 = cell.clone();
    let mut out = run_with(c, move |w| {
        Box::pin(async move {
            let rep = bursts(&w, seed, &mix2).await;
            *cell2.lock().unwrap() = Some(rep);
            true
        })
    });
    out.reached = true;
    let rep = cell.lock().unwrap().take();
    judge_script(&out, rep, mix, verbose)
}
