//! The Byzantine adversary: one actor that owns the keys of every Byzantine validator, sees all
//! traffic, and sends arbitrary messages to arbitrary nodes. It cannot forge honest signatures.
use crate::app::*;
use crate::prng::Rng;
use crate::sim::*;
use bytes::Bytes;
use overlord::types::*;
use std::collections::BTreeSet;
use std::sync::Arc;
use std::time::Duration;

pub const ATTACKS: [&str; 12] = [
    "equivocating proposals",
    "bad blocks",
    "forged proofs of lock",
    "double votes",
    "forged certificates",
    "withheld certificates",
    "forged chokes",
    "forged choke certificates",
    "replays",
    "future-height forgeries",
    "garbage",
    "outsider messages",
];

fn byz_slots(w: &W) -> Vec<usize> {
    (0..w.cfg.roles.len()).filter(|i| matches!(w.cfg.roles[*i], Role::Byz | Role::Puppet)).collect()
}

pub fn sign(w: &W, slot: usize, pre: Pre, hash: &Bytes) -> Bytes {
    let a = w.addr(slot);
    w.log(slot, 0, K::Sign { pre, ok: true });
    sig_of(&a, hash)
}

pub fn make_vote(w: &W, slot: usize, h: u64, r: u64, t: u8, bh: &Bytes) -> SignedVote {
    let hash = vote_hash(h, r, t, bh);
    let signature = sign(w, slot, Pre::Vote(h, r, t, bh.clone()), &hash);
    let v = SignedVote {
        signature: signature.clone(),
        vote: Vote { height: h, round: r, vote_type: vty(t), block_hash: bh.clone() },
        voter: w.addr(slot),
    };
    w.lock().wire.votes.entry((h, r, t, bh.clone())).or_default().insert(v.voter.clone(), signature);
    v
}

pub fn make_choke(w: &W, slot: usize, h: u64, r: u64, from: UpdateFrom) -> SignedChoke {
    let signature = sign(w, slot, Pre::Choke(h, r), &choke_hash(h, r));
    let address = w.addr(slot);
    w.lock().wire.chokes.entry((h, r)).or_default().insert(address.clone(), signature.clone());
    SignedChoke { signature, choke: Choke { height: h, round: r, from }, address }
}

pub fn make_proposal(w: &W, slot: usize, h: u64, r: u64, blk: Blk, hash: Bytes, lock: Option<PoLC>) -> SignedProposal<Blk> {
    let proposer = w.addr(slot);
    let proposal = Proposal { height: h, round: r, content: blk, block_hash: hash.clone(), lock, proposer };
    let ph = hash_msg(&rlp::encode(&proposal));
    let signature = sign(w, slot, Pre::Proposal(h, r, hash), &ph);
    SignedProposal { signature, proposal }
}

pub fn new_block(rng: &mut Rng, slot: usize, h: u64) -> Blk {
    Blk { height: h, proposer: slot as u32, nonce: rng.next(), body: rng.bytes(8), alt: 0 }
}

/// A certificate built from whatever individual signatures exist on the wire for exactly `who`.
pub fn qc_from(w: &W, h: u64, r: u64, t: u8, bh: &Bytes, who: &BTreeSet<Bytes>) -> Option<AggregatedVote> {
    let auth = w.auth(h);
    let g = w.lock();
    let m = g.wire.votes.get(&(h, r, t, bh.clone()))?;
    let mut idx = vec![];
    let mut sigs = vec![];
    for (i, n) in auth.iter().enumerate() {
        if who.contains(&n.address) {
            idx.push(i);
            sigs.push(m.get(&n.address)?.clone());
        }
    }
    Some(AggregatedVote {
        signature: AggregatedSignature { signature: agg_of(&sigs), address_bitmap: bitmap(auth.len(), &idx) },
        vote_type: vty(t),
        height: h,
        round: r,
        block_hash: bh.clone(),
        leader: ref_leader(h, r, &auth),
    })
}

pub fn choke_qc_from(w: &W, h: u64, r: u64, who: &BTreeSet<Bytes>) -> Option<AggregatedChoke> {
    let g = w.lock();
    let m = g.wire.chokes.get(&(h, r))?;
    let mut sigs = vec![];
    let mut voters = vec![];
    for a in who {
        sigs.push(m.get(a)?.clone());
        voters.push(a.clone());
    }
    Some(AggregatedChoke { height: h, round: r, signature: agg_of(&sigs), voters })
}

pub fn mock_qc() -> AggregatedVote {
    AggregatedVote {
        signature: AggregatedSignature { signature: Bytes::new(), address_bitmap: Bytes::new() },
        vote_type: VoteType::Precommit,
        height: 0,
        round: 0,
        block_hash: Bytes::new(),
        leader: Bytes::new(),
    }
}

struct A<'a> {
    w: &'a W,
    rng: Rng,
    byz: Vec<usize>,
    targets: Vec<usize>,
}

impl A<'_> {
    fn some_targets(&mut self) -> Vec<usize> {
        let mut t = self.targets.clone();
        match self.rng.below(4) {
            0 => t,
            1 => vec![*self.rng.pick(&t)],
            _ => {
                self.rng.shuffle(&mut t);
                let k = self.rng.range(1, t.len() as u64) as usize;
                t.truncate(k);
                t
            }
        }
    }
    fn send(&mut self, dst: &[usize], m: Msg) {
        let m = Arc::new(m);
        let src = self.byz.first().cloned().unwrap_or(0);
        let burst = self.rng.pm(300);
        for d in dst {
            let ms = if burst { 0 } else { self.rng.range(0, 60) };
            post(self.w, src, *d, m.clone(), ms);
        }
    }
    /// a (height, round) near the front of the system
    fn pos(&mut self) -> (u64, u64) {
        let (h, r) = self.w.lock().wire.max;
        let h = h.max(1);
        match self.rng.below(10) {
            0 => (h.saturating_sub(1), self.rng.below(3)),
            1 | 2 => (h, r + 1 + self.rng.below(2)),
            3 => (h, r.saturating_sub(1)),
            _ => (h, r),
        }
    }
    fn live_hash(&mut self, h: u64) -> Bytes {
        let g = self.w.lock();
        let mut v: Vec<Bytes> = g
            .wire
            .props
            .iter()
            .rev()
            .take(40)
            .filter(|p| p.proposal.height == h)
            .map(|p| p.proposal.block_hash.clone())
            .collect();
        v.extend(
            g.wire
                .qcs
                .iter()
                .rev()
                .take(20)
                .filter(|q| q.height == h)
                .map(|q| q.block_hash.clone()),
        );
        drop(g);
        match self.rng.below(8) {
            0 => Bytes::new(),
            1 => Bytes::from(self.rng.bytes(32)),
            _ if !v.is_empty() => self.rng.pick(&v).clone(),
            _ => Bytes::new(),
        }
    }
    fn byz_leader(&mut self, h: u64, r: u64) -> Option<usize> {
        let l = self.w.leader(h, r);
        self.byz.iter().cloned().find(|b| self.w.addr(*b) == l)
    }
    fn genuine_prevote_qc(&mut self, h: u64, before: u64) -> Option<AggregatedVote> {
        let g = self.w.lock();
        let v: Vec<AggregatedVote> = g
            .wire
            .qcs
            .iter()
            .filter(|q| q.height == h && q.round < before && q.vote_type == VoteType::Prevote && !q.block_hash.is_empty())
            .cloned()
            .collect();
        drop(g);
        if v.is_empty() {
            None
        } else {
            Some(self.rng.pick(&v).clone())
        }
    }
    fn propose(&mut self, h: u64, r: u64, kind: u64) {
        let Some(b) = self.byz_leader(h, r) else { return };
        let mut t = self.targets.clone();
        self.rng.shuffle(&mut t);
        let cut = self.rng.usize(t.len() + 1);
        let (one, two) = t.split_at(cut);
        let (one, two) = (one.to_vec(), two.to_vec());
        let b1 = new_block(&mut self.rng, b, h);
        let h1 = b1.hash();
        match kind {
            0 => {
                let lock = if self.rng.pm(300) { self.genuine_prevote_qc(h, r) } else { None };
                let p1 = match lock {
                    Some(q) => {
                        let old = self.w.lock().wire.props.iter().find(|p| p.proposal.block_hash == q.block_hash).cloned();
                        match old {
                            Some(o) => make_proposal(
                                self.w,
                                b,
                                h,
                                r,
                                o.proposal.content,
                                q.block_hash.clone(),
                                Some(PoLC { lock_round: q.round, lock_votes: q }),
                            ),
                            None => make_proposal(self.w, b, h, r, b1, h1, None),
                        }
                    }
                    None => make_proposal(self.w, b, h, r, b1, h1, None),
                };
                self.send(&one, OverlordMsg::SignedProposal(p1));
                let b2 = new_block(&mut self.rng, b, h);
                let h2 = b2.hash();
                let p2 = make_proposal(self.w, b, h, r, b2, h2, None);
                self.send(&two, OverlordMsg::SignedProposal(p2));
            }
            1 => {
                let mut bad = b1.clone();
                let mut hash = h1.clone();
                match self.rng.below(5) {
                    0 => bad.alt = 1,
                    1 => {
                        bad.height = h + 1;
                        hash = bad.hash();
                    }
                    2 => hash = Bytes::from(self.rng.bytes(32)),
                    3 => {
                        // content of a live hash replaced
                        hash = self.live_hash(h);
                        let old = self.w.lock().wire.props.iter().find(|p| p.proposal.block_hash == hash).cloned();
                        if let Some(o) = old {
                            bad = o.proposal.content.clone();
                            bad.alt = 1 + self.rng.below(200) as u8;
                        }
                    }
                    _ => hash = Bytes::new(),
                }
                let p = make_proposal(self.w, b, h, r, bad, hash.clone(), None);
                self.send(&one, OverlordMsg::SignedProposal(p));
                if self.rng.pm(500) {
                    let p = make_proposal(self.w, b, h, r, b1, h1, None);
                    self.send(&two, OverlordMsg::SignedProposal(p));
                }
            }
            _ => {
                // proof of lock variants
                let genuine = self.genuine_prevote_qc(h, r);
                if self.rng.pm(250) {
                    // an older certificate with its own block, said to be newer than it is
                    let old = genuine.as_ref().and_then(|q| self.w.lock().wire.props.iter().find(|p| p.proposal.block_hash == q.block_hash).cloned());
                    if let (Some(q), Some(o)) = (genuine.clone(), old) {
                        let lr = if self.rng.pm(700) { r.saturating_sub(1) } else { self.rng.range(q.round, r) };
                        let p = make_proposal(self.w, b, h, r, o.proposal.content, q.block_hash.clone(), Some(PoLC { lock_round: lr, lock_votes: q }));
                        self.send(&t, OverlordMsg::SignedProposal(p));
                        return;
                    }
                }
                let prev = self.genuine_prevote_qc(h.saturating_sub(1), u64::MAX);
                let any = self.w.lock().wire.qcs.last().cloned();
                let forged = {
                    let x = h1.clone();
                    self.forge_qc(h, r.saturating_sub(1), 1, &x)
                };
                let (q, lr) = match self.rng.below(8) {
                    0 | 1 => match genuine {
                        // genuine certificate of another block
                        Some(q) => {
                            let lr = q.round;
                            (q, lr)
                        }
                        None => (forged, r.saturating_sub(1)),
                    },
                    2 => match genuine {
                        Some(q) => (q, r + self.rng.below(50)),
                        None => (forged, u64::MAX),
                    },
                    3 => match prev {
                        Some(q) => (q, r.saturating_sub(1)),
                        None => (forged, 0),
                    },
                    4 => match any {
                        Some(q) => (q, r.saturating_sub(1)),
                        None => (forged, 0),
                    },
                    _ => {
                        let lr = if self.rng.pm(500) { r.saturating_sub(1) } else { r };
                        (forged, lr)
                    }
                };
                let p = make_proposal(self.w, b, h, r, b1, h1, Some(PoLC { lock_round: lr, lock_votes: q }));
                let dst = if self.rng.pm(500) { t } else { one };
                self.send(&dst, OverlordMsg::SignedProposal(p));
            }
        }
    }
    pub fn forge_qc(&mut self, h: u64, r: u64, t: u8, bh: &Bytes) -> AggregatedVote {
        let auth = self.w.auth(h);
        let n = auth.len();
        let vh = vote_hash(h, r, t, bh);
        let mine: BTreeSet<Bytes> = self.byz.iter().map(|b| self.w.addr(*b)).collect();
        for b in self.byz.clone() {
            make_vote(self.w, b, h, r, t, bh);
        }
        let idx_of = |s: &BTreeSet<Bytes>| -> Vec<usize> { (0..n).filter(|i| s.contains(&auth[*i].address)).collect() };
        let my_sigs: Vec<Bytes> = mine.iter().map(|a| sig_of(a, &vh)).collect();
        let all: Vec<usize> = (0..n).collect();
        let (sig, bm) = match self.rng.below(8) {
            0 => (agg_of(&my_sigs), bitmap(n, &idx_of(&mine))),
            1 => (agg_of(&my_sigs), bitmap(n, &all)),
            2 => (Bytes::from(self.rng.bytes(32)), bitmap(n, &all)),
            3 => {
                // a genuine aggregate relabelled
                let q = self.w.lock().wire.qcs.last().cloned();
                match q {
                    Some(q) => (q.signature.signature, q.signature.address_bitmap),
                    None => (Bytes::new(), Bytes::new()),
                }
            }
            4 | 5 => {
                // every real signature that exists, but not over two thirds
                let have: BTreeSet<Bytes> = self
                    .w
                    .lock()
                    .wire
                    .votes
                    .get(&(h, r, t, bh.clone()))
                    .map(|m| m.keys().cloned().collect())
                    .unwrap_or_default();
                let mut sel: BTreeSet<Bytes> = mine.clone();
                let mut rest: Vec<Bytes> = have.into_iter().filter(|a| !mine.contains(a)).collect();
                self.rng.shuffle(&mut rest);
                for a in rest {
                    let mut s2 = sel.clone();
                    s2.insert(a);
                    if !weight_ok(&auth, &s2) {
                        sel = s2;
                    }
                }
                let q = qc_from(self.w, h, r, t, bh, &sel);
                match q {
                    Some(q) => (q.signature.signature, q.signature.address_bitmap),
                    None => (agg_of(&my_sigs), bitmap(n, &idx_of(&mine))),
                }
            }
            6 => {
                let l = *self.rng.pick(&[0usize, 1, 2, 40, 300]);
                (agg_of(&my_sigs), Bytes::from(vec![0xff; l]))
            }
            _ => (Bytes::new(), Bytes::new()),
        };
        AggregatedVote {
            signature: AggregatedSignature { signature: sig, address_bitmap: bm },
            vote_type: vty(t),
            height: h,
            round: r,
            block_hash: bh.clone(),
            leader: ref_leader(h, r, &auth),
        }
    }
    fn forged_from(&mut self, h: u64, r: u64) -> UpdateFrom {
        let bh = self.live_hash(h);
        match self.rng.below(6) {
            0 => UpdateFrom::PrevoteQC(self.forge_qc(h, r, 1, &bh)),
            1 => UpdateFrom::PrecommitQC(self.forge_qc(h, r, 2, &bh)),
            2 => UpdateFrom::PrecommitQC(self.forge_qc(h, r, 2, &Bytes::new())),
            3 => {
                // genuine certificate of another height or round
                match self.w.lock().wire.qcs.first().cloned() {
                    Some(q) if q.vote_type == VoteType::Prevote => UpdateFrom::PrevoteQC(q),
                    Some(q) => UpdateFrom::PrecommitQC(q),
                    None => UpdateFrom::PrecommitQC(mock_qc()),
                }
            }
            4 => UpdateFrom::ChokeQC(self.forge_choke_qc(h, r)),
            _ => UpdateFrom::PrecommitQC(mock_qc()),
        }
    }
    fn forge_choke_qc(&mut self, h: u64, r: u64) -> AggregatedChoke {
        let auth = self.w.auth(h);
        for b in self.byz.clone() {
            make_choke(self.w, b, h, r, UpdateFrom::PrecommitQC(mock_qc()));
        }
        let mine: Vec<Bytes> = self.byz.iter().map(|b| self.w.addr(*b)).collect();
        let ch = choke_hash(h, r);
        let n = auth.len();
        let (voters, signature) = match self.rng.below(7) {
            0 => (mine.clone(), agg_expected(&ch, &mine)),
            1 => {
                let v: Vec<Bytes> = (0..n.max(1)).map(|i| mine.get(i % mine.len().max(1)).cloned().unwrap_or_default()).collect();
                let s = agg_expected(&ch, &v);
                (v, s)
            }
            2 => {
                let v: Vec<Bytes> = (0..n).map(|i| h32("outsider", &[&[i as u8]]).slice(0..20)).collect();
                let s = agg_expected(&ch, &v);
                (v, s)
            }
            3 => (auth.iter().map(|a| a.address.clone()).collect(), Bytes::from(self.rng.bytes(32))),
            4 => {
                // every real choke that exists plus ours, below two thirds by weight
                let have: BTreeSet<Bytes> = self
                    .w
                    .lock()
                    .wire
                    .chokes
                    .get(&(h, r))
                    .map(|m| m.keys().cloned().collect())
                    .unwrap_or_default();
                let mut sel = BTreeSet::new();
                for a in have {
                    let mut s2 = sel.clone();
                    s2.insert(a);
                    if !weight_ok(&auth, &s2) {
                        sel = s2;
                    }
                }
                let v: Vec<Bytes> = sel.into_iter().collect();
                let s = agg_expected(&ch, &v);
                (v, s)
            }
            5 => (vec![Bytes::new(); 200], Bytes::new()),
            _ => {
                // a genuine choke certificate of another round or height
                match self.w.lock().wire.agg_chokes.first().cloned() {
                    Some(q) => {
                        let mut q = q;
                        if n > 0 {
                            q.round = r;
                        }
                        return q;
                    }
                    None => (vec![], Bytes::new()),
                }
            }
        };
        let r = match self.rng.below(10) {
            0 => u64::MAX,
            1 => r + self.rng.below(1000),
            _ => r,
        };
        AggregatedChoke { height: h, round: r, signature, voters }
    }
    fn attack(&mut self, kind: usize) {
        let (h, r) = self.pos();
        if self.byz.is_empty() && kind < 8 {
            return;
        }
        match kind {
            0..=2 => {
                // aim at a round led by one of ours
                for d in 0..3 {
                    if self.byz_leader(h, r + d).is_some() {
                        self.propose(h, r + d, kind as u64);
                        break;
                    }
                }
            }
            3 => {
                let t = 1 + self.rng.below(2) as u8;
                let k = self.rng.range(1, 2);
                let ldr = self.w.leader(h, r);
                let dst: Vec<usize> = {
                    let g = self.w.lock();
                    g.slots_of(&ldr).into_iter().filter(|s| self.targets.contains(s)).collect()
                };
                for _ in 0..k {
                    let b = *self.rng.pick(&self.byz.clone());
                    let bh = self.live_hash(h);
                    let v = make_vote(self.w, b, h, r, t, &bh);
                    let d = if self.rng.pm(800) { dst.clone() } else { self.some_targets() };
                    self.send(&d, OverlordMsg::SignedVote(v));
                }
            }
            4 => {
                let bh = self.live_hash(h);
                let t = 1 + self.rng.below(2) as u8;
                let mut q = self.forge_qc(h, r, t, &bh);
                if self.rng.pm(200) {
                    // relabel a genuine one
                    let g = self.w.lock().wire.qcs.last().cloned();
                    if let Some(g) = g {
                        q = g;
                        match self.rng.below(5) {
                            0 => q.round += 1,
                            1 => q.height += 1,
                            2 => q.vote_type = if q.vote_type == VoteType::Prevote { VoteType::Precommit } else { VoteType::Prevote },
                            3 => q.block_hash = bh.clone(),
                            _ => {
                                let mut b = q.signature.address_bitmap.to_vec();
                                if let Some(x) = b.first_mut() {
                                    *x ^= 0x80 >> self.rng.below(8);
                                }
                                q.signature.address_bitmap = Bytes::from(b);
                            }
                        }
                    }
                }
                let t = self.some_targets();
                self.send(&t, OverlordMsg::AggregatedVote(q));
            }
            5 => self.withheld(h, r),
            6 => {
                let b = *self.rng.pick(&self.byz.clone());
                let cr = match self.rng.below(4) {
                    0 => r,
                    1 => r + 1,
                    2 => r + 2 + self.rng.below(5),
                    _ => r + 1 + self.rng.below(2000),
                };
                let from = self.forged_from(h, cr.saturating_sub(1));
                let c = make_choke(self.w, b, h, cr, from);
                let t = self.some_targets();
                self.send(&t, OverlordMsg::SignedChoke(c));
            }
            7 => {
                let b = *self.rng.pick(&self.byz.clone());
                let cr = r + self.rng.below(4);
                let q = self.forge_choke_qc(h, cr);
                let c = make_choke(self.w, b, h, cr + 1, UpdateFrom::ChokeQC(q));
                let t = self.some_targets();
                self.send(&t, OverlordMsg::SignedChoke(c));
            }
            8 => {
                let m = {
                    let g = self.w.lock();
                    let n = g.trace.len() as u64;
                    let mut m = None;
                    if n > 0 {
                        for _ in 0..20 {
                            let i = self.rng.below(n) as usize;
                            if let K::Recv { msg, .. } = &g.trace[i].k {
                                m = Some(msg.clone());
                                break;
                            }
                        }
                    }
                    m
                };
                if let Some(m) = m {
                    let t = self.some_targets();
                    self.send(&t, (*m).clone());
                }
            }
            9 => {
                let fh = h + self.rng.range(1, 6);
                let fr = self.rng.below(12);
                let t = self.some_targets();
                match self.rng.below(4) {
                    0 => {
                        let blk = new_block(&mut self.rng, 0, fh);
                        let hash = blk.hash();
                        let p = Proposal {
                            height: fh,
                            round: fr,
                            content: blk,
                            block_hash: hash,
                            lock: None,
                            proposer: self.w.leader(fh, fr),
                        };
                        let signature = Bytes::from(self.rng.bytes(32));
                        self.send(&t, OverlordMsg::SignedProposal(SignedProposal { signature, proposal: p }));
                    }
                    1 => {
                        let bh = self.live_hash(h);
                        let v = SignedVote {
                            signature: Bytes::from(self.rng.bytes(32)),
                            vote: Vote { height: fh, round: fr, vote_type: vty(1 + self.rng.below(2) as u8), block_hash: bh },
                            voter: self.w.auth(fh)[0].address.clone(),
                        };
                        self.send(&t, OverlordMsg::SignedVote(v));
                    }
                    2 => {
                        let bh = if self.rng.pm(500) { Bytes::new() } else { Bytes::from(self.rng.bytes(32)) };
                        let ty = 1 + self.rng.below(2) as u8;
                        let n = self.w.auth(fh).len();
                        let all: Vec<usize> = (0..n).collect();
                        let q = AggregatedVote {
                            signature: AggregatedSignature { signature: Bytes::from(self.rng.bytes(32)), address_bitmap: bitmap(n, &all) },
                            vote_type: vty(ty),
                            height: fh,
                            round: fr,
                            block_hash: bh,
                            leader: self.w.leader(fh, fr),
                        };
                        self.send(&t, OverlordMsg::AggregatedVote(q));
                    }
                    _ => {
                        // forged chokes for the next height, timed to arrive around the change
                        let addr = self.w.auth(h + 1)[self.rng.usize(self.w.auth(h + 1).len())].address.clone();
                        let c = SignedChoke {
                            signature: Bytes::from(self.rng.bytes(32)),
                            choke: Choke { height: h + 1, round: self.rng.below(3), from: UpdateFrom::PrecommitQC(mock_qc()) },
                            address: addr,
                        };
                        let burst = self.targets.clone();
                        let dst = burst;
                        let m = Arc::new(OverlordMsg::SignedChoke(c));
                        let src = self.byz.first().cloned().unwrap_or(0);
                        for d in dst {
                            for k in 0..3 {
                                post(self.w, src, d, m.clone(), k * 7);
                            }
                        }
                    }
                }
            }
            10 => {
                let m = garbage(self.w, &mut self.rng, h, r);
                let t = self.some_targets();
                self.send(&t, m);
            }
            _ => {
                let a = h32("outsider", &[&self.rng.below(5).to_le_bytes()]).slice(0..20);
                let t = self.some_targets();
                let bh = self.live_hash(h);
                let m = match self.rng.below(3) {
                    0 => {
                        let ty = 1 + self.rng.below(2) as u8;
                        OverlordMsg::SignedVote(SignedVote {
                            signature: sig_of(&a, &vote_hash(h, r, ty, &bh)),
                            vote: Vote { height: h, round: r, vote_type: vty(ty), block_hash: bh },
                            voter: a,
                        })
                    }
                    1 => OverlordMsg::SignedChoke(SignedChoke {
                        signature: sig_of(&a, &choke_hash(h, r)),
                        choke: Choke { height: h, round: r, from: UpdateFrom::PrecommitQC(mock_qc()) },
                        address: a,
                    }),
                    _ => {
                        let blk = new_block(&mut self.rng, 0, h);
                        let hash = blk.hash();
                        let p = Proposal { height: h, round: r, content: blk, block_hash: hash, lock: None, proposer: a.clone() };
                        let s = sig_of(&a, &hash_msg(&rlp::encode(&p)));
                        OverlordMsg::SignedProposal(SignedProposal { signature: s, proposal: p })
                    }
                };
                self.send(&t, m);
            }
        }
    }
    /// Builds every genuine certificate the traffic allows and shows it to a few nodes only.
    fn withheld(&mut self, h: u64, r: u64) {
        let keys: Vec<(u64, u64, u8, Bytes)> = {
            let g = self.w.lock();
            g.wire.votes.keys().filter(|k| k.0 == h && k.1 <= r).cloned().collect()
        };
        if keys.is_empty() {
            return;
        }
        let mut keys = keys;
        keys.sort();
        for _ in 0..3 {
            let k = self.rng.pick(&keys).clone();
            for b in self.byz.clone() {
                make_vote(self.w, b, k.0, k.1, k.2, &k.3);
            }
            let auth = self.w.auth(h);
            let have: BTreeSet<Bytes> = self.w.lock().wire.votes[&k].keys().cloned().collect();
            let have: BTreeSet<Bytes> = have.into_iter().filter(|a| auth.iter().any(|n| n.address == *a)).collect();
            if weight_ok(&auth, &have) {
                if let Some(q) = qc_from(self.w, k.0, k.1, k.2, &k.3, &have) {
                    let t = self.some_targets();
                    let src = self.byz[0];
                    let ms = self.rng.below(3000);
                    let m = Arc::new(OverlordMsg::AggregatedVote(q));
                    for d in t {
                        post(self.w, src, d, m.clone(), ms);
                    }
                    return;
                }
            }
        }
    }
    /// Splits the cluster in the rounds we lead.
    fn split(&mut self, kind: u8, m: &Msg) {
        let w = self.w;
        let (h, r) = w.lock().wire.max;
        for (h, r) in [(h, r), (h, r + 1), (h + 1, 0)] {
            let Some(b) = self.byz_leader(h, r) else { continue };
            if w.lock().halves.contains_key(&(h, r)) || !w.lock().led.insert((h, r, b)) {
                continue;
            }
            let mut t = self.targets.clone();
            self.rng.shuffle(&mut t);
            let cut = t.len() / 2;
            let mut v = vec![];
            for part in [t[..cut].to_vec(), t[cut..].to_vec()] {
                let blk = new_block(&mut self.rng, b, h);
                let hash = blk.hash();
                let p = make_proposal(w, b, h, r, blk, hash.clone(), None);
                self.send(&part, OverlordMsg::SignedProposal(p));
                v.push((hash, part));
            }
            w.lock().halves.insert((h, r), v);
        }
        let OverlordMsg::SignedVote(v) = m else { return };
        let (h, r, t) = (v.vote.height, v.vote.round, vt(&v.vote.vote_type));
        let Some(halves) = w.lock().halves.get(&(h, r)).cloned() else { return };
        for (bh, part) in halves {
            if bh != v.vote.block_hash {
                continue;
            }
            let mut types = vec![t];
            if kind >= 5 {
                types = vec![1, 2];
            }
            for t in types {
                let q = self.weak_qc(h, r, t, &bh, kind);
                self.send(&part, OverlordMsg::AggregatedVote(q));
            }
        }
    }
    /// The certificate with less than a quorum behind it that comes closest to a genuine one.
    fn weak_qc(&mut self, h: u64, r: u64, t: u8, bh: &Bytes, kind: u8) -> AggregatedVote {
        let w = self.w;
        let auth = w.auth(h);
        let n = auth.len();
        for b in self.byz.clone() {
            make_vote(w, b, h, r, 1, bh);
            make_vote(w, b, h, r, 2, bh);
        }
        let have = |t: u8, bh: &Bytes| -> BTreeSet<Bytes> {
            let g = w.lock();
            let m = g.wire.votes.get(&(h, r, t, bh.clone())).map(|m| m.keys().cloned().collect::<BTreeSet<_>>()).unwrap_or_default();
            m.into_iter().filter(|a| auth.iter().any(|n| n.address == *a)).collect()
        };
        let idx = |s: &BTreeSet<Bytes>| -> Vec<usize> { (0..n).filter(|i| s.contains(&auth[*i].address)).collect() };
        let all: BTreeSet<Bytes> = auth.iter().map(|a| a.address.clone()).collect();
        let vh = vote_hash(h, r, t, bh);
        let agg = |s: &BTreeSet<Bytes>, hash: &Bytes| agg_of(&s.iter().map(|a| sig_of(a, hash)).collect::<Vec<_>>());
        let real = have(t, bh);
        let (signature, address_bitmap) = match kind {
            // everything there is, which is not enough
            0 | 5 => (agg(&real, &vh), bitmap(n, &idx(&real))),
            // the same, with the bits of everybody
            1 => (agg(&real, &vh), bitmap(n, &idx(&all))),
            // the votes of the other kind
            2 => {
                let o = have(3 - t, bh);
                (agg(&o, &vote_hash(h, r, 3 - t, bh)), bitmap(n, &idx(&o)))
            }
            // bits and signatures of those who voted for the other block as well
            3 => {
                let mut s = real.clone();
                let mut sigs: Vec<Bytes> = real.iter().map(|a| sig_of(a, &vh)).collect();
                for (k, m) in w.lock().wire.votes.iter() {
                    if (k.0, k.1, k.2) == (h, r, t) && k.3 != *bh {
                        for (a, x) in m {
                            if all.contains(a) && s.insert(a.clone()) {
                                sigs.push(x.clone());
                            }
                        }
                    }
                }
                (agg_of(&sigs), bitmap(n, &idx(&s)))
            }
            // bits beyond the set
            4 => {
                let mut bm = bitmap(n, &idx(&real)).to_vec();
                bm.extend(vec![0xff; 16]);
                (agg(&real, &vh), Bytes::from(bm))
            }
            // our own signatures only
            6 => {
                let mine: BTreeSet<Bytes> = self.byz.iter().map(|b| w.addr(*b)).collect();
                (agg(&mine, &vh), bitmap(n, &idx(&all)))
            }
            _ => (Bytes::from(self.rng.bytes(32)), bitmap(n, &idx(&all))),
        };
        AggregatedVote {
            signature: AggregatedSignature { signature, address_bitmap },
            vote_type: vty(t),
            height: h,
            round: r,
            block_hash: bh.clone(),
            leader: ref_leader(h, r, &auth),
        }
    }
    /// What an honest validator would do in our place, so that Byzantine weight counts when it
    /// suits the adversary.
    fn play(&mut self, m: &Msg) {
        let w = self.w;
        match m {
            OverlordMsg::SignedProposal(p) => {
                let (h, r) = (p.proposal.height, p.proposal.round);
                for b in self.byz.clone() {
                    if self.rng.pm(800) {
                        let v = make_vote(w, b, h, r, 1, &p.proposal.block_hash);
                        self.to_leader(h, r, OverlordMsg::SignedVote(v));
                    }
                }
            }
            OverlordMsg::AggregatedVote(q) if q.vote_type == VoteType::Prevote => {
                for b in self.byz.clone() {
                    if self.rng.pm(800) {
                        let v = make_vote(w, b, q.height, q.round, 2, &q.block_hash);
                        self.to_leader(q.height, q.round, OverlordMsg::SignedVote(v));
                    }
                }
            }
            OverlordMsg::SignedVote(v) => {
                // aggregate when we lead
                let (h, r, t) = (v.vote.height, v.vote.round, vt(&v.vote.vote_type));
                if let Some(b) = self.byz_leader(h, r) {
                    make_vote(w, b, h, r, t, &v.vote.block_hash);
                    let auth = w.auth(h);
                    let have: BTreeSet<Bytes> =
                        w.lock().wire.votes[&(h, r, t, v.vote.block_hash.clone())].keys().cloned().collect();
                    let have: BTreeSet<Bytes> = have.into_iter().filter(|a| auth.iter().any(|n| n.address == *a)).collect();
                    if weight_ok(&auth, &have) && self.rng.pm(700) {
                        if let Some(q) = qc_from(w, h, r, t, &v.vote.block_hash, &have) {
                            w.lock().wire.qcs.push(q.clone());
                            let dst = if self.rng.pm(500) { self.targets.clone() } else { self.some_targets() };
                            self.send(&dst, OverlordMsg::AggregatedVote(q));
                        }
                    }
                }
            }
            OverlordMsg::SignedChoke(c) => {
                let (h, r) = (c.choke.height, c.choke.round);
                for b in self.byz.clone() {
                    if self.rng.pm(500) {
                        let c = make_choke(w, b, h, r, c.choke.from.clone());
                        let t = self.some_targets();
                        self.send(&t, OverlordMsg::SignedChoke(c));
                    }
                }
            }
            _ => {}
        }
        // lead
        let (h, r) = w.lock().wire.max;
        for (h, r) in [(h, r), (h, r + 1), (h + 1, 0)] {
            if let Some(b) = self.byz_leader(h, r) {
                let fresh = w.lock().led.insert((h, r, b));
                if fresh && self.rng.pm(800) {
                    if self.rng.pm(500) {
                        let blk = new_block(&mut self.rng, b, h);
                        let hash = blk.hash();
                        let p = make_proposal(w, b, h, r, blk, hash, None);
                        let t = self.targets.clone();
                        self.send(&t, OverlordMsg::SignedProposal(p));
                    } else {
                        let k = self.rng.below(3);
                        self.propose(h, r, k);
                    }
                }
            }
        }
    }
    fn to_leader(&mut self, h: u64, r: u64, m: Msg) {
        let l = self.w.leader(h, r);
        let d: Vec<usize> = {
            let g = self.w.lock();
            g.slots_of(&l).into_iter().filter(|s| self.targets.contains(s)).collect()
        };
        self.send(&d, m);
    }
}

/// Arbitrary well-typed messages with extreme field values.
pub fn garbage(w: &W, rng: &mut Rng, h: u64, r: u64) -> Msg {
    let auth = w.auth(h);
    let mut num = |base: u64| -> u64 {
        match rng.below(8) {
            0 => 0,
            1 => u64::MAX,
            2 => u64::MAX - 1,
            3 => base.wrapping_add(1),
            4 => base.wrapping_sub(1),
            5 => u64::MAX / 2,
            _ => base,
        }
    };
    let hh = num(h);
    let rr = num(r);
    let lr = num(r);
    let blob = |rng: &mut Rng| -> Bytes {
        match rng.below(5) {
            0 => Bytes::new(),
            1 => Bytes::from(rng.bytes(1)),
            2 => Bytes::from(vec![0xff; 2000]),
            _ => Bytes::from(rng.bytes(32)),
        }
    };
    let addr = |rng: &mut Rng| -> Bytes {
        match rng.below(4) {
            0 => Bytes::new(),
            1 => Bytes::from(rng.bytes(20)),
            _ => auth[rng.usize(auth.len())].address.clone(),
        }
    };
    let ty = vty(1 + rng.below(2) as u8);
    let qc = |rng: &mut Rng| AggregatedVote {
        signature: AggregatedSignature { signature: blob(rng), address_bitmap: blob(rng) },
        vote_type: ty.clone(),
        height: hh,
        round: rr,
        block_hash: blob(rng),
        leader: addr(rng),
    };
    match rng.below(5) {
        0 => OverlordMsg::AggregatedVote(qc(rng)),
        1 => {
            let v = Vote { height: hh, round: rr, vote_type: ty.clone(), block_hash: blob(rng) };
            OverlordMsg::SignedVote(SignedVote { signature: blob(rng), vote: v, voter: addr(rng) })
        }
        2 => {
            let lock = if rng.pm(500) { Some(PoLC { lock_round: lr, lock_votes: qc(rng) }) } else { None };
            let blk = Blk { height: hh, proposer: 0, nonce: 0, body: blob(rng).to_vec(), alt: 0 };
            let p = Proposal { height: hh, round: rr, content: blk, block_hash: blob(rng), lock, proposer: addr(rng) };
            OverlordMsg::SignedProposal(SignedProposal { signature: blob(rng), proposal: p })
        }
        _ => {
            let from = match rng.below(3) {
                0 => UpdateFrom::PrevoteQC(qc(rng)),
                1 => UpdateFrom::PrecommitQC(qc(rng)),
                _ => {
                    let k = rng.usize(30);
                    let voters = (0..k).map(|_| addr(rng)).collect();
                    UpdateFrom::ChokeQC(AggregatedChoke { height: hh, round: lr, signature: blob(rng), voters })
                }
            };
            // signed by a Byzantine validator when there is one
            let choke = Choke { height: h, round: rr.min(u64::MAX), from };
            let byz = byz_slots(w);
            if rng.pm(600) && !byz.is_empty() {
                let b = *rng.pick(&byz);
                return OverlordMsg::SignedChoke(make_choke(w, b, choke.height, choke.round, choke.from));
            }
            OverlordMsg::SignedChoke(SignedChoke { signature: blob(rng), choke, address: addr(rng) })
        }
    }
}

fn actor(w: &W) -> A<'_> {
    let rng = w.lock().byz_rng.fork();
    let byz = byz_slots(w);
    let targets = (0..w.cfg.roles.len()).filter(|i| matches!(w.cfg.roles[*i], Role::Honest | Role::Twin(_))).collect();
    A { w, rng, byz, targets }
}

fn pick_attack(rng: &mut Rng, wts: &[u32; 12]) -> Option<usize> {
    let s: u32 = wts.iter().sum();
    if s == 0 {
        return None;
    }
    let mut x = rng.below(s as u64) as u32;
    for (i, v) in wts.iter().enumerate() {
        if x < *v {
            return Some(i);
        }
        x -= v;
    }
    None
}

pub fn react(w: &W, _src: usize, m: &Msg) {
    let b = w.cfg.byz.clone().unwrap();
    let mut a = actor(w);
    if let (Some(k), false) = (b.split, a.byz.is_empty()) {
        a.split(k, m);
    }
    if b.play && !a.byz.is_empty() {
        a.play(m);
    }
    if a.rng.pm(b.react) {
        if let Some(k) = pick_attack(&mut a.rng, &b.w) {
            a.attack(k);
        }
    }
}

pub fn start(w: &W) {
    let w = w.clone();
    let b = w.cfg.byz.clone().unwrap();
    tokio::spawn(async move {
        let iv = w.cfg.epochs[0].interval;
        loop {
            let ms = {
                let mut g = w.lock();
                if g.done {
                    return;
                }
                g.byz_rng.range(iv / 10 + 1, iv / 2 + 2)
            };
            tokio::time::sleep(Duration::from_millis(ms)).await;
            if w.now() >= b.until || w.lock().done {
                return;
            }
            let mut a = actor(&w);
            if let Some(k) = pick_attack(&mut a.rng, &b.w) {
                a.attack(k);
            }
        }
    });
}
