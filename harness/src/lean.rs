//! A cluster of real nodes with an application that forgets: nothing here grows with the
//! chain, so what does is the nodes'. Runs on virtual time (memory) and on the real clock with
//! several threads (sanitizers).
use crate::app::*;
use crate::prng::{mix_all, Rng};
use crate::wire::{msg_pos, ref_leader, wire_trip, BErr, Msg};
use async_trait::async_trait;
use bytes::Bytes;
use overlord::error::ConsensusError;
use overlord::types::*;
use overlord::{Consensus, Context, Crypto, DurationConfig, Overlord, OverlordHandler, Wal};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::Duration;
use tokio::time::sleep;

#[derive(Clone, Debug)]
pub struct Lean {
    pub seed: u64,
    pub n: usize,
    pub interval: u64,
    /// every height up to this one
    pub target: u64,
    pub body: usize,
    /// slowest ordinary message
    pub lat: u64,
    /// permille of messages that come very late
    pub late: u64,
    /// permille of heights disturbed in each way: proposal lost, precommits lost, a node cut
    /// off, a block rejected, a node with a slow commit
    pub trouble: u64,
    pub restarts: bool,
    pub changes: bool,
    /// permille of messages that a damaged copy follows, spoiled as somebody without any key can
    pub hostile: u64,
    /// stop every node at the end and wait for run() to return
    pub stop: bool,
    /// where live bytes are read
    pub marks: Vec<(u64, u64)>,
    /// give up after this many beats of the harness without a new height
    pub patience: u64,
}

struct Node1 {
    addr: Bytes,
    handler: Option<OverlordHandler<Blk>>,
    task: Option<tokio::task::JoinHandle<bool>>,
    inc: u32,
    wal: Option<Bytes>,
    latest: u64,
    ended: bool,
}

#[derive(Default)]
pub struct Seen {
    pub stats: BTreeMap<&'static str, u64>,
    pub bad: Vec<(&'static str, String)>,
    /// least live bytes in each mark
    pub live: Vec<Option<(i64, u64)>>,
    pub order: u64,
    pub reached: bool,
    pub stuck: bool,
}

struct In {
    rng: Rng,
    nodes: Vec<Node1>,
    top: u64,
    /// recent decisions: height, hash, proposer
    recent: VecDeque<(u64, Bytes)>,
    /// commits per (node, height), recent ones only
    done: HashMap<usize, VecDeque<u64>>,
    seen: Seen,
    over: bool,
    moves: u64,
}

pub struct Net {
    c: Lean,
    m: Mutex<In>,
}
type N = Arc<Net>;

impl Net {
    fn lock(&self) -> MutexGuard<'_, In> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn hit(&self, what: u64, h: u64, pm: u64) -> Option<u64> {
        let x = mix_all(&[self.c.seed, what, h]);
        (x % 1000 < pm).then_some(x >> 20)
    }
    fn auth(&self, h: u64) -> Vec<Node> {
        let g = self.lock();
        let n = self.c.n;
        // with changes on, one of the validators rests every few heights
        let skip = (self.c.changes && n > 4 && (h / 7) % 2 == 1).then_some(((h / 7) as usize) % n);
        let mut v: Vec<Node> = (0..n).filter(|i| Some(*i) != skip).map(|i| Node::new(g.nodes[i].addr.clone())).collect();
        v.sort_by(|a, b| a.address.cmp(&b.address));
        v
    }
    fn status(&self, h: u64) -> Status {
        let flip = self.c.changes && (h / 5) % 2 == 1;
        Status {
            height: h,
            interval: Some(if flip { self.c.interval * 3 / 2 } else { self.c.interval }),
            timer_config: self.c.changes.then(|| if flip { DurationConfig::new(20, 12, 11, 10) } else { DurationConfig::new(15, 10, 10, 7) }),
            authority_list: self.auth(h),
        }
    }
    fn add(g: &mut In, k: &'static str) {
        *g.seen.stats.entry(k).or_default() += 1;
    }
    fn cut(&self, i: usize, h: u64) -> bool {
        // three heights at a time
        // (fewer than four cannot spare one)
        self.c.n > 3 && self.hit(3, h / 3, self.c.trouble).is_some_and(|x| x as usize % self.c.n == i)
    }
}

fn pos(m: &Msg) -> (u64, u64, u8) {
    let (h, r, k) = msg_pos(m);
    (h, r, k as u8)
}

fn route(net: &N, src: usize, dst: usize, m: Msg) {
    let (h, r, k) = pos(&m);
    let t = net.c.trouble;
    let lost = match k {
        0 if r == 0 => net.hit(1, h, t).is_some(),
        2 if r == 0 => net.hit(2, h, t).is_some(),
        _ => false,
    } || net.cut(dst, h);
    if std::env::var("LEAN_DEBUG").is_ok() {
        println!("{} -> {} {} {}", src, dst, if lost { "LOST" } else { "" }, crate::wire::show_msg(&m));
    }
    let mut g = net.lock();
    if net.c.hostile > 0 {
        drop(g);
        hostile(net, dst, &m);
        g = net.lock();
    }
    if lost {
        Net::add(&mut g, "messages_lost");
        return;
    }
    let late = g.rng.below(1000) < net.c.late;
    let ms = if late { g.rng.range(net.c.interval, net.c.interval * 4) } else { g.rng.range(0, net.c.lat) };
    let twice = g.rng.below(100) < 3;
    g.seen.order = mix_all(&[g.seen.order, src as u64, dst as u64, k as u64]);
    drop(g);
    let m = match wire_trip(&m) {
        Ok(m) => m,
        Err(e) => {
            net.lock().seen.bad.push(("CODEC", e));
            return;
        }
    };
    for i in 0..1 + twice as u64 {
        let (net, m) = (net.clone(), m.clone());
        tokio::spawn(async move {
            if ms + i > 0 {
                sleep(Duration::from_millis(ms + i * 3)).await;
            }
            let h = {
                let mut g = net.lock();
                Net::add(&mut g, "messages_delivered");
                if late {
                    Net::add(&mut g, "messages_late");
                }
                g.moves += 1;
                g.nodes[dst].handler.clone()
            };
            if let Some(h) = h {
                let _ = h.send_msg(Context::new(), m);
            }
        });
    }
}

fn spoil_bits(r: &mut Rng, b: &Bytes) -> Bytes {
    let mut v = b.to_vec();
    match r.below(7) {
        // the quorum as it is, and seats there are none of
        0 => {
            if let Some(x) = v.last_mut() {
                *x |= 1;
            }
        }
        1 => v.push(r.next() as u8),
        2 => v.extend(vec![0xff; r.range(1, 40) as usize]),
        3 => v.clear(),
        4 => v = vec![0xff; v.len()],
        5 => v.truncate(v.len().saturating_sub(1)),
        _ => {
            if !v.is_empty() {
                let i = r.below(v.len() as u64 * 8) as usize;
                v[i / 8] ^= 1 << (i % 8);
            }
        }
    }
    Bytes::from(v)
}
fn spoil_sig(r: &mut Rng, b: &Bytes) -> Bytes {
    let mut v = b.to_vec();
    match r.below(4) {
        0 => v.clear(),
        1 => v.truncate(r.below(v.len() as u64 + 1) as usize),
        2 => v.extend(r.bytes(9)),
        _ => {
            if !v.is_empty() {
                let i = r.usize(v.len());
                v[i] ^= 1 << r.below(8);
            }
        }
    }
    Bytes::from(v)
}
fn spoil_num(r: &mut Rng, x: u64) -> u64 {
    match r.below(7) {
        0 => u64::MAX,
        1 => u64::MAX - r.below(4),
        2 => 0,
        3 => x.wrapping_sub(1),
        4 => x.wrapping_add(1 + r.below(3)),
        5 => x.wrapping_add(1 << r.below(64)),
        _ => r.next(),
    }
}
fn spoil_qc(r: &mut Rng, q: &mut AggregatedVote) {
    match r.below(9) {
        0..=3 => q.signature.address_bitmap = spoil_bits(r, &q.signature.address_bitmap),
        4 => q.signature.signature = spoil_sig(r, &q.signature.signature),
        5 => q.height = spoil_num(r, q.height),
        6 => q.round = spoil_num(r, q.round),
        7 => q.leader = Bytes::from(r.bytes(20)),
        _ => q.block_hash = if r.below(2) == 0 { Hash::new() } else { Bytes::from(r.bytes(16)) },
    }
}
/// What somebody on the wire makes of a message. None of it bears a signature of what it says,
/// except for fields that no signature covers.
fn spoil(r: &mut Rng, m: &Msg) -> Msg {
    let mut m = m.clone();
    match &mut m {
        OverlordMsg::SignedProposal(p) => match r.below(8) {
            0 => p.signature = spoil_sig(r, &p.signature),
            1 => p.proposal.height = spoil_num(r, p.proposal.height),
            2 => p.proposal.round = spoil_num(r, p.proposal.round),
            3 => p.proposal.proposer = Bytes::from(r.bytes(20)),
            4 => p.proposal.block_hash = Hash::new(),
            _ => match &mut p.proposal.lock {
                Some(l) if r.below(3) > 0 => spoil_qc(r, &mut l.lock_votes),
                Some(l) => l.lock_round = spoil_num(r, l.lock_round),
                None => p.proposal.proposer = Bytes::new(),
            },
        },
        OverlordMsg::SignedVote(v) => match r.below(6) {
            0 => v.signature = spoil_sig(r, &v.signature),
            1 => v.vote.height = spoil_num(r, v.vote.height),
            2 => v.vote.round = spoil_num(r, v.vote.round),
            3 => v.voter = Bytes::from(r.bytes(20)),
            4 => v.voter = Bytes::new(),
            _ => v.vote.block_hash = Bytes::from(r.bytes(32)),
        },
        OverlordMsg::AggregatedVote(q) => spoil_qc(r, q),
        OverlordMsg::SignedChoke(c) => match r.below(7) {
            0 => c.signature = spoil_sig(r, &c.signature),
            1 => c.choke.height = spoil_num(r, c.choke.height),
            2 => c.choke.round = spoil_num(r, c.choke.round),
            3 => c.address = Bytes::from(r.bytes(20)),
            _ => match &mut c.choke.from {
                UpdateFrom::PrevoteQC(q) | UpdateFrom::PrecommitQC(q) => spoil_qc(r, q),
                UpdateFrom::ChokeQC(q) => match r.below(3) {
                    0 => q.round = spoil_num(r, q.round),
                    1 => q.signature = spoil_sig(r, &q.signature),
                    _ => q.voters.push(Bytes::from(r.bytes(3))),
                },
            },
        },
        _ => {}
    }
    m
}
/// The same on its way over the wire: a few bytes damaged, decoded again if it does.
fn damage(r: &mut Rng, m: &Msg) -> Option<Msg> {
    fn hurt(r: &mut Rng, mut b: Vec<u8>) -> Vec<u8> {
        for _ in 0..r.range(1, 3) {
            let i = r.usize(b.len().max(1));
            match r.below(4) {
                0 => b.truncate(i),
                1 => b.push(r.next() as u8),
                _ => {
                    if let Some(x) = b.get_mut(i) {
                        *x = r.next() as u8;
                    }
                }
            }
        }
        b
    }
    match m {
        OverlordMsg::SignedProposal(x) => rlp::decode(&hurt(r, rlp::encode(x).to_vec())).ok().map(OverlordMsg::SignedProposal),
        OverlordMsg::SignedVote(x) => rlp::decode(&hurt(r, rlp::encode(x).to_vec())).ok().map(OverlordMsg::SignedVote),
        OverlordMsg::AggregatedVote(x) => rlp::decode(&hurt(r, rlp::encode(x).to_vec())).ok().map(OverlordMsg::AggregatedVote),
        OverlordMsg::SignedChoke(x) => rlp::decode(&hurt(r, rlp::encode(x).to_vec())).ok().map(OverlordMsg::SignedChoke),
        _ => None,
    }
}
/// What an application makes of a proof or a bitmap that it was handed.
fn outside(net: &N, r: &mut Rng, m: &Msg) {
    if let OverlordMsg::AggregatedVote(q) = m {
        let mut list = net.auth(q.height);
        let voters = overlord::extract_voters(&mut list, &q.signature.address_bitmap);
        let _ = overlord::get_leader(q.height, q.round, list);
        if r.below(2) == 0 {
            let _ = voters.map(|v| v.len());
        }
    }
}

fn hostile(net: &N, dst: usize, m: &Msg) {
    let (m2, ms, h) = {
        let mut g = net.lock();
        if g.rng.below(1000) >= net.c.hostile {
            return;
        }
        let mut r = g.rng.fork();
        let m2 = if r.below(5) == 0 { damage(&mut r, m) } else { Some(spoil(&mut r, m)) };
        Net::add(&mut g, if m2.is_some() { "hostile_messages" } else { "undecodable_messages" });
        (m2, r.below(net.c.interval * 2), r)
    };
    let mut r = h;
    let m2 = match m2 {
        Some(m2) => m2,
        None => return,
    };
    outside(net, &mut r, &m2);
    let net = net.clone();
    tokio::spawn(async move {
        sleep(Duration::from_millis(if ms % 2 == 0 { 0 } else { ms })).await;
        let h = net.lock().nodes[dst].handler.clone();
        if let Some(h) = h {
            let _ = h.send_msg(Context::new(), m2);
        }
    });
}

struct Ad {
    net: N,
    i: usize,
    inc: u32,
}

impl Ad {
    fn dead(&self) -> bool {
        self.net.lock().nodes[self.i].inc != self.inc
    }
    async fn nap(&self) {
        let (ms, y) = {
            let mut g = self.net.lock();
            (g.rng.below(3), g.rng.below(3))
        };
        for _ in 0..y {
            tokio::task::yield_now().await;
        }
        if ms == 2 {
            sleep(Duration::from_millis(1)).await;
        }
    }
}

#[async_trait]
impl Consensus<Blk> for Ad {
    async fn get_block(&self, _c: Context, height: u64) -> Result<(Blk, Hash), BErr> {
        self.nap().await;
        let b = {
            let mut g = self.net.lock();
            let nonce = g.rng.next();
            Blk { height, proposer: self.i as u32, nonce, body: vec![nonce as u8; self.net.c.body], alt: 0 }
        };
        let h = b.hash();
        Ok((b, h))
    }
    async fn check_block(&self, _c: Context, height: u64, hash: Hash, b: Blk) -> Result<(), BErr> {
        self.nap().await;
        if b.height != height || b.hash() != hash {
            return err("check");
        }
        // the first proposer's block, at every node
        if self.net.c.n > 1 && self.net.hit(4, height, self.net.c.trouble).is_some() {
            let first = ref_leader(height, 0, &self.net.auth(height));
            let mine = self.net.lock().nodes[b.proposer as usize % self.net.c.n].addr == first;
            if mine {
                Net::add(&mut self.net.lock(), "blocks_rejected");
                return err("rejected");
            }
        }
        Ok(())
    }
    async fn commit(&self, _c: Context, height: u64, commit: Commit<Blk>) -> Result<Status, BErr> {
        if self.dead() {
            return std::future::pending().await;
        }
        let hash = commit.content.hash();
        {
            let mut g = self.net.lock();
            g.moves += 1;
            let i = self.i;
            Net::add(&mut g, "commits");
            if commit.proof.block_hash != hash || commit.proof.height != height || commit.height != height {
                g.seen.bad.push(("C02", format!("node {} commits h{} with a proof of another block", i, height)));
            }
            match g.recent.iter().find(|x| x.0 == height) {
                Some(x) if x.1 != hash => {
                    let e = format!("node {} commits {} at h{} where {} was", i, hx(&hash), height, hx(&x.1));
                    g.seen.bad.push(("C01", e));
                }
                Some(_) => {}
                None => {
                    g.recent.push_back((height, hash));
                    if g.recent.len() > 64 {
                        g.recent.pop_front();
                    }
                }
            }
            let d = g.done.entry(i).or_default();
            d.push_back(height);
            if d.len() > 8 {
                d.pop_front();
            }
            let n = &mut g.nodes[i];
            n.latest = n.latest.max(height);
            if height > g.top {
                g.top = height;
            }
            for (k, (a, b)) in self.net.c.marks.iter().enumerate() {
                if (*a..*b).contains(&height) {
                    let now = crate::mem::live();
                    let l = &mut g.seen.live[k];
                    let cur = l.map_or((i64::MAX, 0), |x| x);
                    *l = Some((cur.0.min(now), cur.1 + 1));
                }
            }
        }
        self.nap().await;
        if self.net.hit(5, height, self.net.c.trouble).is_some_and(|x| x as usize % self.net.c.n == self.i) {
            Net::add(&mut self.net.lock(), "slow_commits");
            sleep(Duration::from_millis(self.net.c.interval * 2)).await;
        }
        if self.dead() {
            return std::future::pending().await;
        }
        Ok(self.net.status(height + 1))
    }
    async fn get_authority_list(&self, _c: Context, height: u64) -> Result<Vec<Node>, BErr> {
        Ok(self.net.auth(height))
    }
    async fn broadcast_to_other(&self, _c: Context, msg: Msg) -> Result<(), BErr> {
        if self.dead() {
            return std::future::pending().await;
        }
        for d in 0..self.net.c.n {
            if d != self.i {
                route(&self.net, self.i, d, msg.clone());
            }
        }
        Ok(())
    }
    async fn transmit_to_relayer(&self, _c: Context, addr: Address, msg: Msg) -> Result<(), BErr> {
        if self.dead() {
            return std::future::pending().await;
        }
        let d = self.net.lock().nodes.iter().position(|n| n.addr == addr);
        match d {
            Some(d) => {
                route(&self.net, self.i, d, msg);
                Ok(())
            }
            None => err("nobody"),
        }
    }
    fn report_error(&self, _c: Context, _e: ConsensusError) {
        Net::add(&mut self.net.lock(), "errors_reported");
    }
    fn report_view_change(&self, _c: Context, _h: u64, _r: u64, _why: ViewChangeReason) {
        Net::add(&mut self.net.lock(), "view_changes");
    }
}

#[async_trait]
impl Wal for Ad {
    async fn save(&self, info: Bytes) -> Result<(), BErr> {
        if self.dead() {
            return std::future::pending().await;
        }
        self.nap().await;
        let mut g = self.net.lock();
        Net::add(&mut g, "wal_saves");
        g.nodes[self.i].wal = Some(info);
        Ok(())
    }
    async fn load(&self) -> Result<Option<Bytes>, BErr> {
        Ok(self.net.lock().nodes[self.i].wal.clone())
    }
}

struct Cr {
    addr: Bytes,
}
impl Crypto for Cr {
    fn hash(&self, msg: Bytes) -> Hash {
        hash_msg(&msg)
    }
    fn sign(&self, hash: Hash) -> Result<Signature, BErr> {
        Ok(sig_of(&self.addr, &hash))
    }
    fn aggregate_signatures(&self, sigs: Vec<Signature>, voters: Vec<Address>) -> Result<Signature, BErr> {
        if sigs.len() != voters.len() {
            return err("length mismatch");
        }
        Ok(agg_of(&sigs))
    }
    fn verify_signature(&self, sig: Signature, hash: Hash, voter: Address) -> Result<(), BErr> {
        if sig == sig_of(&voter, &hash) {
            Ok(())
        } else {
            err("bad signature")
        }
    }
    fn verify_aggregated_signature(&self, agg: Signature, hash: Hash, voters: Vec<Address>) -> Result<(), BErr> {
        if agg == agg_expected(&hash, &voters) {
            Ok(())
        } else {
            err("bad aggregated signature")
        }
    }
}

fn start(net: &N, i: usize) {
    let (addr, latest, inc) = {
        let mut g = net.lock();
        if g.over {
            return;
        }
        let n = &mut g.nodes[i];
        n.inc += 1;
        n.ended = false;
        (n.addr.clone(), n.latest, n.inc)
    };
    let ad = || Arc::new(Ad { net: net.clone(), i, inc });
    let ov = Arc::new(Overlord::new(addr.clone(), ad(), Arc::new(Cr { addr }), ad()));
    let st = net.status(latest + 1);
    let h = ov.get_handler();
    let net2 = net.clone();
    let (iv, tc, list) = (st.interval.unwrap_or(1000), st.timer_config.clone(), st.authority_list.clone());
    let task = tokio::spawn(async move {
        let r = ov.run(latest, iv, list, tc).await;
        let mut g = net2.lock();
        if g.nodes[i].inc == inc {
            g.nodes[i].ended = true;
        }
        r.is_err()
    });
    let mut g = net.lock();
    g.nodes[i].handler = Some(h.clone());
    g.nodes[i].task = Some(task);
    drop(g);
    let _ = h.send_msg(Context::new(), OverlordMsg::RichStatus(st));
}

/// Hands a node that fell behind the status of the next height.
fn sync(net: &N) {
    let todo: Vec<(OverlordHandler<Blk>, u64)> = {
        let mut g = net.lock();
        let top = g.top;
        let mut v = vec![];
        for i in 0..net.c.n {
            if g.nodes[i].latest < top && (g.nodes[i].latest + 1 < top || g.rng.below(4) == 0) && !net.cut(i, top + 1) {
                g.nodes[i].latest = top;
                if let Some(h) = g.nodes[i].handler.clone() {
                    v.push((h, top + 1));
                }
                Net::add(&mut g, "nodes_synced");
            }
        }
        v
    };
    for (h, at) in todo {
        let _ = h.send_msg(Context::new(), OverlordMsg::RichStatus(net.status(at)));
    }
}

async fn drive(net: N, threads: bool) {
    let c = net.c.clone();
    for i in 0..c.n {
        start(&net, i);
    }
    let beat = Duration::from_millis(c.interval.max(4) / 2);
    let (mut last, mut quiet, mut beats) = (0, 0u64, 0u64);
    let mut restarted = 0;
    loop {
        sleep(beat).await;
        beats += 1;
        let top = net.lock().top;
        if beats % 4 == 0 {
            sync(&net);
        }
        if c.restarts && top >= restarted + 5 {
            restarted = top;
            let (i, how) = {
                let mut g = net.lock();
                (g.rng.below(c.n as u64) as usize, if threads { g.rng.below(2) } else { 0 })
            };
            if how == 0 {
                // an orderly stop: everything of the old instance ends
                let (h, t) = {
                    let mut g = net.lock();
                    (g.nodes[i].handler.clone(), g.nodes[i].task.take())
                };
                if let Some(h) = h {
                    let _ = h.send_msg(Context::new(), OverlordMsg::Stop);
                }
                for _ in 0..c.patience {
                    if net.lock().nodes[i].ended {
                        break;
                    }
                    sleep(Duration::from_millis(1)).await;
                }
                if let Some(t) = t {
                    t.abort();
                }
            }
            let (task, handler) = {
                let mut g = net.lock();
                let n = &mut g.nodes[i];
                // what it had stays behind in its own channels
                n.inc += 1;
                (n.task.take(), n.handler.take())
            };
            drop(handler);
            if let Some(t) = task {
                t.abort();
            }
            Net::add(&mut net.lock(), "restarts");
            start(&net, i);
        }
        if top == last {
            quiet += 1;
        } else {
            quiet = 0;
            last = top;
        }
        let all = net.lock().nodes.iter().map(|n| n.latest).min().unwrap_or(0);
        if all >= c.target {
            net.lock().seen.reached = true;
            break;
        }
        if quiet > c.patience {
            if std::env::var("LEAN_DEBUG").is_ok() {
                let l: Vec<(u64, bool)> = net.lock().nodes.iter().map(|n| (n.latest, n.ended)).collect();
                println!("{:?} cut {:?}", l, (0..c.n).map(|i| net.cut(i, l.iter().map(|x| x.0).max().unwrap() + 1)).collect::<Vec<_>>());
            }
            net.lock().seen.stuck = true;
            break;
        }
    }
    if c.stop {
        let hs: Vec<_> = net.lock().nodes.iter().filter_map(|n| n.handler.clone()).collect();
        for h in hs {
            let _ = h.send_msg(Context::new(), OverlordMsg::Stop);
        }
        for _ in 0..c.patience {
            sleep(beat).await;
            if net.lock().nodes.iter().all(|n| n.ended) {
                break;
            }
        }
        let mut g = net.lock();
        let left = g.nodes.iter().filter(|n| !n.ended).count();
        if left > 0 {
            g.seen.bad.push(("C21", format!("{} nodes did not return from run after a stop", left)));
        }
        *g.seen.stats.entry("nodes_stopped").or_default() += (c.n - left) as u64;
    }
    net.lock().over = true;
}

pub fn run(c: Lean, threads: usize) -> Seen {
    let mut rng = Rng::new(c.seed);
    let nodes = (0..c.n)
        .map(|_| Node1 { addr: Bytes::from(rng.bytes(20)), handler: None, task: None, inc: 0, wal: None, latest: 0, ended: false })
        .collect();
    let marks = c.marks.len();
    let net: N = Arc::new(Net {
        c,
        m: Mutex::new(In {
            rng,
            nodes,
            top: 0,
            recent: VecDeque::new(),
            done: HashMap::new(),
            seen: Seen { live: vec![None; marks], ..Default::default() },
            over: false,
            moves: 0,
        }),
    });
    let rt = if threads == 0 {
        tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(threads).enable_time().build()
    }
    .unwrap();
    if threads == 0 && cfg!(feature = "virt") {
        let n2 = net.clone();
        rt.block_on(async move {
            crate::virt::set_virtual_clock(true);
            drive(n2, false).await;
        });
        crate::virt::set_virtual_clock(false);
    } else {
        rt.block_on(drive(net.clone(), threads > 0));
    }
    rt.shutdown_timeout(Duration::from_secs(20));
    let mut g = net.lock();
    for n in g.nodes.iter_mut() {
        n.handler = None;
        n.task = None;
    }
    std::mem::take(&mut g.seen)
}

/// Memory: many heights on virtual time.
pub fn long(seed: u64, heights: u64) -> Lean {
    let mut r = Rng::new(seed);
    Lean {
        seed: r.next(),
        n: *r.pick(&[1, 2, 3, 4, 4, 5, 7]) as usize,
        interval: *r.pick(&[200, 1000, 3000]),
        target: heights,
        body: 400,
        lat: *r.pick(&[5, 30, 150]),
        late: *r.pick(&[0, 20, 60]),
        trouble: *r.pick(&[0, 60, 150, 150]),
        restarts: r.below(3) == 0,
        changes: r.below(2) == 0,
        hostile: 0,
        stop: false,
        marks: vec![(heights / 8, heights / 2), (heights - heights * 3 / 8, heights)],
        patience: 20000,
    }
}

/// Threads: few heights on the real clock, fast.
pub fn short(seed: u64, heights: u64) -> Lean {
    let mut r = Rng::new(seed);
    let mut c = Lean {
        seed: r.next(),
        n: *r.pick(&[3, 4, 4, 5, 7]) as usize,
        interval: *r.pick(&[10, 20, 40]),
        target: heights,
        body: *r.pick(&[0, 100, 3000]),
        lat: *r.pick(&[0, 1, 4]),
        late: 20,
        trouble: *r.pick(&[0, 100, 200]),
        restarts: r.below(3) > 0,
        changes: r.below(2) == 0,
        hostile: *r.pick(&[60, 200]),
        stop: true,
        marks: vec![],
        patience: 0,
    };
    // a minute
    c.patience = 120_000 / c.interval;
    c
}
