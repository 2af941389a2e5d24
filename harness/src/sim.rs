//! Deterministic cluster simulation around real `Overlord` instances.
use crate::app::*;
use crate::prng::{mix_all, Rng};
use async_trait::async_trait;
use bytes::Bytes;
use overlord::error::ConsensusError;
use overlord::types::*;
use overlord::{Consensus, Context, Crypto, DurationConfig, Overlord, OverlordHandler, Wal, WalInfo};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::Duration;
use tokio::time::{sleep, Instant};

pub use crate::wire::*;

// ------------------------------------------------------------------ configuration

#[derive(Clone, Debug)]
pub struct Epoch {
    pub from: u64,
    /// (slot index, propose weight, vote weight)
    pub vals: Vec<(usize, u32, u32)>,
    pub interval: u64,
    pub ratios: Option<[u64; 4]>,
    /// whether the status entering this epoch announces interval / ratios (None otherwise)
    pub announce: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Role {
    Honest,
    Byz,
    /// second instance of another slot's identity
    Twin(usize),
    /// driven by a scenario script
    Puppet,
}

#[derive(Clone, Debug, Default)]
pub struct Lat {
    pub lo: u64,
    pub hi: u64,
}
impl Lat {
    pub fn new(lo: u64, hi: u64) -> Self {
        Lat { lo, hi }
    }
    fn draw(&self, r: &mut Rng) -> u64 {
        r.range(self.lo, self.hi)
    }
}

#[derive(Clone, Debug)]
pub struct Partition {
    pub from: u64,
    pub to: u64,
    /// group of each slot; messages cross groups only if equal
    pub group: Vec<u8>,
}

/// Round-structured adversary: decides the fate of each (height, round, kind) as a whole.
#[derive(Clone, Debug)]
pub struct RoundAdv {
    pub seed: u64,
    pub upto_height: u64,
    /// permille of (h, r, kind) classes that are disturbed, per kind:
    /// proposal, prevote, precommit, prevote QC, precommit QC, choke
    pub p: [u32; 6],
    /// permille of delivering to one destination in a disturbed class
    pub deliver: u32,
    /// permille of holding back (instead of dropping) an undelivered message
    pub hold: u32,
    pub hold_ms: u64,
}

#[derive(Clone, Debug)]
pub struct NetCfg {
    pub gst: u64,
    pub pre: Lat,
    pub post: Lat,
    pub drop: u32,
    pub dup: u32,
    pub slow: u32,
    pub slow_ms: u64,
    pub parts: Vec<Partition>,
    pub adv: Option<RoundAdv>,
    /// duplicates also after stabilisation
    pub dup_after: bool,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Copy, PartialOrd, Ord)]
pub enum Op {
    WalSave,
    WalLoad,
    Broadcast,
    Transmit,
    GetBlock,
    CheckBlock,
    Commit,
    Sign,
}

#[derive(Clone, Debug)]
pub struct CrashPlan {
    pub slot: usize,
    pub when: CrashWhen,
    /// downtime before restart; None = stays down
    pub down: Option<u64>,
}
#[derive(Clone, Debug)]
pub enum CrashWhen {
    At(u64),
    /// (life-long I/O op number of the slot, after the effect?)
    Op(u64, bool),
}

#[derive(Clone, Debug)]
pub struct Fault {
    pub slot: usize,
    pub from: u64,
    pub to: u64,
    pub op: Op,
    pub permille: u32,
    /// hang this long before failing (or, with fail=false, before succeeding)
    pub hang: u64,
    pub fail: bool,
}

#[derive(Clone, Debug)]
pub struct SyncCfg {
    /// service period; 0 = off
    pub every: u64,
    /// only from this time on
    pub from: u64,
    /// how long a node must be behind before it is synced
    pub lag: u64,
}

#[derive(Clone, Debug)]
pub struct ByzCfg {
    pub seed: u64,
    /// attack weights by kind, see byz.rs
    pub w: [u32; 12],
    /// permille of reacting to an observed message
    pub react: u32,
    /// stop at this time
    pub until: u64,
    /// participate honestly (vote for proposals, lead)
    pub play: bool,
    /// lead to split the cluster: another block for each half, and for each half whatever
    /// certificate of this kind of weakness can be made for its block
    pub split: Option<u8>,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub roles: Vec<Role>,
    pub epochs: Vec<Epoch>,
    pub target: u64,
    /// if > 0, the goal is this many heights above the newest one at stabilisation time
    pub after: u64,
    pub deadline: u64,
    pub net: NetCfg,
    pub d_check: Lat,
    pub d_wal: Lat,
    pub d_get: Lat,
    pub d_commit: Lat,
    pub d_send: Lat,
    pub yields: u64,
    /// permille of (block, node) pairs whose check is rejected (before `reject_until`)
    pub reject: u32,
    pub reject_until: u64,
    pub faults: Vec<Fault>,
    pub crashes: Vec<CrashPlan>,
    pub byz: Option<ByzCfg>,
    pub sync: SyncCfg,
    /// start style: run(latest) + status (false) or run(latest + 1) (true), per incarnation
    pub style_b: u32,
    /// nodes are started without the status of their first height
    pub no_status: bool,
    /// stop all nodes at the end and require run() to return
    pub body: usize,
    /// permille of fetched blocks that fit any height and come up again and again
    pub recur: u32,
    /// extra quiet time after the goal is reached
    pub linger: u64,
    /// validators list handed out shuffled
    pub shuffle: bool,
    /// stop sending: (time, slot)
    pub stops: Vec<(u64, usize)>,
    /// replies of commit() skip ahead to the application's newest height
    pub skip_ahead: bool,
}

impl Cfg {
    pub fn plain(seed: u64, n: usize) -> Cfg {
        Cfg {
            seed,
            roles: vec![Role::Honest; n],
            epochs: vec![Epoch {
                from: 0,
                vals: (0..n).map(|i| (i, 1, 1)).collect(),
                interval: 1000,
                ratios: None,
                announce: true,
            }],
            target: 5,
            after: 0,
            deadline: 3_000_000,
            net: NetCfg {
                gst: 0,
                pre: Lat::new(1, 30),
                post: Lat::new(1, 30),
                drop: 0,
                dup: 0,
                slow: 0,
                slow_ms: 0,
                parts: vec![],
                adv: None,
                dup_after: false,
            },
            d_check: Lat::new(0, 20),
            d_wal: Lat::new(0, 0),
            d_get: Lat::new(0, 5),
            d_commit: Lat::new(0, 5),
            d_send: Lat::new(0, 0),
            yields: 0,
            reject: 0,
            reject_until: 0,
            faults: vec![],
            crashes: vec![],
            byz: None,
            sync: SyncCfg { every: 500, from: 0, lag: 1500 },
            style_b: 0,
            no_status: false,
            body: 16,
            recur: 0,
            linger: 0,
            shuffle: true,
            stops: vec![],
            skip_ahead: false,
        }
    }
    pub fn epoch(&self, h: u64) -> &Epoch {
        let mut e = &self.epochs[0];
        for x in &self.epochs {
            if x.from <= h {
                e = x;
            }
        }
        e
    }
    pub fn last_change(&self) -> u64 {
        self.epochs.last().map(|e| e.from).unwrap_or(0)
    }
}

// ------------------------------------------------------------------ trace

/// height of a block that fits any height
pub const ANY_HEIGHT: u64 = u64::MAX;

#[derive(Clone, Debug)]
pub enum K {
    Start { init: u64, wal: bool },
    Crash { why: String },
    RunEnd { err: bool },
    Status { st: Arc<Status>, sync: bool },
    WalSave { info: Option<Arc<WalInfo<Blk>>>, ok: bool },
    WalLoad { some: bool, ok: bool },
    Sign { pre: Pre, ok: bool },
    Send { to: Option<Bytes>, msg: Arc<Msg>, ok: bool },
    Recv { msg: Arc<Msg>, from: usize },
    Get { h: u64, hash: Bytes, ok: bool },
    Check { h: u64, hash: Bytes, blk: Arc<Blk> },
    Checked { h: u64, hash: Bytes, blk: Arc<Blk>, ok: bool },
    Commit { h: u64, c: Arc<Commit<Blk>> },
    Committed { h: u64, ok: bool },
    View { h: u64, r: u64, reason: String },
    Error { e: String },
    Stop,
    VerifyAgg { voters: Vec<Bytes>, ok: bool },
    Codec { what: String },
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub t: u64,
    pub slot: usize,
    pub inc: u32,
    pub k: K,
}

pub fn show(e: &Ev) -> String {
    let k = match &e.k {
        K::WalSave { info, ok } => match info {
            Some(i) => format!(
                "wal h{} r{} step {} lock {:?} ok {}",
                i.height,
                i.round,
                step_of(i),
                i.lock.as_ref().map(|l| (l.lock_round, hx(&l.lock_votes.block_hash))),
                ok
            ),
            None => format!("wal ? ok {}", ok),
        },
        K::Send { to, msg, ok } => format!(
            "send to {} ok {}: {}",
            to.as_ref().map(|b| hx(b)).unwrap_or_else(|| "all".into()),
            ok,
            show_msg(msg)
        ),
        K::Recv { msg, from } => format!("recv from #{}: {}", from, show_msg(msg)),
        K::Commit { h, c } => format!("commit h{} {} proof r{}", h, hx(&c.proof.block_hash), c.proof.round),
        K::Check { h, hash, .. } => format!("check h{} {}", h, hx(hash)),
        K::Checked { h, hash, ok, .. } => format!("checked h{} {} {}", h, hx(hash), ok),
        K::Sign { pre, ok } => match pre {
            Pre::Vote(h, r, t, b) => format!("sign vote{} h{} r{} [{}] {}", t, h, r, hx(b), ok),
            p => format!("sign {:?} {}", p, ok),
        },
        K::Status { st, sync } => format!("status h{} sync {}", st.height, sync),
        k => format!("{:?}", k),
    };
    format!("{:>7} #{}.{} {}", e.t, e.slot, e.inc, k)
}

pub fn step_of(i: &WalInfo<Blk>) -> u8 {
    i.step.clone().into()
}

// ------------------------------------------------------------------ world

pub struct Slot {
    pub addr: Bytes,
    pub inc: u32,
    pub alive: bool,
    pub handler: Option<OverlordHandler<Blk>>,
    pub task: Option<tokio::task::AbortHandle>,
    pub wal: Option<Bytes>,
    pub ops: u64,
    pub op_log: Vec<Op>,
    pub crash_op: Vec<(u64, bool, Option<u64>)>,
    /// height whose decision could not be recorded
    pub gave_up: Option<u64>,
    /// committed by this application: height -> (hash, commit)
    pub store: BTreeMap<u64, Commit<Blk>>,
    pub latest: u64,
    pub behind_since: Option<u64>,
    pub ended: bool,
    pub last_status: u64,
}

#[derive(Default)]
pub struct Wire {
    pub votes: HashMap<(u64, u64, u8, Bytes), BTreeMap<Bytes, Bytes>>,
    pub chokes: HashMap<(u64, u64), BTreeMap<Bytes, Bytes>>,
    pub qcs: Vec<AggregatedVote>,
    pub props: Vec<SignedProposal<Blk>>,
    pub agg_chokes: Vec<AggregatedChoke>,
    pub max: (u64, u64),
}

pub struct Inner {
    pub rng: Rng,
    pub trace: Vec<Ev>,
    pub slots: Vec<Slot>,
    pub preimages: HashMap<Bytes, Pre>,
    pub wire: Wire,
    pub byz_rng: Rng,
    pub led: BTreeSet<(u64, u64, usize)>,
    pub halves: BTreeMap<(u64, u64), Vec<(Bytes, Vec<usize>)>>,
    pub shuffles: u64,
    pub drop_in: BTreeSet<usize>,
    pub done: bool,
    pub restarts_pending: usize,
    pub delivered: u64,
    pub events_cap: bool,
}

pub struct World {
    pub cfg: Cfg,
    pub m: Mutex<Inner>,
    pub start: Instant,
}
pub type W = Arc<World>;

pub const EVENT_CAP: usize = 400_000;

impl World {
    pub fn new(cfg: Cfg) -> W {
        let mut rng = Rng::new(cfg.seed);
        let mut slots = Vec::new();
        for (i, r) in cfg.roles.iter().enumerate() {
            let id = if let Role::Twin(o) = r { *o } else { i };
            let addr = h32("addr", &[&cfg.seed.to_le_bytes(), &(id as u64).to_le_bytes()]);
            // addresses of different lengths in every fifth case
            let len = if crate::prng::mix(cfg.seed ^ 0xadd2) % 5 == 0 { 4 + addr[31] as usize % 29 } else { 20 };
            let addr = addr.slice(0..len);
            slots.push(Slot {
                addr,
                inc: 0,
                alive: false,
                handler: None,
                task: None,
                wal: None,
                ops: 0,
                op_log: vec![],
                crash_op: vec![],
                gave_up: None,
                store: BTreeMap::new(),
                latest: 0,
                behind_since: None,
                ended: false,
                last_status: 0,
            });
        }
        for c in &cfg.crashes {
            if let CrashWhen::Op(k, after) = c.when {
                slots[c.slot].crash_op.push((k, after, c.down));
            }
        }
        let byz_rng = rng.fork();
        Arc::new(World {
            m: Mutex::new(Inner {
                rng,
                trace: vec![],
                slots,
                preimages: HashMap::new(),
                wire: Wire::default(),
                byz_rng,
                led: BTreeSet::new(),
                halves: BTreeMap::new(),
                shuffles: 0,
                drop_in: BTreeSet::new(),
                done: false,
                restarts_pending: 0,
                delivered: 0,
                events_cap: false,
            }),
            start: Instant::now(),
            cfg,
        })
    }
    pub fn lock(&self) -> MutexGuard<'_, Inner> {
        match self.m.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
    pub fn now(&self) -> u64 {
        (Instant::now() - self.start).as_millis() as u64
    }
    pub fn log(&self, slot: usize, inc: u32, k: K) {
        let t = self.now();
        let mut g = self.lock();
        g.push(Ev { t, slot, inc, k });
    }
    /// Validators of a height: address-sorted, with weights.
    pub fn auth(&self, h: u64) -> Vec<Node> {
        let g = self.lock();
        auth_of(&self.cfg, &g.slots, h)
    }
    pub fn addr(&self, i: usize) -> Bytes {
        self.lock().slots[i].addr.clone()
    }
    pub fn leader(&self, h: u64, r: u64) -> Bytes {
        ref_leader(h, r, &self.auth(h))
    }
    pub fn status(&self, h: u64, with_timing: bool) -> Status {
        let mut g = self.lock();
        g.shuffles += 1;
        let mut list = auth_of(&self.cfg, &g.slots, h);
        if self.cfg.shuffle {
            let mut r = Rng::new(mix_all(&[self.cfg.seed, g.shuffles, h]));
            r.shuffle(&mut list);
        }
        let e = self.cfg.epoch(h);
        let timing = with_timing && e.announce;
        Status {
            height: h,
            interval: if timing { Some(e.interval) } else { None },
            timer_config: if timing {
                e.ratios.map(|r| DurationConfig::new(r[0], r[1], r[2], r[3]))
            } else {
                None
            },
            authority_list: list,
        }
    }
}

impl Inner {
    pub fn push(&mut self, e: Ev) {
        if self.trace.len() >= EVENT_CAP {
            self.events_cap = true;
            return;
        }
        self.trace.push(e);
    }
    pub fn slots_of(&self, addr: &[u8]) -> Vec<usize> {
        (0..self.slots.len()).filter(|i| self.slots[*i].addr.as_ref() == addr).collect()
    }
}

pub fn auth_of(cfg: &Cfg, slots: &[Slot], h: u64) -> Vec<Node> {
    let mut v: Vec<Node> = cfg
        .epoch(h)
        .vals
        .iter()
        .map(|(i, p, w)| {
            let mut n = Node::new(slots[*i].addr.clone());
            n.set_propose_weight(*p);
            n.set_vote_weight(*w);
            n
        })
        .collect();
    v.sort_by(|a, b| a.address.cmp(&b.address));
    v
}

/// Independent reference for leader election (sorted list).
pub fn weight_ok(auth: &[Node], who: &BTreeSet<Bytes>) -> bool {
    let tot: u64 = auth.iter().map(|n| n.vote_weight as u64).sum();
    let w: u64 = auth.iter().filter(|n| who.contains(&n.address)).map(|n| n.vote_weight as u64).sum();
    w * 3 > tot * 2
}

// ------------------------------------------------------------------ adapters

pub struct Ad {
    pub w: W,
    pub slot: usize,
    pub inc: u32,
}

enum Gate {
    Go,
    /// perform the effect, then die
    GoThenDie,
    Fail,
}

impl Ad {
    fn dead(&self) -> bool {
        let g = self.w.lock();
        let s = &g.slots[self.slot];
        !s.alive || s.inc != self.inc
    }
    async fn freeze<T>(&self) -> T {
        std::future::pending::<T>().await
    }
    async fn nap(&self, lat: &Lat) {
        let (ms, y) = {
            let mut g = self.w.lock();
            let ms = lat.draw(&mut g.rng);
            let y = g.rng.below(self.w.cfg.yields + 1);
            (ms, y)
        };
        for _ in 0..y {
            tokio::task::yield_now().await;
        }
        if ms > 0 {
            sleep(Duration::from_millis(ms)).await;
        }
    }
    async fn gate(&self, op: Op, lat: &Lat) -> Gate {
        if self.dead() {
            return self.freeze().await;
        }
        let (die_before, die_after, n) = {
            let mut g = self.w.lock();
            let s = &mut g.slots[self.slot];
            s.ops += 1;
            if s.op_log.len() < 4096 {
                s.op_log.push(op);
            }
            let n = s.ops;
            let hit: Vec<(u64, bool, Option<u64>)> = s.crash_op.iter().filter(|c| c.0 == n).cloned().collect();
            (
                hit.iter().find(|c| !c.1).cloned(),
                hit.iter().find(|c| c.1).cloned(),
                n,
            )
        };
        if let Some(c) = die_before {
            crash(&self.w, self.slot, c.2, &format!("before op {} {:?}", n, op));
            return self.freeze().await;
        }
        self.nap(lat).await;
        if self.dead() {
            return self.freeze().await;
        }
        let t = self.w.now();
        let f = {
            let mut g = self.w.lock();
            let mut hit = None;
            for f in &self.w.cfg.faults {
                if f.slot == self.slot && f.op == op && f.from <= t && t < f.to && g.rng.pm(f.permille) {
                    hit = Some((f.hang, f.fail));
                    break;
                }
            }
            hit
        };
        if let Some((hang, fail)) = f {
            if hang > 0 {
                sleep(Duration::from_millis(hang)).await;
                if self.dead() {
                    return self.freeze().await;
                }
            }
            if fail {
                return Gate::Fail;
            }
        }
        if die_after.is_some() {
            return Gate::GoThenDie;
        }
        Gate::Go
    }
    async fn die_after(&self, g: Gate, op: Op) {
        if let Gate::GoThenDie = g {
            let c = {
                let g = self.w.lock();
                let s = &g.slots[self.slot];
                s.crash_op.iter().find(|c| c.0 <= s.ops && c.1).cloned()
            };
            let down = c.and_then(|c| c.2);
            crash(&self.w, self.slot, down, &format!("after op {:?}", op));
            self.freeze::<()>().await;
        }
    }
    fn ev(&self, k: K) {
        self.w.log(self.slot, self.inc, k);
    }
}

#[async_trait]
impl Consensus<Blk> for Ad {
    async fn get_block(&self, _ctx: Context, height: u64) -> Result<(Blk, Hash), BErr> {
        let g = self.gate(Op::GetBlock, &self.w.cfg.d_get.clone()).await;
        if let Gate::Fail = g {
            self.ev(K::Get { h: height, hash: Bytes::new(), ok: false });
            return err("get block");
        }
        let b = {
            let mut g = self.w.lock();
            let nonce = g.rng.next();
            let n = self.w.cfg.body;
            let again = self.w.cfg.recur > 0 && g.rng.pm(self.w.cfg.recur);
            if again {
                Blk { height: ANY_HEIGHT, proposer: 0, nonce: nonce % 2, body: vec![], alt: 0 }
            } else {
                Blk { height, proposer: self.slot as u32, nonce, body: g.rng.bytes(n), alt: 0 }
            }
        };
        let h = b.hash();
        self.ev(K::Get { h: height, hash: h.clone(), ok: true });
        self.die_after(g, Op::GetBlock).await;
        Ok((b, h))
    }

    async fn check_block(&self, _ctx: Context, height: u64, hash: Hash, block: Blk) -> Result<(), BErr> {
        let blk = Arc::new(block.clone());
        if self.dead() {
            return self.freeze().await;
        }
        self.ev(K::Check { h: height, hash: hash.clone(), blk: blk.clone() });
        let g = self.gate(Op::CheckBlock, &self.w.cfg.d_check.clone()).await;
        let mut ok = !matches!(g, Gate::Fail);
        ok &= (block.height == height || block.height == ANY_HEIGHT) && block.hash() == hash && block.alt == 0;
        if self.w.cfg.reject > 0 && self.w.now() < self.w.cfg.reject_until {
            let d = mix_all(&[self.w.cfg.seed, self.slot as u64, hash.get(0..8).map_or(0, |x| u64::from_le_bytes(x.try_into().unwrap_or([0; 8])))]);
            if d % 1000 < self.w.cfg.reject as u64 {
                ok = false;
            }
        }
        self.ev(K::Checked { h: height, hash, blk, ok });
        self.die_after(g, Op::CheckBlock).await;
        if ok {
            Ok(())
        } else {
            err("check failed")
        }
    }

    async fn commit(&self, _ctx: Context, height: u64, commit: Commit<Blk>) -> Result<Status, BErr> {
        if self.dead() {
            return self.freeze().await;
        }
        self.ev(K::Commit { h: height, c: Arc::new(commit.clone()) });
        let g = self.gate(Op::Commit, &self.w.cfg.d_commit.clone()).await;
        if let Gate::Fail = g {
            // the application keeps the block and completes the import by itself later
            self.w.lock().slots[self.slot].store.entry(height).or_insert(commit);
            self.ev(K::Committed { h: height, ok: false });
            return err("commit failed");
        }
        let next = {
            let mut g = self.w.lock();
            let s = &mut g.slots[self.slot];
            s.store.entry(height).or_insert(commit);
            if height > s.latest {
                s.latest = height;
            }
            if self.w.cfg.skip_ahead {
                s.latest + 1
            } else {
                height + 1
            }
        };
        self.ev(K::Committed { h: height, ok: true });
        self.die_after(g, Op::Commit).await;
        let st = self.w.status(next, true);
        self.ev(K::Status { st: Arc::new(st.clone()), sync: false });
        self.w.lock().slots[self.slot].last_status = next;
        Ok(st)
    }

    async fn get_authority_list(&self, _ctx: Context, height: u64) -> Result<Vec<Node>, BErr> {
        Ok(self.w.auth(height))
    }

    async fn broadcast_to_other(&self, _ctx: Context, msg: Msg) -> Result<(), BErr> {
        let g = self.gate(Op::Broadcast, &self.w.cfg.d_send.clone()).await;
        let m = Arc::new(msg);
        if let Gate::Fail = g {
            self.ev(K::Send { to: None, msg: m, ok: false });
            return err("broadcast");
        }
        self.ev(K::Send { to: None, msg: m.clone(), ok: true });
        let dsts: Vec<usize> = {
            let g = self.w.lock();
            let me = g.slots[self.slot].addr.clone();
            (0..g.slots.len()).filter(|i| g.slots[*i].addr != me).collect()
        };
        send_many(&self.w, self.slot, &dsts, m);
        self.die_after(g, Op::Broadcast).await;
        Ok(())
    }

    async fn transmit_to_relayer(&self, _ctx: Context, addr: Address, msg: Msg) -> Result<(), BErr> {
        let g = self.gate(Op::Transmit, &self.w.cfg.d_send.clone()).await;
        let m = Arc::new(msg);
        if let Gate::Fail = g {
            self.ev(K::Send { to: Some(addr), msg: m, ok: false });
            return err("transmit");
        }
        self.ev(K::Send { to: Some(addr.clone()), msg: m.clone(), ok: true });
        let dsts = self.w.lock().slots_of(&addr);
        send_many(&self.w, self.slot, &dsts, m);
        self.die_after(g, Op::Transmit).await;
        Ok(())
    }

    fn report_error(&self, _ctx: Context, e: ConsensusError) {
        if !self.dead() {
            self.ev(K::Error { e: e.to_string() });
        }
    }
    fn report_view_change(&self, _ctx: Context, h: u64, r: u64, reason: ViewChangeReason) {
        if !self.dead() {
            self.ev(K::View { h, r, reason: format!("{:?}", reason) });
        }
    }
}

#[async_trait]
impl Wal for Ad {
    async fn save(&self, info: Bytes) -> Result<(), BErr> {
        let g = self.gate(Op::WalSave, &self.w.cfg.d_wal.clone()).await;
        let dec = rlp::decode::<WalInfo<Blk>>(&info).ok().map(Arc::new);
        if let Gate::Fail = g {
            if let Some(i) = dec.as_ref().filter(|i| u8::from(i.step.clone()) == 4) {
                self.w.lock().slots[self.slot].gave_up = Some(i.height);
            }
            self.ev(K::WalSave { info: dec, ok: false });
            return err("wal save");
        }
        self.w.lock().slots[self.slot].wal = Some(info);
        self.ev(K::WalSave { info: dec, ok: true });
        self.die_after(g, Op::WalSave).await;
        Ok(())
    }
    async fn load(&self) -> Result<Option<Bytes>, BErr> {
        let g = self.gate(Op::WalLoad, &self.w.cfg.d_wal.clone()).await;
        if let Gate::Fail = g {
            self.ev(K::WalLoad { some: false, ok: false });
            return err("wal load");
        }
        let r = self.w.lock().slots[self.slot].wal.clone();
        self.ev(K::WalLoad { some: r.is_some(), ok: true });
        self.die_after(g, Op::WalLoad).await;
        Ok(r)
    }
}

pub struct Cr {
    pub w: W,
    pub slot: usize,
    pub inc: u32,
    pub addr: Bytes,
}

impl Crypto for Cr {
    fn hash(&self, msg: Bytes) -> Hash {
        let h = hash_msg(&msg);
        let mut g = self.w.lock();
        g.preimages.entry(h.clone()).or_insert_with(|| decode_pre(&msg));
        h
    }
    fn sign(&self, hash: Hash) -> Result<Signature, BErr> {
        let t = self.w.now();
        let mut g = self.w.lock();
        let alive = g.slots[self.slot].alive && g.slots[self.slot].inc == self.inc;
        if !alive {
            return err("dead");
        }
        let pre = g.preimages.get(&hash).cloned().unwrap_or(Pre::Other);
        let mut fail = false;
        for f in &self.w.cfg.faults {
            if f.slot == self.slot && f.op == Op::Sign && f.from <= t && t < f.to && g.rng.pm(f.permille) {
                fail = true;
            }
        }
        g.push(Ev { t, slot: self.slot, inc: self.inc, k: K::Sign { pre, ok: !fail } });
        if fail {
            return err("sign");
        }
        Ok(sig_of(&self.addr, &hash))
    }
    fn aggregate_signatures(&self, sigs: Vec<Signature>, voters: Vec<Address>) -> Result<Signature, BErr> {
        if sigs.len() != voters.len() {
            return err("length mismatch");
        }
        Ok(agg_of(&sigs))
    }
    fn verify_signature(&self, sig: Signature, hash: Hash, voter: Address) -> Result<(), BErr> {
        if sig == sig_of(&voter, &hash) {
            Ok(())
        } else {
            err("bad signature")
        }
    }
    fn verify_aggregated_signature(&self, agg: Signature, hash: Hash, voters: Vec<Address>) -> Result<(), BErr> {
        let ok = agg == agg_expected(&hash, &voters);
        self.w.log(self.slot, self.inc, K::VerifyAgg { voters, ok });
        if ok {
            Ok(())
        } else {
            err("bad aggregated signature")
        }
    }
}

// ------------------------------------------------------------------ network

fn observe(g: &mut Inner, m: &Msg) {
    match m {
        OverlordMsg::SignedProposal(p) => g.wire.props.push(p.clone()),
        OverlordMsg::SignedVote(v) => {
            g.wire
                .votes
                .entry((v.vote.height, v.vote.round, vt(&v.vote.vote_type), v.vote.block_hash.clone()))
                .or_default()
                .insert(v.voter.clone(), v.signature.clone());
        }
        OverlordMsg::AggregatedVote(q) => g.wire.qcs.push(q.clone()),
        OverlordMsg::SignedChoke(c) => {
            g.wire
                .chokes
                .entry((c.choke.height, c.choke.round))
                .or_default()
                .insert(c.address.clone(), c.signature.clone());
            if let UpdateFrom::ChokeQC(q) = &c.choke.from {
                g.wire.agg_chokes.push(q.clone());
            }
        }
        _ => {}
    }
    let (h, r, _) = msg_pos(m);
    if (h, r) > g.wire.max && r < 1000 {
        g.wire.max = (h, r);
    }
}

/// Sends from a slot to destinations with the network policy applied.
pub fn send_many(w: &W, src: usize, dsts: &[usize], m: Arc<Msg>) {
    let now = w.now();
    let honest = matches!(w.cfg.roles[src], Role::Honest | Role::Twin(_));
    let m = if honest {
        match wire_trip(&m) {
            Ok(x) => Arc::new(x),
            Err(e) => {
                w.log(src, 0, K::Codec { what: e });
                return;
            }
        }
    } else {
        m
    };
    {
        let mut g = w.lock();
        if honest {
            observe(&mut g, &m);
        }
    }
    let (h, r, kind) = msg_pos(&m);
    for &d in dsts {
        let mut delays: Vec<u64> = vec![];
        {
            let mut g = w.lock();
            let net = &w.cfg.net;
            if now >= net.gst {
                delays.push(net.post.draw(&mut g.rng));
                if net.dup_after && g.rng.pm(net.dup) {
                    let x = net.post.draw(&mut g.rng);
                    delays.push(x);
                }
            } else {
                let cut = net
                    .parts
                    .iter()
                    .any(|p| p.from <= now && now < p.to && p.group[src] != p.group[d]);
                let mut fate = 0; // 0 deliver 1 drop 2 hold
                if cut {
                    fate = 1;
                }
                if let Some(a) = &net.adv {
                    if h <= a.upto_height && kind < 6 {
                        let c = mix_all(&[a.seed, h, r, kind as u64]);
                        if c % 1000 < a.p[kind] as u64 {
                            let x = mix_all(&[a.seed, h, r, kind as u64, d as u64, 7]);
                            if x % 1000 >= a.deliver as u64 {
                                fate = if mix_all(&[x, 3]) % 1000 < a.hold as u64 { 2 } else { 1 };
                            }
                        }
                    }
                }
                if fate == 0 && g.rng.pm(net.drop) {
                    fate = 1;
                }
                match fate {
                    0 => {
                        let x = net.pre.draw(&mut g.rng);
                        delays.push(x);
                        if g.rng.pm(net.slow) {
                            let x = g.rng.below(net.slow_ms + 1);
                            delays[0] += x;
                        }
                        if g.rng.pm(net.dup) {
                            let x = net.pre.draw(&mut g.rng) + g.rng.below(net.slow_ms + 1);
                            delays.push(x);
                        }
                    }
                    2 => {
                        let a = net.adv.as_ref().unwrap();
                        let x = g.rng.below(a.hold_ms + 1);
                        delays.push(x);
                    }
                    _ => {}
                }
            }
        }
        for ms in delays {
            post(w, src, d, m.clone(), ms);
        }
    }
    if honest {
        if let Some(b) = &w.cfg.byz {
            if now < b.until {
                crate::byz::react(w, src, &m);
            }
        }
    }
}

/// Delivers after `ms`, bypassing the network policy.
pub fn post(w: &W, src: usize, dst: usize, m: Arc<Msg>, ms: u64) {
    let w = w.clone();
    tokio::spawn(async move {
        if ms > 0 {
            sleep(Duration::from_millis(ms)).await;
        }
        deliver(&w, src, dst, m);
    });
}

pub fn deliver(w: &W, src: usize, dst: usize, m: Arc<Msg>) {
    let t = w.now();
    let h = {
        let mut g = w.lock();
        if g.done {
            return;
        }
        let s = &g.slots[dst];
        if !s.alive || s.ended {
            return;
        }
        let inc = s.inc;
        let h = s.handler.clone();
        if h.is_some() {
            g.delivered += 1;
            g.push(Ev { t, slot: dst, inc, k: K::Recv { msg: m.clone(), from: src } });
        }
        h
    };
    if let Some(h) = h {
        let _ = h.send_msg(Context::new(), (*m).clone());
    }
}

// ------------------------------------------------------------------ life cycle

pub fn crash(w: &W, slot: usize, down: Option<u64>, why: &str) {
    let task = {
        let t = w.now();
        let mut g = w.lock();
        let s = &mut g.slots[slot];
        if !s.alive {
            return;
        }
        s.alive = false;
        s.gave_up = None;
        s.handler = None;
        let inc = s.inc;
        let task = s.task.take();
        g.push(Ev { t, slot, inc, k: K::Crash { why: why.to_string() } });
        if down.is_some() {
            g.restarts_pending += 1;
        }
        task
    };
    if let Some(t) = task {
        t.abort();
    }
    if let Some(ms) = down {
        let w = w.clone();
        tokio::spawn(async move {
            sleep(Duration::from_millis(ms.max(1))).await;
            w.lock().restarts_pending -= 1;
            start_node(&w, slot);
        });
    }
}

pub fn start_node(w: &W, slot: usize) {
    let (inc, addr, latest, wal) = {
        let mut g = w.lock();
        if g.done {
            return;
        }
        let s = &mut g.slots[slot];
        if s.alive {
            return;
        }
        s.inc += 1;
        s.alive = true;
        s.ended = false;
        (s.inc, s.addr.clone(), s.latest, s.wal.is_some())
    };
    let ad = Arc::new(Ad { w: w.clone(), slot, inc });
    let wal_ad = Arc::new(Ad { w: w.clone(), slot, inc });
    let cr = Arc::new(Cr { w: w.clone(), slot, inc, addr: addr.clone() });
    let ov = Arc::new(Overlord::new(addr, ad, cr, wal_ad));
    let handler = ov.get_handler();
    let style_b = {
        let mut g = w.lock();
        let p = w.cfg.style_b;
        g.rng.pm(p)
    };
    let init = if style_b { latest + 1 } else { latest };
    w.log(slot, inc, K::Start { init, wal });
    let st = w.status(latest + 1, true);
    let e = w.cfg.epoch(latest + 1).clone();
    let list = st.authority_list.clone();
    {
        let mut g = w.lock();
        g.slots[slot].handler = Some(handler.clone());
    }
    let w2 = w.clone();
    let cfgd = e.ratios.map(|r| DurationConfig::new(r[0], r[1], r[2], r[3]));
    let interval = e.interval;
    let jh = tokio::spawn(async move {
        let r = ov.run(init, interval, list, cfgd).await;
        w2.log(slot, inc, K::RunEnd { err: r.is_err() });
        let again = {
            let mut g = w2.lock();
            let mine = g.slots[slot].inc == inc;
            if mine {
                g.slots[slot].ended = true;
            }
            mine && r.is_err() && !g.done
        };
        // its operator tries again
        if again {
            crash(&w2, slot, Some(100), "run failed");
        }
    });
    w.lock().slots[slot].task = Some(jh.abort_handle());
    if !style_b && !w.cfg.no_status {
        send_status(w, slot, latest + 1, false);
    }
}

pub fn send_status(w: &W, slot: usize, h: u64, sync: bool) {
    let st = w.status(h, true);
    let (handler, inc) = {
        let mut g = w.lock();
        let s = &mut g.slots[slot];
        if !s.alive || s.ended {
            return;
        }
        s.last_status = s.last_status.max(h);
        (s.handler.clone(), s.inc)
    };
    if let Some(hd) = handler {
        w.log(slot, inc, K::Status { st: Arc::new(st.clone()), sync });
        let _ = hd.send_msg(Context::new(), OverlordMsg::RichStatus(st));
    }
}

/// Fetches the blocks a node misses and hands it the status, as an application would.
pub fn sync_node(w: &W, slot: usize) -> bool {
    let h = {
        let mut g = w.lock();
        let mut all: BTreeMap<u64, Commit<Blk>> = BTreeMap::new();
        for (i, s) in g.slots.iter().enumerate() {
            if w.cfg.roles[i] == Role::Honest {
                for (h, c) in &s.store {
                    all.entry(*h).or_insert_with(|| c.clone());
                }
            }
        }
        let max = all.keys().next_back().cloned().unwrap_or(0);
        let s = &mut g.slots[slot];
        if !s.alive || s.ended || s.latest >= max {
            return false;
        }
        for (h, c) in all {
            s.store.entry(h).or_insert(c);
        }
        s.latest = max;
        max + 1
    };
    send_status(w, slot, h, true);
    true
}

fn sync_service(w: &W) {
    let w = w.clone();
    tokio::spawn(async move {
        loop {
            sleep(Duration::from_millis(w.cfg.sync.every)).await;
            let t = w.now();
            if t < w.cfg.sync.from {
                continue;
            }
            let todo: Vec<usize> = {
                let mut g = w.lock();
                if g.done {
                    return;
                }
                let max = (0..g.slots.len())
                    .filter(|i| w.cfg.roles[*i] == Role::Honest)
                    .filter_map(|i| g.slots[i].store.keys().next_back().cloned())
                    .max()
                    .unwrap_or(0);
                let mut v = vec![];
                for i in 0..g.slots.len() {
                    if matches!(w.cfg.roles[i], Role::Byz | Role::Puppet) {
                        continue;
                    }
                    let s = &mut g.slots[i];
                    if s.alive && !s.ended && s.latest < max {
                        let since = *s.behind_since.get_or_insert(t);
                        if t - since >= w.cfg.sync.lag {
                            s.behind_since = None;
                            v.push(i);
                        }
                    } else {
                        s.behind_since = None;
                    }
                }
                v
            };
            for i in todo {
                sync_node(&w, i);
            }
            // Nobody has the block a node failed to record: its operator restarts it.
            if t >= w.cfg.net.gst {
                let stuck: Vec<usize> = {
                    let g = w.lock();
                    let max = (0..g.slots.len())
                        .filter(|i| w.cfg.roles[*i] == Role::Honest)
                        .filter_map(|i| g.slots[i].store.keys().next_back().cloned())
                        .max()
                        .unwrap_or(0);
                    (0..g.slots.len())
                        .filter(|i| {
                            let s = &g.slots[*i];
                            w.cfg.roles[*i] == Role::Honest && s.alive && !s.ended && s.gave_up.is_some_and(|h| h > max)
                        })
                        .collect()
                };
                for i in stuck {
                    crash(&w, i, Some(100), "operator restart");
                }
            }
        }
    });
}

// ------------------------------------------------------------------ running a case

pub struct Outcome {
    pub trace: Vec<Ev>,
    pub cfg: Cfg,
    pub addrs: Vec<Bytes>,
    pub auths: BTreeMap<u64, Vec<Node>>,
    pub reached: bool,
    pub end: u64,
    pub latest: Vec<u64>,
    pub ops: Vec<u64>,
    pub op_logs: Vec<Vec<Op>>,
    pub panics: Vec<String>,
    pub capped: bool,
    pub delivered: u64,
    pub heal: u64,
}

pub fn honest(cfg: &Cfg) -> Vec<usize> {
    (0..cfg.roles.len()).filter(|i| cfg.roles[*i] == Role::Honest).collect()
}

pub fn start_all(w: &W) {
    for i in 0..w.cfg.roles.len() {
        if matches!(w.cfg.roles[i], Role::Honest | Role::Twin(_)) {
            start_node(w, i);
        }
    }
}

pub async fn drive(w: &W) -> bool {
    start_all(w);
    if w.cfg.sync.every > 0 {
        sync_service(w);
    }
    for c in w.cfg.crashes.clone() {
        if let CrashWhen::At(t) = c.when {
            let w = w.clone();
            tokio::spawn(async move {
                sleep(Duration::from_millis(t)).await;
                crash(&w, c.slot, c.down, &format!("at {}", t));
            });
        }
    }
    for (t, s) in w.cfg.stops.clone() {
        let w = w.clone();
        tokio::spawn(async move {
            sleep(Duration::from_millis(t)).await;
            stop_node(&w, s);
        });
    }
    if w.cfg.byz.is_some() {
        crate::byz::start(w);
    }
    // Goal: every honest node that is a validator at the end has the target height.
    let step = (w.cfg.epochs[0].interval / 4).max(1);
    let mut goal = w.cfg.target;
    let mut set = w.cfg.after == 0;
    loop {
        sleep(Duration::from_millis(step)).await;
        let t = w.now();
        if !set && t >= w.cfg.net.gst {
            set = true;
            let g = w.lock();
            let top = honest(&w.cfg).iter().map(|i| g.slots[*i].latest).max().unwrap_or(0);
            goal = goal.max(top + w.cfg.after);
        }
        let (ok, capped) = {
            let g = w.lock();
            let ok = honest(&w.cfg).iter().all(|i| {
                let s = &g.slots[*i];
                s.ended || (!s.alive && g.restarts_pending == 0) || s.latest >= goal
            });
            (ok && t >= w.cfg.net.gst.min(w.cfg.deadline) && g.restarts_pending == 0, g.events_cap)
        };
        if ok {
            return true;
        }
        if t > w.cfg.deadline || capped {
            return false;
        }
    }
}

pub fn stop_node(w: &W, slot: usize) {
    let (h, inc) = {
        let g = w.lock();
        let s = &g.slots[slot];
        if !s.alive || s.ended {
            return;
        }
        (s.handler.clone(), s.inc)
    };
    if let Some(h) = h {
        w.log(slot, inc, K::Stop);
        let _ = h.send_msg(Context::new(), OverlordMsg::Stop);
    }
}

pub fn finish(w: &W, reached: bool, heal: u64) -> Outcome {
    let mut g = w.lock();
    g.done = true;
    let maxh = g
        .trace
        .iter()
        .map(|e| match &e.k {
            K::Send { msg, .. } => msg_pos(msg).0,
            K::Status { st, .. } => st.height,
            K::WalSave { info: Some(x), .. } => x.height,
            K::Start { init, .. } => *init,
            _ => 0,
        })
        .filter(|h| *h < 1_000_000)
        .max()
        .unwrap_or(0);
    let mut auths = BTreeMap::new();
    for h in 0..=maxh + 2 {
        auths.insert(h, auth_of(&w.cfg, &g.slots, h));
    }
    Outcome {
        trace: std::mem::take(&mut g.trace),
        cfg: w.cfg.clone(),
        addrs: g.slots.iter().map(|s| s.addr.clone()).collect(),
        auths,
        reached,
        end: w.now(),
        latest: g.slots.iter().map(|s| s.latest).collect(),
        ops: g.slots.iter().map(|s| s.ops).collect(),
        op_logs: g.slots.iter().map(|s| s.op_log.clone()).collect(),
        panics: vec![],
        capped: g.events_cap,
        delivered: g.delivered,
        heal,
    }
}

/// Runs a case on the current (fresh) thread.
pub fn run_case(cfg: Cfg) -> Outcome {
    run_with(cfg, |w| Box::pin(async move { drive(&w).await }))
}

pub type Script = dyn FnOnce(W) -> std::pin::Pin<Box<dyn std::future::Future<Output = bool>>>;

pub fn run_with<F>(cfg: Cfg, f: F) -> Outcome
where
    F: FnOnce(W) -> std::pin::Pin<Box<dyn std::future::Future<Output = bool>>>,
{
    crate::virt::set_hash_seed(crate::prng::mix(cfg.seed) | 1);
    crate::panics::take();
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
    let mut out = rt.block_on(async move {
        if cfg!(feature = "virt") {
            crate::virt::set_virtual_clock(true);
        }
        let linger = cfg.linger;
        let w = World::new(cfg);
        let ok = f(w.clone()).await;
        let heal = w.now();
        if linger > 0 {
            sleep(Duration::from_millis(linger)).await;
        }
        finish(&w, ok, heal)
    });
    crate::virt::set_virtual_clock(false);
    drop(rt);
    out.panics = crate::panics::take();
    out
}
