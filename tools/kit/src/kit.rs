//! One real node, everything around it scripted, virtual time.
#![allow(dead_code)]
use async_trait::async_trait;
use bytes::Bytes;
use overlord::error::ConsensusError;
use overlord::types::*;
use overlord::{Codec, Consensus, Context, Crypto, DurationConfig, Overlord, OverlordHandler, Wal, WalInfo};
use std::collections::hash_map::DefaultHasher;
use std::error::Error;
use std::hash::Hasher;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::time::{sleep, Instant};

pub type Msg = OverlordMsg<B>;
pub type BErr = Box<dyn Error + Send>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct B {
    pub h: u64,
    pub n: u64,
    /// not covered by the hash
    pub alt: u8,
}
#[derive(Debug)]
struct E(String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Error for E {}
fn err<T>(s: &str) -> Result<T, BErr> {
    Err(Box::new(E(s.into())))
}
impl Codec for B {
    fn encode(&self) -> Result<Bytes, BErr> {
        let mut v = self.h.to_le_bytes().to_vec();
        v.extend_from_slice(&self.n.to_le_bytes());
        v.push(self.alt);
        Ok(Bytes::from(v))
    }
    fn decode(d: Bytes) -> Result<Self, BErr> {
        if d.len() != 17 {
            return err("block");
        }
        Ok(B { h: u64::from_le_bytes(d[0..8].try_into().unwrap()), n: u64::from_le_bytes(d[8..16].try_into().unwrap()), alt: d[16] })
    }
}
pub fn h32(data: &[u8]) -> Bytes {
    let mut v = vec![];
    for i in 0..4u64 {
        let mut h = DefaultHasher::new();
        h.write_u64(i);
        h.write(data);
        v.extend_from_slice(&h.finish().to_le_bytes());
    }
    Bytes::from(v)
}
impl B {
    pub fn new(h: u64, n: u64) -> B {
        B { h, n, alt: 0 }
    }
    pub fn hash(&self) -> Bytes {
        let mut v = b"block".to_vec();
        v.extend_from_slice(&self.h.to_le_bytes());
        v.extend_from_slice(&self.n.to_le_bytes());
        h32(&v)
    }
}
pub fn sig(addr: &[u8], hash: &[u8]) -> Bytes {
    let mut v = addr.to_vec();
    v.extend_from_slice(hash);
    h32(&v)
}
pub fn agg(mut s: Vec<Bytes>) -> Bytes {
    s.sort();
    h32(&s.concat())
}
pub fn addr(i: usize) -> Bytes {
    Bytes::from(vec![i as u8 + 1; 20])
}

#[derive(Clone, Debug)]
pub enum Out {
    Send(Option<Bytes>, Msg),
    Commit(u64, Commit<B>),
    View(u64, u64, String),
    Get(u64),
    Check(u64, Bytes, B),
    Save(Box<WalInfo<B>>, bool),
    End(bool),
}

#[derive(Default)]
pub struct St {
    pub outs: Vec<(u64, Out)>,
    pub wal: Option<Bytes>,
    pub inc: u32,
    /// failing log writes left
    pub fail_save: u32,
    pub fail_commit: u32,
    pub check_ms: u64,
    pub send_ms: u64,
    pub commit_ms: u64,
    pub save_ms: u64,
    /// answer of the block check by block number
    pub reject: Vec<u64>,
    pub next_block: u64,
}

pub struct Net {
    pub me: usize,
    pub st: Mutex<St>,
    pub t0: Instant,
    /// (propose weight, vote weight) by height; empty = not a validator
    pub vals: Box<dyn Fn(u64) -> Vec<(usize, u32, u32)> + Send + Sync>,
    pub interval: u64,
    pub ratios: Option<DurationConfig>,
}
impl Net {
    pub fn auth(&self, h: u64) -> Vec<Node> {
        (self.vals)(h)
            .into_iter()
            .map(|(i, p, w)| {
                let mut n = Node::new(addr(i));
                n.set_propose_weight(p);
                n.set_vote_weight(w);
                n
            })
            .collect()
    }
    pub fn status(&self, h: u64) -> Status {
        Status { height: h, interval: Some(self.interval), timer_config: self.ratios.clone(), authority_list: self.auth(h) }
    }
    fn put(&self, inc: u32, o: Out) {
        let t = (Instant::now() - self.t0).as_millis() as u64;
        let mut g = self.st.lock().unwrap();
        if g.inc == inc {
            g.outs.push((t, o));
        }
    }
}
struct Ad(Arc<Net>, u32);
impl Ad {
    async fn live(&self, ms: u64) {
        if ms > 0 {
            sleep(Duration::from_millis(ms)).await;
        }
        if self.0.st.lock().unwrap().inc != self.1 {
            std::future::pending::<()>().await;
        }
    }
}
#[async_trait]
impl Consensus<B> for Ad {
    async fn get_block(&self, _: Context, h: u64) -> Result<(B, Hash), BErr> {
        self.live(0).await;
        let n = {
            let mut g = self.0.st.lock().unwrap();
            g.next_block += 1;
            1000 + g.next_block
        };
        self.0.put(self.1, Out::Get(h));
        let b = B::new(h, n);
        let x = b.hash();
        Ok((b, x))
    }
    async fn check_block(&self, _: Context, h: u64, hash: Hash, b: B) -> Result<(), BErr> {
        self.0.put(self.1, Out::Check(h, hash.clone(), b.clone()));
        let ms = self.0.st.lock().unwrap().check_ms;
        self.live(ms).await;
        let bad = self.0.st.lock().unwrap().reject.contains(&b.n);
        if bad || b.hash() != hash || b.alt != 0 || b.h != h {
            return err("check");
        }
        Ok(())
    }
    async fn commit(&self, _: Context, h: u64, c: Commit<B>) -> Result<Status, BErr> {
        self.live(0).await;
        self.0.put(self.1, Out::Commit(h, c));
        let ms = self.0.st.lock().unwrap().commit_ms;
        self.live(ms).await;
        {
            let mut g = self.0.st.lock().unwrap();
            if g.fail_commit > 0 {
                g.fail_commit -= 1;
                return err("commit");
            }
        }
        Ok(self.0.status(h + 1))
    }
    async fn get_authority_list(&self, _: Context, h: u64) -> Result<Vec<Node>, BErr> {
        Ok(self.0.auth(h))
    }
    async fn broadcast_to_other(&self, _: Context, m: Msg) -> Result<(), BErr> {
        let ms = self.0.st.lock().unwrap().send_ms;
        self.live(ms).await;
        self.0.put(self.1, Out::Send(None, m));
        Ok(())
    }
    async fn transmit_to_relayer(&self, _: Context, a: Address, m: Msg) -> Result<(), BErr> {
        let ms = self.0.st.lock().unwrap().send_ms;
        self.live(ms).await;
        self.0.put(self.1, Out::Send(Some(a), m));
        Ok(())
    }
    fn report_error(&self, _: Context, _: ConsensusError) {}
    fn report_view_change(&self, _: Context, h: u64, r: u64, reason: ViewChangeReason) {
        self.0.put(self.1, Out::View(h, r, format!("{:?}", reason)));
    }
}
#[async_trait]
impl Wal for Ad {
    async fn save(&self, b: Bytes) -> Result<(), BErr> {
        let ms = self.0.st.lock().unwrap().save_ms;
        self.live(ms).await;
        let info = rlp::decode::<WalInfo<B>>(&b).expect("own log record");
        let ok = {
            let mut g = self.0.st.lock().unwrap();
            if g.fail_save > 0 {
                g.fail_save -= 1;
                false
            } else {
                g.wal = Some(b);
                true
            }
        };
        self.0.put(self.1, Out::Save(Box::new(info), ok));
        if ok {
            Ok(())
        } else {
            err("save")
        }
    }
    async fn load(&self) -> Result<Option<Bytes>, BErr> {
        self.live(0).await;
        Ok(self.0.st.lock().unwrap().wal.clone())
    }
}
struct Cr(Bytes);
impl Crypto for Cr {
    fn hash(&self, m: Bytes) -> Hash {
        h32(&m)
    }
    fn sign(&self, h: Hash) -> Result<Signature, BErr> {
        Ok(sig(&self.0, &h))
    }
    fn aggregate_signatures(&self, s: Vec<Signature>, v: Vec<Address>) -> Result<Signature, BErr> {
        if s.len() != v.len() {
            return err("len");
        }
        Ok(agg(s))
    }
    fn verify_signature(&self, s: Signature, h: Hash, v: Address) -> Result<(), BErr> {
        if s == sig(&v, &h) {
            Ok(())
        } else {
            err("sig")
        }
    }
    fn verify_aggregated_signature(&self, s: Signature, h: Hash, v: Vec<Address>) -> Result<(), BErr> {
        if s == agg(v.iter().map(|a| sig(a, &h)).collect()) {
            Ok(())
        } else {
            err("agg")
        }
    }
}

pub struct Kit {
    pub net: Arc<Net>,
    pub handler: Option<OverlordHandler<B>>,
    pub task: Option<tokio::task::JoinHandle<()>>,
}

impl Kit {
    pub fn new(me: usize, interval: u64, vals: impl Fn(u64) -> Vec<(usize, u32, u32)> + Send + Sync + 'static) -> Kit {
        Kit {
            net: Arc::new(Net { me, st: Mutex::new(St::default()), t0: Instant::now(), vals: Box::new(vals), interval, ratios: None }),
            handler: None,
            task: None,
        }
    }
    /// Equal weights, interval 1000 ms.
    pub fn equal(n: usize, me: usize) -> Kit {
        Kit::new(me, 1000, move |_| (0..n).map(|i| (i, 1, 1)).collect())
    }
    pub fn st<R>(&self, f: impl FnOnce(&mut St) -> R) -> R {
        f(&mut self.net.st.lock().unwrap())
    }
    /// run(init) without a status
    pub async fn start(&mut self, init: u64) {
        let inc = self.st(|s| {
            s.inc += 1;
            s.inc
        });
        let ad = Arc::new(Ad(self.net.clone(), inc));
        let a = addr(self.net.me);
        let ov = Arc::new(Overlord::new(a.clone(), ad.clone(), Arc::new(Cr(a)), ad));
        self.handler = Some(ov.get_handler());
        let (list, iv, net) = (self.net.auth(init.max(1)), self.net.interval, self.net.clone());
        let ratios = self.net.ratios.clone();
        self.task = Some(tokio::spawn(async move {
            let r = ov.run(init, iv, list, ratios).await;
            net.put(inc, Out::End(r.is_ok()));
        }));
        self.sleep(1).await;
    }
    /// run(h - 1), then the status of height h
    pub async fn start_at(&mut self, h: u64) {
        self.start(h - 1).await;
        self.status(h).await;
    }
    pub async fn crash(&mut self) {
        self.st(|s| s.inc += 1);
        if let Some(t) = self.task.take() {
            t.abort();
        }
        self.handler = None;
        self.sleep(1).await;
    }
    pub async fn status(&self, h: u64) {
        self.send(OverlordMsg::RichStatus(self.net.status(h))).await;
    }
    pub async fn send(&self, m: Msg) {
        self.push(m);
        self.sleep(2).await;
    }
    pub fn push(&self, m: Msg) {
        let _ = self.handler.as_ref().unwrap().send_msg(Context::new(), m);
    }
    pub async fn sleep(&self, ms: u64) {
        sleep(Duration::from_millis(ms)).await;
    }
    pub fn now(&self) -> u64 {
        (Instant::now() - self.net.t0).as_millis() as u64
    }
    pub fn outs(&self) -> Vec<(u64, Out)> {
        self.st(|s| s.outs.clone())
    }
    pub fn leader(&self, h: u64, r: u64) -> usize {
        let a = overlord::get_leader(h, r, self.net.auth(h));
        (0..64).find(|i| addr(*i) == a).unwrap()
    }
    pub fn vote(&self, i: usize, h: u64, r: u64, t: VoteType, bh: &Bytes) -> SignedVote {
        let vote = Vote { height: h, round: r, vote_type: t, block_hash: bh.clone() };
        let hash = h32(&rlp::encode(&vote));
        SignedVote { signature: sig(&addr(i), &hash), vote, voter: addr(i) }
    }
    pub fn qc(&self, h: u64, r: u64, t: VoteType, bh: &Bytes, who: &[usize]) -> AggregatedVote {
        let auth = self.net.auth(h);
        let mut a: Vec<Bytes> = auth.iter().map(|n| n.address.clone()).collect();
        a.sort();
        let mut bm = vec![0u8; a.len().div_ceil(8)];
        let mut sigs = vec![];
        for (k, x) in a.iter().enumerate() {
            if let Some(i) = who.iter().find(|i| addr(**i) == *x) {
                bm[k / 8] |= 0x80 >> (k % 8);
                sigs.push(self.vote(*i, h, r, t.clone(), bh).signature);
            }
        }
        AggregatedVote {
            signature: AggregatedSignature { signature: agg(sigs), address_bitmap: Bytes::from(bm) },
            vote_type: t,
            height: h,
            round: r,
            block_hash: bh.clone(),
            leader: addr(self.leader(h, r)),
        }
    }
    pub fn choke(&self, i: usize, h: u64, r: u64, from: UpdateFrom) -> SignedChoke {
        // what is signed is (height, round)
        let mut s = rlp::RlpStream::new_list(2);
        s.append(&h).append(&r);
        SignedChoke { signature: sig(&addr(i), &h32(&s.out())), choke: Choke { height: h, round: r, from }, address: addr(i) }
    }
    pub fn choke_qc(&self, h: u64, r: u64, who: &[usize]) -> AggregatedChoke {
        let sigs = who.iter().map(|i| self.choke(*i, h, r, UpdateFrom::PrecommitQC(mock_qc())).signature).collect();
        AggregatedChoke { height: h, round: r, signature: agg(sigs), voters: who.iter().map(|i| addr(*i)).collect() }
    }
    pub fn proposal(&self, i: usize, h: u64, r: u64, b: &B, lock: Option<AggregatedVote>) -> SignedProposal<B> {
        let proposal = Proposal {
            height: h,
            round: r,
            content: b.clone(),
            block_hash: b.hash(),
            lock: lock.map(|q| PoLC { lock_round: q.round, lock_votes: q }),
            proposer: addr(i),
        };
        let hash = h32(&rlp::encode(&proposal));
        SignedProposal { signature: sig(&addr(i), &hash), proposal }
    }
    /// (time, recipient, vote) of all votes sent so far
    pub fn votes(&self) -> Vec<(u64, Bytes, SignedVote)> {
        self.outs()
            .into_iter()
            .filter_map(|(t, o)| match o {
                Out::Send(Some(a), OverlordMsg::SignedVote(v)) => Some((t, a, v)),
                _ => None,
            })
            .collect()
    }
    pub fn proposals(&self) -> Vec<(u64, SignedProposal<B>)> {
        self.outs()
            .into_iter()
            .filter_map(|(t, o)| match o {
                Out::Send(_, OverlordMsg::SignedProposal(p)) => Some((t, p)),
                _ => None,
            })
            .collect()
    }
    pub fn qcs(&self) -> Vec<(u64, AggregatedVote)> {
        self.outs()
            .into_iter()
            .filter_map(|(t, o)| match o {
                Out::Send(_, OverlordMsg::AggregatedVote(q)) => Some((t, q)),
                _ => None,
            })
            .collect()
    }
    pub fn chokes(&self) -> Vec<(u64, SignedChoke)> {
        self.outs()
            .into_iter()
            .filter_map(|(t, o)| match o {
                Out::Send(_, OverlordMsg::SignedChoke(c)) => Some((t, c)),
                _ => None,
            })
            .collect()
    }
    pub fn commits(&self) -> Vec<(u64, Commit<B>)> {
        self.outs()
            .into_iter()
            .filter_map(|(t, o)| match o {
                Out::Commit(_, c) => Some((t, c)),
                _ => None,
            })
            .collect()
    }
    pub fn views(&self) -> Vec<(u64, u64, u64, String)> {
        self.outs()
            .into_iter()
            .filter_map(|(t, o)| match o {
                Out::View(h, r, s) => Some((t, h, r, s)),
                _ => None,
            })
            .collect()
    }
    pub fn saves(&self) -> Vec<(u64, WalInfo<B>, bool)> {
        self.outs()
            .into_iter()
            .filter_map(|(t, o)| match o {
                Out::Save(i, ok) => Some((t, *i, ok)),
                _ => None,
            })
            .collect()
    }
    pub fn dump(&self) {
        for (t, o) in self.outs() {
            match o {
                Out::Send(to, OverlordMsg::SignedVote(v)) => {
                    println!("{:>6} vote to {:?}: {:?} h{} r{} {:?}", t, to.map(|b| b[0]), v.vote.vote_type, v.vote.height, v.vote.round, v.vote.block_hash.first())
                }
                Out::Send(_, OverlordMsg::SignedProposal(p)) => {
                    println!("{:>6} proposal h{} r{} {:?} lock {}", t, p.proposal.height, p.proposal.round, p.proposal.block_hash.first(), p.proposal.lock.is_some())
                }
                Out::Send(_, OverlordMsg::AggregatedVote(q)) => println!("{:>6} qc {:?} h{} r{} {:?}", t, q.vote_type, q.height, q.round, q.block_hash.first()),
                Out::Send(_, OverlordMsg::SignedChoke(c)) => println!("{:>6} choke h{} r{}", t, c.choke.height, c.choke.round),
                Out::Save(i, ok) => println!("{:>6} save h{} r{} step {} ok {}", t, i.height, i.round, u8::from(i.step.clone()), ok),
                Out::Commit(h, c) => println!("{:>6} commit h{} proof r{}", t, h, c.proof.round),
                o => println!("{:>6} {:?}", t, o),
            }
        }
    }
}

pub fn mock_qc() -> AggregatedVote {
    AggregatedVote {
        signature: AggregatedSignature { signature: Bytes::new(), address_bitmap: Bytes::new() },
        vote_type: VoteType::Precommit,
        height: 0,
        round: 0,
        block_hash: Bytes::new(),
        leader: Bytes::new(),
    }
}

pub fn go<F: std::future::Future<Output = Result<(), String>>>(f: F) -> ! {
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
    match rt.block_on(f) {
        Ok(()) => {
            println!("ok");
            std::process::exit(0)
        }
        Err(e) => {
            println!("BROKEN: {}", e);
            std::process::exit(1)
        }
    }
}
pub fn want(c: bool, s: &str) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(s.to_string())
    }
}
pub use VoteType::{Precommit as PC, Prevote as PV};
