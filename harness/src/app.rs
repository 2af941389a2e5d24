//! The application block, hashing, addresses, and the mock signature scheme.
use bytes::Bytes;
use overlord::types::*;
use overlord::Codec;
use serde::{Deserialize, Serialize};
use std::error::Error;
use std::hash::Hasher;

#[allow(deprecated)]
fn sip(k0: u64, k1: u64, data: &[u8]) -> u64 {
    let mut h = std::hash::SipHasher::new_with_keys(k0, k1);
    h.write(data);
    h.finish()
}

/// 32-byte hash (collision-free for all practical purposes; unforgeable because nobody in the
/// harness tries to forge it).
pub fn h32(tag: &str, parts: &[&[u8]]) -> Bytes {
    let mut buf = Vec::with_capacity(64);
    buf.extend_from_slice(tag.as_bytes());
    for p in parts {
        buf.extend_from_slice(&(p.len() as u32).to_le_bytes());
        buf.extend_from_slice(p);
    }
    let mut out = Vec::with_capacity(32);
    for i in 0..4u64 {
        out.extend_from_slice(&sip(0x0123 + i, 0x4567 * (i + 1), &buf).to_le_bytes());
    }
    Bytes::from(out)
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Blk {
    pub height: u64,
    pub proposer: u32,
    pub nonce: u64,
    pub body: Vec<u8>,
    /// Not covered by the hash: stands for content that does not match its header.
    pub alt: u8,
}

#[derive(Debug)]
pub struct E(pub String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Error for E {}
pub fn err<T>(s: &str) -> Result<T, Box<dyn Error + Send>> {
    Err(Box::new(E(s.to_string())))
}

impl Codec for Blk {
    fn encode(&self) -> Result<Bytes, Box<dyn Error + Send>> {
        let mut v = Vec::new();
        v.extend_from_slice(&self.height.to_le_bytes());
        v.extend_from_slice(&self.proposer.to_le_bytes());
        v.extend_from_slice(&self.nonce.to_le_bytes());
        v.push(self.alt);
        v.extend_from_slice(&self.body);
        Ok(Bytes::from(v))
    }
    fn decode(data: Bytes) -> Result<Self, Box<dyn Error + Send>> {
        if data.len() < 21 {
            return err("short block");
        }
        let u = |i: usize| u64::from_le_bytes(data[i..i + 8].try_into().unwrap());
        Ok(Blk {
            height: u(0),
            proposer: u32::from_le_bytes(data[8..12].try_into().unwrap()),
            nonce: u(12),
            alt: data[20],
            body: data[21..].to_vec(),
        })
    }
}

impl Blk {
    pub fn hash(&self) -> Bytes {
        h32(
            "blk",
            &[
                &self.height.to_le_bytes(),
                &self.proposer.to_le_bytes(),
                &self.nonce.to_le_bytes(),
                &self.body,
            ],
        )
    }
}

/// What is behind a hash that was signed.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Pre {
    /// height, round, type (1 prevote, 2 precommit), block hash
    Vote(u64, u64, u8, Bytes),
    Choke(u64, u64),
    /// height, round, block hash
    Proposal(u64, u64, Bytes),
    Other,
}

pub fn decode_pre(b: &[u8]) -> Pre {
    let r = rlp::Rlp::new(b);
    let go = || -> Result<Pre, rlp::DecoderError> {
        match r.item_count()? {
            2 => Ok(Pre::Choke(r.val_at(0)?, r.val_at(1)?)),
            4 => {
                let h: Vec<u8> = r.val_at(3)?;
                Ok(Pre::Vote(r.val_at(0)?, r.val_at(1)?, r.val_at(2)?, Bytes::from(h)))
            }
            6 => {
                let h: Vec<u8> = r.val_at(2)?;
                Ok(Pre::Proposal(r.val_at(0)?, r.val_at(1)?, Bytes::from(h)))
            }
            _ => Ok(Pre::Other),
        }
    };
    go().unwrap_or(Pre::Other)
}

pub fn hash_msg(msg: &[u8]) -> Bytes {
    h32("msg", &[msg])
}

/// Reference signing bytes, written independently of the repository's codec.
pub fn vote_preimage(h: u64, r: u64, ty: u8, bh: &[u8]) -> Vec<u8> {
    let mut s = rlp::RlpStream::new_list(4);
    s.append(&h).append(&r).append(&ty).append(&bh.to_vec());
    s.out().to_vec()
}
pub fn choke_preimage(h: u64, r: u64) -> Vec<u8> {
    let mut s = rlp::RlpStream::new_list(2);
    s.append(&h).append(&r);
    s.out().to_vec()
}
pub fn vote_hash(h: u64, r: u64, ty: u8, bh: &[u8]) -> Bytes {
    hash_msg(&vote_preimage(h, r, ty, bh))
}
pub fn choke_hash(h: u64, r: u64) -> Bytes {
    hash_msg(&choke_preimage(h, r))
}

pub fn sig_of(addr: &[u8], hash: &[u8]) -> Bytes {
    h32("sig", &[addr, hash])
}

/// Order-independent aggregate, like BLS: a multiset of individual signatures.
pub fn agg_of(sigs: &[Bytes]) -> Bytes {
    let mut v: Vec<&Bytes> = sigs.iter().collect();
    v.sort();
    let parts: Vec<&[u8]> = v.iter().map(|b| b.as_ref()).collect();
    h32("agg", &parts)
}

pub fn agg_expected(hash: &[u8], voters: &[Address]) -> Bytes {
    agg_of(&voters.iter().map(|v| sig_of(v, hash)).collect::<Vec<_>>())
}

pub fn vt(t: &VoteType) -> u8 {
    match t {
        VoteType::Prevote => 1,
        VoteType::Precommit => 2,
    }
}
pub fn vty(t: u8) -> VoteType {
    if t == 1 {
        VoteType::Prevote
    } else {
        VoteType::Precommit
    }
}

pub fn bitmap(n: usize, idx: &[usize]) -> Bytes {
    let mut v = vec![0u8; n.div_ceil(8)];
    for i in idx {
        v[i / 8] |= 0x80 >> (i % 8);
    }
    Bytes::from(v)
}

/// Independent bitmap reader: indexes (into the sorted list) whose bit is set, most
/// significant bit first.
pub fn bits(bm: &[u8], n: usize) -> Vec<usize> {
    (0..n)
        .filter(|i| bm.get(i / 8).is_some_and(|b| b & (0x80 >> (i % 8)) != 0))
        .collect()
}

pub fn hx(b: &[u8]) -> String {
    b.iter().take(4).map(|x| format!("{:02x}", x)).collect()
}

pub fn blk_bytes(b: &Blk) -> Vec<u8> {
    b.encode().unwrap().to_vec()
}
