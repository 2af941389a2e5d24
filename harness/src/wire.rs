//! Messages: printing, the wire round trip, their position; the leader rule.
use crate::app::*;
use bytes::Bytes;
use overlord::types::*;
use std::error::Error;

pub type Msg = OverlordMsg<Blk>;
pub type BErr = Box<dyn Error + Send>;

pub fn show_msg(m: &Msg) -> String {
    match m {
        OverlordMsg::SignedProposal(p) => format!(
            "proposal h{} r{} {} lock {:?} by {}",
            p.proposal.height,
            p.proposal.round,
            hx(&p.proposal.block_hash),
            p.proposal.lock.as_ref().map(|l| (l.lock_round, hx(&l.lock_votes.block_hash))),
            hx(&p.proposal.proposer)
        ),
        OverlordMsg::SignedVote(v) => format!(
            "{:?} h{} r{} [{}] by {}",
            v.vote.vote_type,
            v.vote.height,
            v.vote.round,
            hx(&v.vote.block_hash),
            hx(&v.voter)
        ),
        OverlordMsg::AggregatedVote(q) => show_qc(q),
        OverlordMsg::SignedChoke(c) => format!(
            "choke h{} r{} by {} from {}",
            c.choke.height,
            c.choke.round,
            hx(&c.address),
            match &c.choke.from {
                UpdateFrom::PrevoteQC(q) => format!("pv {}", show_qc(q)),
                UpdateFrom::PrecommitQC(q) => format!("pc {}", show_qc(q)),
                UpdateFrom::ChokeQC(q) => format!("ck h{} r{} voters {}", q.height, q.round, q.voters.len()),
            }
        ),
        OverlordMsg::RichStatus(s) => format!("status h{}", s.height),
        _ => "stop".into(),
    }
}
pub fn show_qc(q: &AggregatedVote) -> String {
    format!(
        "{:?}QC h{} r{} [{}] bits {}",
        q.vote_type,
        q.height,
        q.round,
        hx(&q.block_hash),
        hx(&q.signature.address_bitmap)
    )
}


pub fn ref_leader(h: u64, r: u64, auth: &[Node]) -> Bytes {
    if cfg!(feature = "random_leader") {
        return overlord::get_leader(h, r, auth.to_vec());
    }
    let n = auth.len() as u128;
    let mut prime = 1u128;
    let mut p = 2u128;
    while p < n {
        if (2..p).all(|d| p % d != 0) {
            prime = p;
        }
        p += 1;
    }
    let i = (h as u128 * prime + r as u128) % n;
    auth[i as usize].address.clone()
}


/// Encode and decode as the wire would.
pub fn wire_trip(m: &Msg) -> Result<Msg, String> {
    fn go<T: rlp::Encodable + rlp::Decodable + PartialEq + std::fmt::Debug>(x: &T) -> Result<T, String> {
        let b = rlp::encode(x);
        let y: T = rlp::decode(&b).map_err(|e| format!("decode {:?}", e))?;
        if &y != x {
            return Err("round trip differs".into());
        }
        Ok(y)
    }
    Ok(match m {
        OverlordMsg::SignedProposal(x) => OverlordMsg::SignedProposal(go(x)?),
        OverlordMsg::SignedVote(x) => OverlordMsg::SignedVote(go(x)?),
        OverlordMsg::AggregatedVote(x) => OverlordMsg::AggregatedVote(go(x)?),
        OverlordMsg::SignedChoke(x) => OverlordMsg::SignedChoke(go(x)?),
        OverlordMsg::RichStatus(x) => OverlordMsg::RichStatus(x.clone()),
        _ => return Err("not a wire message".into()),
    })
}

pub fn msg_pos(m: &Msg) -> (u64, u64, usize) {
    match m {
        OverlordMsg::SignedProposal(p) => (p.proposal.height, p.proposal.round, 0),
        OverlordMsg::SignedVote(v) => (v.vote.height, v.vote.round, vt(&v.vote.vote_type) as usize),
        OverlordMsg::AggregatedVote(q) => (q.height, q.round, 2 + vt(&q.vote_type) as usize),
        OverlordMsg::SignedChoke(c) => (c.choke.height, c.choke.round, 5),
        OverlordMsg::RichStatus(s) => (s.height, 0, 6),
        _ => (0, 0, 6),
    }
}

