ID='b02-nil-prevote-while-locked'
PROP='C05'
NEEDS='a node that locked a block in one round and hears no proposal in the next round until the propose timeout'
BREAKS='the timeout prevote of a locked node is for no block instead of the locked block'
EDITS=[('src/smr/state_machine.rs','(Some(lock.round), lock.hash.clone())\n            } else {\n                (None, Hash::new())','(Some(lock.round), Hash::new())\n            } else {\n                (None, Hash::new())')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let mut k = Kit::equal(4, 1);
        k.start_at(1).await;
        let l = k.leader(1, 0);
        let b = B::new(1, 7);
        k.send(OverlordMsg::SignedProposal(k.proposal(l, 1, 0, &b, None))).await;
        k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PV, &b.hash(), &[0, 2, 3]))).await;
        want(k.votes().iter().any(|v| v.2.vote.vote_type == PC && v.2.vote.block_hash == b.hash()), "not locked")?;
        let nil = bytes::Bytes::new();
        k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PC, &nil, &[0, 2, 3]))).await;
        k.sleep(20_000).await;
        let mut n = 0;
        for (_, _, v) in k.votes() {
            if v.vote.vote_type == PV && v.vote.round > 0 {
                want(v.vote.block_hash == b.hash(), "prevote that ignores the lock")?;
                n += 1;
            }
        }
        for (_, p) in k.proposals() {
            want(p.proposal.block_hash == b.hash(), "proposal that ignores the lock")?;
            n += 1;
        }
        want(n > 0, "no later prevote")
    })
}
'''
