ID='b07-stale-precommit-timer'
PROP='C19'
NEEDS='a round that ends by a certificate while its precommit timer is still running'
BREAKS='the precommit timer of the round that is over makes the node choke in the next round'
EDITS=[('src/smr/state_machine.rs','''            if precommit_round != self.round {
                return Ok(());
            }

            log::debug!(
                "Overlord: SMR goto brake step''','''            if precommit_round > self.round {
                return Ok(());
            }

            log::debug!(
                "Overlord: SMR goto brake step''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let l = Kit::equal(4, 0).leader(1, 0);
        let me = (l + 3) % 4;
        let others: Vec<usize> = (0..4).filter(|i| *i != me).collect();
        let mut k = Kit::equal(4, me);
        k.start_at(1).await;
        let b = B::new(1, 7);
        let nil = bytes::Bytes::new();
        k.send(OverlordMsg::SignedProposal(k.proposal(l, 1, 0, &b, None))).await;
        k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PV, &nil, &others))).await;
        want(k.votes().iter().any(|v| v.2.vote.vote_type == PC), "no precommit")?;
        k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PC, &nil, &others))).await;
        k.sleep(1500).await;
        want(k.views().len() == 1, "not in the next round")?;
        want(k.chokes().is_empty(), "the timer of a round that is over acts")
    })
}
'''
