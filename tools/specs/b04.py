ID='b04-outsider-vote'
PROP='C14'
NEEDS='a correctly signed vote by somebody outside the validator set, sent to the leader of the round before its own votes are counted'
BREAKS='a vote of an outsider is stored and makes every later count of that round fail, so the leader can form no certificate'
EDITS=[('src/state/process.rs','''        let vote = signed_vote.vote.clone();
        self.verify_address(&voter)?;
''','''        let vote = signed_vote.vote.clone();
''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let l = Kit::equal(4, 0).leader(1, 0);
        let mut k = Kit::equal(4, l);
        k.start_at(1).await;
        k.sleep(5).await;
        let p = k.proposals();
        want(p.len() == 1, "no proposal")?;
        let h = p[0].1.proposal.block_hash.clone();
        k.send(OverlordMsg::SignedVote(k.vote(9, 1, 0, PV, &h))).await;
        for i in 0..4 {
            if i != l {
                k.send(OverlordMsg::SignedVote(k.vote(i, 1, 0, PV, &h))).await;
            }
        }
        for i in 0..4 {
            if i != l {
                k.send(OverlordMsg::SignedVote(k.vote(i, 1, 0, PC, &h))).await;
            }
        }
        k.sleep(100).await;
        want(k.qcs().iter().any(|q| q.1.vote_type == PV), "a vote of an outsider keeps the prevote certificate from being formed")
    })
}
'''
