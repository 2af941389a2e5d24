ID='b18-round-of-the-decision'
PROP='C02'
NEEDS='a precommit certificate of an earlier round that reaches a node after it has moved to the next round'
BREAKS='the proof handed to the application names the round the node is in, so its signature does not verify'
EDITS=[('src/state/process.rs','''        let proof = Proof {
            height,
            round: qc.round,
''','''        let proof = Proof {
            height,
            round: self.round,
''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let l = Kit::equal(4, 0).leader(1, 0);
        let me = (l + 2) % 4;
        let mut k = Kit::equal(4, me);
        k.start_at(1).await;
        let b = B::new(1, 7);
        k.send(OverlordMsg::SignedProposal(k.proposal(l, 1, 0, &b, None))).await;
        k.sleep(20).await;
        for i in 0..4 {
            if i != me {
                k.send(OverlordMsg::SignedChoke(k.choke(i, 1, 0, UpdateFrom::PrecommitQC(mock_qc())))).await;
            }
        }
        k.sleep(20).await;
        want(k.views().len() == 1, "still in round 0")?;
        k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PC, &b.hash(), &[0, 1, 2]))).await;
        k.sleep(50).await;
        want(k.commits().len() == 1, "not committed")?;
        let c = k.commits()[0].1.clone();
        want(c.proof.round == 0, "the proof names a round in which nobody decided")
    })
}
'''
