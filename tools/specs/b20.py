ID='b20-lock-of-a-fresh-round'
PROP='C05'
NEEDS='a lock, a later round, and a crash before the node votes in that round'
BREAKS='the restarted node prevotes another block without any justification'
EDITS=[('src/smr/state_machine.rs','''        self.lock = info.polc;
''','''        // Nothing has been voted in the propose step.
        self.lock = info.polc.filter(|_| self.step != Step::Propose);
''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let l = Kit::equal(4, 0).leader(1, 0);
        let me = (l + 2) % 4;
        let mut k = Kit::equal(4, me);
        k.start_at(1).await;
        let b = B::new(1, 7);
        k.send(OverlordMsg::SignedProposal(k.proposal(l, 1, 0, &b, None))).await;
        k.sleep(20).await;
        k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PV, &b.hash(), &[(me + 1) % 4, (me + 2) % 4, (me + 3) % 4]))).await;
        k.sleep(20).await;
        want(k.votes().iter().any(|v| v.2.vote.vote_type == PC && v.2.vote.block_hash == b.hash()), "no precommit")?;
        for i in 0..4 {
            if i != me {
                k.send(OverlordMsg::SignedChoke(k.choke(i, 1, 0, UpdateFrom::PrecommitQC(mock_qc())))).await;
            }
        }
        k.sleep(20).await;
        k.crash().await;
        k.start(1).await;
        let b2 = B::new(1, 8);
        let l1 = k.leader(1, 1);
        k.send(OverlordMsg::SignedProposal(k.proposal(l1, 1, 1, &b2, None))).await;
        k.sleep(50).await;
        let v: Vec<_> = k.votes().into_iter().filter(|v| v.2.vote.vote_type == PV && v.2.vote.round == 1).collect();
        want(v.len() == 1, "no prevote in round 1")?;
        want(v[0].2.vote.block_hash == b.hash(), "prevote against the lock")
    })
}
'''
