ID='b09-reason-of-empty-certificate'
PROP='C24'
NEEDS='a leader whose round ends by timeout after a prevote certificate for no block'
BREAKS='the round change is reported as lacking precommits although no block got a prevote certificate'
EDITS=[('src/state/process.rs','''                if !qc.block_hash.is_empty() {
                    return ViewChangeReason::LeaderReceivedVoteBelowThreshold(VoteType::Precommit);
                }
''','''                return ViewChangeReason::LeaderReceivedVoteBelowThreshold(if qc.is_prevote_qc() { VoteType::Precommit } else { VoteType::Prevote });
''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let me = Kit::equal(4, 0).leader(1, 0);
        let mut k = Kit::equal(4, me);
        k.start_at(1).await;
        let nil = bytes::Bytes::new();
        for i in 0..4 {
            if i != me {
                k.send(OverlordMsg::SignedVote(k.vote(i, 1, 0, PV, &nil))).await;
            }
        }
        want(k.qcs().len() == 1, "no certificate")?;
        k.sleep(2000).await;
        for i in 0..4 {
            if i != me {
                k.send(OverlordMsg::SignedChoke(k.choke(i, 1, 0, UpdateFrom::PrecommitQC(mock_qc())))).await;
            }
        }
        k.sleep(100).await;
        want(k.views().len() == 1, "no view change")?;
        let r = k.views()[0].3.clone();
        want(r.contains("Prevote"), &format!("wrong reason {}", r))
    })
}
'''
