ID='b29-early-certificates-trusted'
PROP='C07'
NEEDS='a forged certificate for the next height that arrives before the node gets there'
BREAKS='the node precommits and commits on a certificate nobody signed'
EDITS=[('src/state/process.rs','''        for item in qcs.into_iter() {
            parallel_verify(
                Context::new(),
                OverlordMsg::AggregatedVote(item),
                Arc::clone(&self.util),
                self.authority.clone(),
                self.verify_sig_tx.clone(),
            )
            .await;
        }
''','''        for item in qcs.into_iter() {
            // All of them come from the leader of their round, do not verify them in a burst.
            if item.round > self.round {
                continue;
            }
            let _ = self
                .verify_sig_tx
                .unbounded_send((Context::new(), OverlordMsg::AggregatedVote(item)));
        }
''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let l = Kit::equal(4, 0).leader(2, 0);
        let me = (l + 1) % 4;
        let mut k = Kit::equal(4, me);
        k.start_at(1).await;
        let b = B::new(2, 7);
        let mut q = k.qc(2, 0, PV, &b.hash(), &[0, 1, 2, 3]);
        q.signature.signature = bytes::Bytes::from(vec![9u8; 32]);
        k.send(OverlordMsg::AggregatedVote(q)).await;
        k.status(2).await;
        k.send(OverlordMsg::SignedProposal(k.proposal(l, 2, 0, &b, None))).await;
        k.sleep(100).await;
        want(k.votes().iter().any(|v| v.2.vote.vote_type == PV), "no prevote")?;
        want(!k.votes().iter().any(|v| v.2.vote.vote_type == PC), "precommit on a forged certificate")
    })
}
'''
