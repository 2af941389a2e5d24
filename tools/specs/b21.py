ID='b21-go-on-after-failed-commit'
PROP='C10'
NEEDS='the application fails to execute a decided block'
BREAKS='the node goes on to the next height without the application ever taking the block of this one'
EDITS=[('src/state/process.rs','''        let status = self
            .function
            .commit(ctx.clone(), height, commit)
            .await
            .map_err(|err| ConsensusError::Other(format!("commit error {:?}", err)))?;
''','''        let status = match self.function.commit(ctx.clone(), height, commit).await {
            Ok(status) => status,
            Err(err) => {
                // The block has been decided, so the others are at the next height already.
                log::error!("Overlord: commit error {:?}", err);
                let authority_list = self
                    .function
                    .get_authority_list(ctx.clone(), height + 1)
                    .await
                    .map_err(|err| ConsensusError::Other(format!("commit error {:?}", err)))?;
                Status {
                    height: height + 1,
                    interval: None,
                    timer_config: None,
                    authority_list,
                }
            }
        };
''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let l = Kit::equal(4, 0).leader(1, 0);
        let me = (l + 2) % 4;
        let mut k = Kit::equal(4, me);
        k.st(|s| s.fail_commit = 1);
        k.start_at(1).await;
        let b = B::new(1, 7);
        k.send(OverlordMsg::SignedProposal(k.proposal(l, 1, 0, &b, None))).await;
        k.sleep(20).await;
        k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PC, &b.hash(), &[0, 1, 2, 3]))).await;
        k.sleep(3000).await;
        want(k.commits().len() == 1, "not committed")?;
        let l2 = k.leader(2, 0);
        if l2 != me {
            k.send(OverlordMsg::SignedProposal(k.proposal(l2, 2, 0, &B::new(2, 9), None))).await;
        }
        k.sleep(200).await;
        want(k.votes().iter().all(|v| v.2.vote.height == 1), "votes at height 2 while height 1 was never executed")
    })
}
'''
