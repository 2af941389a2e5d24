ID='b19-failed-check-wakes'
PROP='C03'
NEEDS='a prevote certificate that arrives before the slow check of the block fails'
BREAKS='the node precommits a block the application rejected'
EDITS=[('src/state/process.rs','''        .check_block(ctx, height, hash.clone(), block.clone())
        .await
        .map_err(|err| ConsensusError::Other(format!("check {} block error {:?}", height, err)))?;

    log::debug!("Overlord: state check block {}", true);
    tx.unbounded_send(VerifyResp {
        height,
        round,
        block_hash: hash,
        block,
        is_pass: true,
    })
    .map_err(''','''        .check_block(ctx, height, hash.clone(), block.clone())
        .await
        .map_err(|err| {
            log::error!("Overlord: check {} block error {:?}", height, err);
            err
        });

    // Tell the state of the failure too.
    let is_pass = res.is_ok();
    log::debug!("Overlord: state check block {}", is_pass);
    tx.unbounded_send(VerifyResp {
        height,
        round,
        block_hash: hash,
        block,
        is_pass,
    })
    .map_err('''),('src/state/process.rs','''    function
        .check_block(''','''    let res = function
        .check_block(''')]
EDITS=[(EDITS[0][0],'    function\n'+EDITS[0][1],'    let res = function\n'+EDITS[0][2])]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let l = Kit::equal(4, 0).leader(1, 0);
        let me = (l + 2) % 4;
        let mut k = Kit::equal(4, me);
        k.st(|s| {
            s.reject = vec![7];
            s.check_ms = 100;
        });
        k.start_at(1).await;
        let b = B::new(1, 7);
        k.send(OverlordMsg::SignedProposal(k.proposal(l, 1, 0, &b, None))).await;
        k.sleep(20).await;
        k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PV, &b.hash(), &[(me + 1) % 4, (me + 2) % 4, (me + 3) % 4]))).await;
        k.sleep(200).await;
        want(!k.votes().is_empty(), "no vote at all")?;
        for (_, _, v) in k.votes() {
            want(v.vote.vote_type == PV || v.vote.block_hash != b.hash(), "precommit for a rejected block")?;
        }
        Ok(())
    })
}
'''
