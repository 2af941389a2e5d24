ID='b08-pacing-from-current-proposals'
PROP='C25'
NEEDS='the leader of the next height receives a proposal of a later round shortly before the height is decided'
BREAKS='the proposal does not restart the interval, so the next block is proposed too early'
EDITS=[('src/state/process.rs','''        self.height_start = Instant::now();

        if self.filter_signed_proposal(
            ctx.clone(),
            proposal_height,
            proposal_round,
            &signed_proposal,
        )? {
            return Ok(());
        }
''','''        if self.filter_signed_proposal(
            ctx.clone(),
            proposal_height,
            proposal_round,
            &signed_proposal,
        )? {
            return Ok(());
        }

        self.height_start = Instant::now();
''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let me = Kit::equal(4, 0).leader(2, 0);
        let others: Vec<usize> = (0..4).filter(|i| *i != me).collect();
        let mut k = Kit::equal(4, me);
        k.start_at(1).await;
        let l = k.leader(1, 0);
        let b = B::new(1, 7);
        k.send(OverlordMsg::SignedProposal(k.proposal(l, 1, 0, &b, None))).await;
        k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PV, &b.hash(), &others))).await;
        std::thread::sleep(std::time::Duration::from_millis(600));
        let l1 = k.leader(1, 1);
        want(l1 != me, "setting")?;
        k.send(OverlordMsg::SignedProposal(k.proposal(l1, 1, 1, &B::new(1, 8), None))).await;
        let t = k.now();
        k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PC, &b.hash(), &others))).await;
        want(k.commits().len() == 1, "not committed")?;
        k.sleep(3000).await;
        let p = k.proposals();
        want(p.iter().any(|p| p.1.proposal.height == 2), "no proposal")?;
        let at = p.iter().find(|p| p.1.proposal.height == 2).unwrap().0;
        want(at >= t + 700, "proposed before the interval had passed")
    })
}
'''
