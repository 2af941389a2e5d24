ID='b13-early-proposal-of-anybody'
PROP='C23'
NEEDS='a proposal for a later round signed by a validator that does not lead that round, received before the round'
BREAKS='the node keeps it and prevotes for it when it gets to the round'
EDITS=[('src/state/process.rs','''        if address != &self.authority.get_proposer(height, round)? {''','''        if height == self.height
            && round == self.round
            && address != &self.authority.get_proposer(height, round)?
        {'''),('src/state/process.rs','''            if let Ok((signed_proposal, ctx)) = self.proposals.get(self.height, self.round) {
                return self.handle_signed_proposal(ctx, signed_proposal).await;''','''            if let Ok((signed_proposal, ctx)) = self.proposals.get(self.height, self.round) {
                let block = signed_proposal.proposal.content.clone();
                let hash = signed_proposal.proposal.block_hash.clone();
                let lock_round = signed_proposal.proposal.lock.map(|polc| polc.lock_round);
                self.height_start = Instant::now();
                self.state_machine.trigger(SMRTrigger {
                    trigger_type: TriggerType::Proposal,
                    source: TriggerSource::State,
                    hash: hash.clone(),
                    lock_round,
                    round: self.round,
                    height: self.height,
                    wal_info: None,
                })?;
                self.check_block(ctx, hash, block).await;
                return Ok(());''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let k0 = Kit::equal(4, 0);
        let l1 = k0.leader(1, 1);
        let me = (0..4).find(|i| *i != l1 && *i != k0.leader(1, 0)).unwrap();
        let bad = (0..4).find(|i| *i != l1 && *i != me).unwrap();
        let mut k = Kit::equal(4, me);
        k.start_at(1).await;
        let others: Vec<usize> = (0..4).filter(|i| *i != me).collect();
        let b = B::new(1, 7);
        k.send(OverlordMsg::SignedProposal(k.proposal(bad, 1, 1, &b, None))).await;
        k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PC, &bytes::Bytes::new(), &others))).await;
        k.sleep(100).await;
        for (_, _, v) in k.votes() {
            want(v.vote.block_hash != b.hash(), "voted for a block that the leader did not propose")?;
        }
        want(k.views().len() == 1, "not in the next round")
    })
}
'''
