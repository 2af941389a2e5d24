ID='b22-check-slower-than-votes'
PROP='C13'
NEEDS='a block check that takes longer than collecting the prevotes, on a member that does not lead'
BREAKS='the member never precommits, so a fault-free height does not end in its first round'
EDITS=[('src/state/process.rs','''            if qc.round == self.round {
                self.state_machine.trigger(SMRTrigger {
                    trigger_type: TriggerType::PrevoteQC,''','''            // The others learn it from the certificate of the leader.
            if qc.round == self.round && self.is_leader {
                self.state_machine.trigger(SMRTrigger {
                    trigger_type: TriggerType::PrevoteQC,''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let l = Kit::equal(4, 0).leader(1, 0);
        let me = (l + 2) % 4;
        let mut k = Kit::equal(4, me);
        k.st(|s| s.check_ms = 100);
        k.start_at(1).await;
        let b = B::new(1, 7);
        k.send(OverlordMsg::SignedProposal(k.proposal(l, 1, 0, &b, None))).await;
        k.sleep(20).await;
        k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PV, &b.hash(), &[0, 1, 2, 3]))).await;
        k.sleep(200).await;
        want(k.votes().iter().any(|v| v.2.vote.vote_type == PC && v.2.vote.block_hash == b.hash()), "no precommit 80 ms after the check")
    })
}
'''
