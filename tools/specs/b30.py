ID='b30-same-round-again'
PROP='C11'
NEEDS='a choke of a later round that carries the choke certificate which led to the current round'
BREAKS='the node enters its round again and votes in an earlier step of it'
EDITS=[('src/smr/state_machine.rs','''        if height != self.height || round <= self.round {''','''        if height != self.height || round < self.round {''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let l1 = Kit::equal(4, 0).leader(1, 1);
        let me = (l1 + 1) % 4;
        let mut k = Kit::equal(4, me);
        k.start_at(1).await;
        let who: Vec<usize> = (0..4).filter(|i| *i != me).collect();
        for i in &who {
            k.send(OverlordMsg::SignedChoke(k.choke(*i, 1, 0, UpdateFrom::PrecommitQC(mock_qc())))).await;
        }
        k.sleep(20).await;
        let b = B::new(1, 7);
        k.send(OverlordMsg::SignedProposal(k.proposal(l1, 1, 1, &b, None))).await;
        k.sleep(20).await;
        k.send(OverlordMsg::AggregatedVote(k.qc(1, 1, PV, &b.hash(), &who))).await;
        k.sleep(20).await;
        want(k.votes().iter().any(|v| v.2.vote.vote_type == PC && v.2.vote.round == 1), "no precommit")?;
        let n = k.saves().len();
        // a faulty member's choke of round 2
        k.send(OverlordMsg::SignedChoke(k.choke(who[0], 1, 2, UpdateFrom::ChokeQC(k.choke_qc(1, 0, &who))))).await;
        k.sleep(50).await;
        for (_, s, _) in k.saves().into_iter().skip(n) {
            want(s.round > 1 || u8::from(s.step) > 1, "back to the start of the round")?;
        }
        let mut last = (0, 0);
        for (_, _, v) in k.votes() {
            let at = (v.vote.round, if v.vote.vote_type == PV { 0 } else { 1 });
            want(at >= last, "votes go backwards")?;
            last = at;
        }
        Ok(())
    })
}
'''
