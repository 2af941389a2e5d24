ID='b05-nil-vote-unlogged'
PROP='C04'
NEEDS='a crash between a prevote for no block (propose timeout) and the next log record, then the late proposal of that round'
BREAKS='after the restart the node prevotes a second value in the same round'
EDITS=[('src/state/process.rs','''        self.save_wal_with_lock_round(vote_type.clone().into(), lock_round)
            .await?;

        if self.is_leader {''','''        // A vote for no block promises nothing.
        if !hash.is_empty() || lock_round.is_some() {
            self.save_wal_with_lock_round(vote_type.clone().into(), lock_round)
                .await?;
        }

        if self.is_leader {''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let l = Kit::equal(4, 0).leader(1, 0);
        let me = (l + 1) % 4;
        let mut k = Kit::equal(4, me);
        k.start_at(1).await;
        let mut n = 0;
        while k.votes().is_empty() && n < 200 {
            k.sleep(50).await;
            n += 1;
        }
        want(k.votes().len() == 1 && k.votes()[0].2.vote.block_hash.is_empty(), "no prevote for no block")?;
        k.crash().await;
        k.start(1).await;
        let b = B::new(1, 7);
        k.send(OverlordMsg::SignedProposal(k.proposal(l, 1, 0, &b, None))).await;
        k.sleep(100).await;
        for (_, _, v) in k.votes() {
            if v.vote.vote_type == PV && v.vote.round == 0 {
                want(v.vote.block_hash.is_empty(), "two prevotes in one round")?;
            }
        }
        Ok(())
    })
}
'''
