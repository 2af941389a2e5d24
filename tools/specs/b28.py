ID='b28-choke-without-record'
PROP='C28'
NEEDS='a log write that fails exactly when the node gives up on a round'
BREAKS='a choke is sent although its record could not be written'
EDITS=[('src/state/process.rs','''        self.save_wal_with_lock_round(Step::Brake, lock_round)
            .await?;
''','''        if let Err(e) = self
            .save_wal_with_lock_round(Step::Brake, lock_round)
            .await
        {
            // A choke does not vote for anything.
            log::error!("Overlord: save brake error {:?}", e);
        }
''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let l = Kit::equal(4, 0).leader(1, 0);
        let me = (l + 1) % 4;
        let mut k = Kit::equal(4, me);
        k.start_at(1).await;
        let b = B::new(1, 7);
        k.send(OverlordMsg::SignedProposal(k.proposal(l, 1, 0, &b, None))).await;
        let mut n = 0;
        // until the precommit for no block
        while !k.votes().iter().any(|v| v.2.vote.vote_type == PC) && n < 400 {
            k.sleep(20).await;
            n += 1;
        }
        want(n < 400, "no precommit")?;
        k.st(|s| s.fail_save = 1);
        n = 0;
        while !k.saves().iter().any(|s| !s.2) && n < 400 {
            k.sleep(20).await;
            n += 1;
        }
        want(n < 400, "no failing write")?;
        k.sleep(20).await;
        want(k.chokes().is_empty(), "a choke without its record")
    })
}
'''
