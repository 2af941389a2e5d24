ID='b03-commit-without-record'
PROP='C08'
NEEDS='a log write that fails exactly at the commit step'
BREAKS='the decision is handed to the application although its log record could not be saved'
EDITS=[('src/state/process.rs','''        self.save_wal(Step::Commit, polc).await?;

        log::debug!("Overlord: state generate proof");''','''        let saved = self.save_wal(Step::Commit, polc).await;

        log::debug!("Overlord: state generate proof, saved {:?}", saved);''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        for fail in [false, true] {
            let mut k = Kit::equal(4, 0);
            k.start_at(1).await;
            let l = k.leader(1, 0);
            let b = B::new(1, 7);
            k.send(OverlordMsg::SignedProposal(k.proposal(l, 1, 0, &b, None))).await;
            k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PV, &b.hash(), &[1, 2, 3]))).await;
            if fail {
                k.st(|s| s.fail_save = 1);
            }
            k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PC, &b.hash(), &[1, 2, 3]))).await;
            k.sleep(10).await;
            if fail {
                want(k.saves().iter().any(|s| !s.2), "no failing write")?;
                want(k.commits().is_empty(), "committed without a log record")?;
            } else {
                want(k.commits().len() == 1, "not committed")?;
            }
        }
        Ok(())
    })
}
'''
