ID='b01-same-height-status'
PROP='C20'
NEEDS='a status for the height the node is already at, arriving after it has moved to a later round'
BREAKS='a status that is not higher than the current height resets the state to round 0 of that height while the state machine stays in its round'
EDITS=[('src/state/process.rs','''        if status.height <= self.height {
            log::warn!(''','''        if status.height < self.height {
            log::warn!(''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let mut k = Kit::equal(4, 0);
        k.start_at(1).await;
        // nil rounds until round 2
        for r in 0..2u64 {
            let nil = bytes::Bytes::new();
            k.send(OverlordMsg::AggregatedVote(k.qc(1, r, PC, &nil, &[1, 2, 3]))).await;
        }
        k.status(1).await;
        let n = k.outs().len();
        k.sleep(30_000).await;
        for (_, _, v) in k.votes() {
            want(v.vote.round == 2, &format!("vote for round {} while in round 2", v.vote.round))?;
        }
        want(k.outs().len() > n, "nothing happened")?;
        for (_, c) in k.chokes() {
            want(c.choke.round == 2, "choke of a round that is over")?;
        }
        want(!k.chokes().is_empty(), "no choke")?;
        Ok(())
    })
}
'''
