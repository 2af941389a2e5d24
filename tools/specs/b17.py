ID='b17-rounded-threshold'
PROP='C01'
NEEDS='a total vote weight that leaves a remainder of two by three, and a leader that proposes different blocks to different members'
BREAKS='two honest members decide different blocks at one height'
EDITS=[('src/utils/auth_manage.rs','''        Ok(acc * 3 > self.vote_weight_sum * 2)''','''        Ok(acc > self.vote_weight_sum / 3 * 2)''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let l = Kit::equal(5, 0).leader(1, 0);
        let mut got = vec![];
        for (me, other) in [((l + 1) % 5, (l + 2) % 5), ((l + 3) % 5, (l + 4) % 5)] {
            let mut k = Kit::equal(5, me);
            k.start_at(1).await;
            let b = B::new(1, me as u64 + 10);
            k.send(OverlordMsg::SignedProposal(k.proposal(l, 1, 0, &b, None))).await;
            k.sleep(20).await;
            // the faulty leader and two of the four others
            k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PV, &b.hash(), &[l, me, other]))).await;
            k.sleep(20).await;
            k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PC, &b.hash(), &[l, me, other]))).await;
            k.sleep(50).await;
            got.extend(k.commits().into_iter().map(|c| c.1.proof.block_hash));
        }
        want(got.len() < 2 || got[0] == got[1], "two members decide different blocks")
    })
}
'''
