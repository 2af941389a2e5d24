ID='b06-early-precommits'
PROP='C22'
NEEDS='precommits for the next height that reach its leader before it gets there'
BREAKS='early precommits are dropped at the height change although they are valid'
EDITS=[('src/state/collection.rs','''                    votes.append(&mut rc.precommit.get_all_votes());
''','')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let me = Kit::equal(4, 0).leader(2, 0);
        let mut k = Kit::equal(4, me);
        k.start_at(1).await;
        let nil = bytes::Bytes::new();
        for t in [PV, PC] {
            for i in 0..4 {
                if i != me {
                    k.send(OverlordMsg::SignedVote(k.vote(i, 2, 0, t.clone(), &nil))).await;
                }
            }
        }
        k.status(2).await;
        k.sleep(200).await;
        want(k.qcs().iter().any(|q| q.1.height == 2 && q.1.vote_type == PV), "early prevotes are not used")?;
        want(k.qcs().iter().any(|q| q.1.height == 2 && q.1.vote_type == PC), "early precommits are not used")
    })
}
'''
