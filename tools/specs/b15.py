ID='b15-chokes-of-later-rounds'
PROP='C12'
NEEDS='a node that stayed behind in an earlier round while the others choke in a later one'
BREAKS='chokes of later rounds are ignored, so the node never catches up by them'
EDITS=[('src/state/process.rs','''        if choke_round < self.round {
            return Ok(());
        }''','''        if choke_round < self.round || choke_round > self.round + 1 {
            return Ok(());
        }''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let mut k = Kit::equal(4, 0);
        k.start_at(1).await;
        k.sleep(100).await;
        for i in 1..4 {
            let q = k.choke_qc(1, 3, &[1, 2, 3]);
            k.send(OverlordMsg::SignedChoke(k.choke(i, 1, 4, UpdateFrom::ChokeQC(q)))).await;
        }
        k.sleep(100).await;
        want(!k.views().is_empty(), "stays behind")
    })
}
'''
