ID='b31-leader-of-round-zero-after-restart'
PROP='C09'
NEEDS='a crash in a later round of a height'
BREAKS='the restarted node sends its votes of that round to the leader of round 0, so they are lost'
EDITS=[('src/state/process.rs','''        self.height = wal_info.height;
        self.round = wal_info.round;
        self.is_leader = self.is_proposer()?;
''','''        self.height = wal_info.height;
        self.is_leader = self.is_proposer()?;
        self.round = wal_info.round;
''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let l1 = Kit::equal(4, 0).leader(1, 1);
        let me = (l1 + 1) % 4;
        let mut k = Kit::equal(4, me);
        k.start_at(1).await;
        for i in (0..4).filter(|i| *i != me) {
            k.send(OverlordMsg::SignedChoke(k.choke(i, 1, 0, UpdateFrom::PrecommitQC(mock_qc())))).await;
        }
        k.sleep(20).await;
        k.crash().await;
        k.start(1).await;
        let b = B::new(1, 7);
        k.send(OverlordMsg::SignedProposal(k.proposal(l1, 1, 1, &b, None))).await;
        k.sleep(50).await;
        let v = k.votes();
        want(!v.is_empty(), "no vote after the restart")?;
        want(v.iter().all(|v| v.1 == addr(l1)), "a vote of round 1 goes to another leader")
    })
}
'''
