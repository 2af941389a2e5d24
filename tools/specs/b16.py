ID='b16-bits-of-other-votes'
PROP='C06'
NEEDS='a leader that gets votes for different values in one round'
BREAKS='its certificate has the bits of validators that voted for something else'
EDITS=[('src/state/process.rs','''        let set = voters.iter().cloned().collect::<HashSet<_>>();''','''        let set = self
            .votes
            .get_vote_map(self.height, self.round, qc_votes)?
            .values()
            .flatten()
            .cloned()
            .collect::<HashSet<_>>();'''),('src/state/process.rs','''        votes.sort();

        log::debug!("Overlord: state build aggregated signature");
''','''        votes.sort();
        let qc_votes = vote_type.clone();

        log::debug!("Overlord: state build aggregated signature");
''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let me = Kit::equal(4, 0).leader(1, 0);
        let mut k = Kit::equal(4, me);
        k.start_at(1).await;
        k.sleep(5).await;
        let p = k.proposals();
        want(p.len() == 1, "no proposal")?;
        let h = p[0].1.proposal.block_hash.clone();
        let o: Vec<usize> = (0..4).filter(|i| *i != me).collect();
        k.send(OverlordMsg::SignedVote(k.vote(o[0], 1, 0, PV, &bytes::Bytes::new()))).await;
        k.send(OverlordMsg::SignedVote(k.vote(o[1], 1, 0, PV, &h))).await;
        k.send(OverlordMsg::SignedVote(k.vote(o[2], 1, 0, PV, &h))).await;
        k.sleep(50).await;
        let q = k.qcs();
        want(!q.is_empty(), "no certificate")?;
        let good = k.qc(1, 0, PV, &h, &[me, o[1], o[2]]);
        want(q[0].1.signature.address_bitmap == good.signature.address_bitmap, "bits of a validator that did not vote so")
    })
}
'''
