ID='b24-undecodable-locked-block'
PROP='C16'
NEEDS='a log record that is well formed but for the block of its lock'
BREAKS='decoding panics instead of reporting the problem'
EDITS=[('src/codec.rs','''                let lock_votes: AggregatedVote = r.val_at(1)?;
                let tmp: Vec<u8> = r.val_at(2)?;
                let content = Codec::decode(Bytes::from(tmp))
                    .map_err(|_| DecoderError::Custom("Codec decode error."))?;
''','''                let lock_votes: AggregatedVote = r.val_at(1)?;
                let tmp: Vec<u8> = r.val_at(2)?;
                // It was encoded by this node.
                let content = Codec::decode(Bytes::from(tmp)).expect("own block");
''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
use overlord::WalInfo;
fn main() {
    go(async {
        let l = Kit::equal(4, 0).leader(1, 0);
        let me = (l + 2) % 4;
        let mut k = Kit::equal(4, me);
        k.start_at(1).await;
        let b = B::new(1, 7);
        k.send(OverlordMsg::SignedProposal(k.proposal(l, 1, 0, &b, None))).await;
        k.sleep(20).await;
        k.send(OverlordMsg::AggregatedVote(k.qc(1, 0, PV, &b.hash(), &[0, 1, 2, 3]))).await;
        k.sleep(20).await;
        let rec = k.st(|s| s.wal.clone()).unwrap();
        want(rlp::decode::<WalInfo<B>>(&rec).is_ok(), "own record")?;
        // the same record with a lock on a block of another kind
        let x = rlp::Rlp::new(&rec);
        let lock = x.at(3).unwrap().at(0).unwrap();
        let mut s = rlp::RlpStream::new_list(5);
        for i in 0..3 {
            s.append_raw(x.at(i).unwrap().as_raw(), 1);
        }
        s.begin_list(1).begin_list(3);
        s.append_raw(lock.at(0).unwrap().as_raw(), 1);
        s.append_raw(lock.at(1).unwrap().as_raw(), 1);
        s.append(&vec![1u8, 2, 3]);
        s.append_raw(x.at(4).unwrap().as_raw(), 1);
        let bad = s.out().to_vec();
        match std::panic::catch_unwind(|| rlp::decode::<WalInfo<B>>(&bad).is_err()) {
            Ok(true) => Ok(()),
            Ok(false) => Err("decoded".to_string()),
            Err(_) => Err("panic".to_string()),
        }
    })
}
'''
