ID='b27-unchecked-voter-index'
PROP='C27'
NEEDS='a certificate of a true quorum whose bitmap also has bits set beyond the validators'
BREAKS='reads outside the address list'
EDITS=[('src/utils/auth_manage.rs','''            .zip(self.address.iter())
            .filter(|node| node.0)
            .map(|node| node.1.clone())
            .collect::<Vec<_>>();
        Ok(voters)
    }

    /// If''','''            .enumerate()
            .filter(|node| node.1)
            // The threshold was checked over the same list.
            .map(|node| unsafe { self.address.get_unchecked(node.0) }.clone())
            .collect::<Vec<_>>();
        Ok(voters)
    }

    /// If''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let l = Kit::equal(4, 0).leader(1, 0);
        let me = (l + 1) % 4;
        let mut k = Kit::equal(4, me);
        k.start_at(1).await;
        let b = B::new(1, 7);
        let mut q = k.qc(1, 0, PV, &b.hash(), &[0, 1, 2, 3]);
        q.signature.address_bitmap = bytes::Bytes::from(vec![0xff; 4]);
        k.send(OverlordMsg::AggregatedVote(q)).await;
        k.sleep(20).await;
        // a checked build ends at the first access outside the list
        Ok(())
    })
}
'''
