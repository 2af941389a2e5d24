ID='b14-long-bitmap'
PROP='C14'
NEEDS='a certificate whose bitmap has a bit set more than 56 places beyond the validators'
BREAKS='verification of such a certificate panics'
EDITS=[('src/utils/auth_manage.rs','''        let voters = bitmap
            .iter()
            .zip(self.address.iter())
            .filter(|node| node.0)
            .map(|node| node.1.clone())
            .collect::<Vec<_>>();''','''        let mut room = self.address.len() + 56;
        let voters = bitmap
            .iter()
            .enumerate()
            .filter(|bit| bit.1)
            .filter_map(|bit| {
                room = self.address.len() + 56 - bit.0;
                self.address.get(bit.0).cloned()
            })
            .collect::<Vec<_>>();
        log::trace!("Overlord: {} bits left", room);''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
use std::sync::atomic::{AtomicUsize, Ordering};
static P: AtomicUsize = AtomicUsize::new(0);
fn main() {
    std::panic::set_hook(Box::new(|i| {
        eprintln!("{}", i);
        P.fetch_add(1, Ordering::SeqCst);
    }));
    go(async {
        let mut k = Kit::equal(4, 0);
        k.start_at(1).await;
        for n in [1usize, 3, 20, 200] {
            let mut q = k.qc(1, 0, PV, &bytes::Bytes::new(), &[1, 2, 3]);
            q.signature.address_bitmap = bytes::Bytes::from(vec![0xff; n]);
            k.send(OverlordMsg::AggregatedVote(q)).await;
            k.sleep(5).await;
        }
        want(P.load(Ordering::SeqCst) == 0, "panic")
    })
}
'''
