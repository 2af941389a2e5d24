ID='b26-skipped-heights-kept'
PROP='C26'
NEEDS='proposals for future heights, and statuses that skip those heights, over and over'
BREAKS='the proposals of skipped heights are kept forever'
EDITS=[('src/state/collection.rs','''    pub fn flush(&mut self, till: u64) {
        self.0 = self.0.split_off(&till);
    }
}

/// A struct to collect signed proposals''','''    pub fn flush(&mut self, till: u64) {
        // Those of the height before have been removed when that height ended.
        self.0.remove(&till.saturating_sub(1));
    }
}

/// A struct to collect signed proposals''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
struct A;
static N: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        N.fetch_add(l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        N.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    go(async {
        let mut k = Kit::equal(4, 0);
        k.start_at(1).await;
        let mut h = 1;
        let mut at = vec![];
        for i in 0..1600 {
            for d in 1..5 {
                let l = k.leader(h + d, 0);
                if l != 0 {
                    k.send(OverlordMsg::SignedProposal(k.proposal(l, h + d, 0, &B::new(h + d, 7), None))).await;
                }
            }
            h += 6;
            k.status(h).await;
            k.st(|s| {
                s.outs.clear();
                s.outs.shrink_to_fit();
            });
            if i == 399 || i == 1599 {
                // timers of the past
                k.sleep(100_000).await;
                k.status(h + 1).await;
                h += 1;
                k.sleep(1).await;
                k.st(|s| {
                    s.outs.clear();
                    s.outs.shrink_to_fit();
                });
                at.push(N.load(Relaxed));
            }
        }
        println!("{:?}", at);
        want(at[1] < at[0] + 300_000, "memory grows with the chain")
    })
}
'''
