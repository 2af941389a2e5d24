ID='b11-voter-bits'
PROP='C18'
NEEDS='more than 64 validators'
BREAKS='the public helper names only the voters among the first 64 validators'
EDITS=[('src/utils/auth_manage.rs','''    let voters: Vec<Address> = bitmap
        .iter()
        .zip(authority_list.iter())''','''    let bits = u64::BITS as usize;
    let voters: Vec<Address> = bitmap
        .iter()
        .take(bits)
        .zip(authority_list.iter())''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let n = 70;
        let me = Kit::equal(n, 0).net.auth(1).iter().map(|a| a.address.clone()).collect::<Vec<_>>();
        let l = overlord::get_leader(1, 0, Kit::equal(n, 0).net.auth(1));
        let me = me.iter().position(|a| *a == l).unwrap();
        let mut k = Kit::equal(n, me);
        k.start_at(1).await;
        k.sleep(5).await;
        let p = k.proposals();
        want(p.len() == 1, "no proposal")?;
        let h = p[0].1.proposal.block_hash.clone();
        let mut who = vec![addr(me)];
        for i in (0..n).rev() {
            if i != me && k.qcs().is_empty() {
                k.send(OverlordMsg::SignedVote(k.vote(i, 1, 0, PV, &h))).await;
                who.push(addr(i));
            }
        }
        let q = k.qcs();
        want(!q.is_empty(), "no certificate")?;
        let mut got = overlord::extract_voters(&mut k.net.auth(1), &q[0].1.signature.address_bitmap).unwrap();
        got.sort();
        who.sort();
        want(got == who, "the bitmap does not name the voters")
    })
}
'''
