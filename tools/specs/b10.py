ID='b10-leader-by-weight'
PROP='C17'
NEEDS='validators with different propose weights, in rotation mode'
BREAKS='the public leader function orders validators by propose weight first and names another leader than the nodes use'
EDITS=[('src/utils/auth_manage.rs','''pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Address {
    authority_list.sort();''','''pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Address {
    authority_list.sort_by(|a, b| {
        (b.propose_weight, &a.address).cmp(&(a.propose_weight, &b.address))
    });''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let mut k = Kit::new(0, 1000, |_| vec![(0, 1, 1), (1, 5, 1), (2, 1, 1), (3, 3, 1)]);
        k.start_at(1).await;
        for h in 1..5u64 {
            if h > 1 {
                k.status(h).await;
            }
            k.sleep(10_000).await;
        }
        let mut n = 0;
        for (_, to, v) in k.votes() {
            let l = overlord::get_leader(v.vote.height, v.vote.round, k.net.auth(v.vote.height));
            want(to == l, "the vote went to somebody else")?;
            n += 1;
        }
        want(n > 3, "no votes")
    })
}
'''
