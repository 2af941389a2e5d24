ID='b12-seven-members'
PROP='C20'
NEEDS='a node that is listed after the seventh place of a larger validator list'
BREAKS='the node takes itself for no member of the new height'
EDITS=[('src/types.rs','''        self.authority_list
            .iter()''','''        self.authority_list[..self.authority_list.len().min(7)]
            .iter()''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        let mut k = Kit::new(8, 1000, |h| if h < 2 { (5..9).map(|i| (i, 1, 1)).collect() } else { (0..9).map(|i| (i, 1, 1)).collect() });
        k.start_at(1).await;
        k.sleep(10_000).await;
        want(!k.chokes().is_empty(), "no choke at the first height")?;
        k.status(2).await;
        k.sleep(10_000).await;
        want(!k.chokes().iter().filter(|c| c.1.choke.height == 2).collect::<Vec<_>>().is_empty(), "a member does not take part")?;
        let _ = OverlordMsg::<B>::Stop;
        Ok(())
    })
}
'''
