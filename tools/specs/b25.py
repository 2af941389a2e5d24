ID='b25-stop-outside-the-validators'
PROP='C21'
NEEDS='a stop message to a node that is not in the validator list of the current height'
BREAKS='its run call never returns'
EDITS=[('src/state/process.rs','''                    if self.stopped {
                        break;
                    }

                    if !self.consensus_power {
                        continue;
                    }

                    if let Err(e) = self.handle_event(evt).await{''','''                    if !self.consensus_power {
                        continue;
                    }

                    if self.stopped {
                        break;
                    }

                    if let Err(e) = self.handle_event(evt).await{''')]
MAIN='''mod kit;
use kit::*;
use overlord::types::*;
fn main() {
    go(async {
        // members 0..3; this node is the fifth
        let mut k = Kit::new(4, 1000, |_| (0..4).map(|i| (i, 1, 1)).collect());
        k.start_at(1).await;
        k.sleep(100).await;
        k.send(OverlordMsg::Stop).await;
        k.sleep(60_000).await;
        want(k.outs().iter().any(|o| matches!(o.1, Out::End(_))), "still running a minute after the stop")
    })
}
'''
