From db60bd12356a6399457f6a0440b965349629387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:17 +0000
Subject: [PATCH 01/25] fix: reject quorum certificates whose voters are not
 above the threshold

---
 src/state/parallel.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state/parallel.rs b/src/state/parallel.rs
index 25bac20..8792787 100644
--- a/src/state/parallel.rs
+++ b/src/state/parallel.rs
@@ -5,6 +5,7 @@ use creep::Context;
 use futures::channel::mpsc::UnboundedSender;
 use muta_apm::derive::tracing_span;
 
+use crate::error::ConsensusError;
 use crate::types::{Address, AggregatedVote, OverlordMsg};
 use crate::utils::auth_manage::AuthorityManage;
 use crate::{Codec, ConsensusResult, Crypto};
@@ -98,7 +99,11 @@ fn get_voters(
     addr_bitmap: &Bytes,
     authority_manage: AuthorityManage,
 ) -> ConsensusResult<Vec<Address>> {
-    authority_manage.is_above_threshold(addr_bitmap)?;
+    if !authority_manage.is_above_threshold(addr_bitmap)? {
+        return Err(ConsensusError::AggregatedSignatureErr(
+            "the weight of voters is not above threshold".to_string(),
+        ));
+    }
     authority_manage.get_voters(addr_bitmap)
 }
 
-- 
2.43.0


From 03174a2519e65e4e9b718ae2e3b627d290196b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 02/25] fix: check that the PoLC of a proposal locks the
 proposed block in an earlier round

---
 src/state/parallel.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/state/parallel.rs b/src/state/parallel.rs
index 8792787..f975d18 100644
--- a/src/state/parallel.rs
+++ b/src/state/parallel.rs
@@ -6,7 +6,7 @@ use futures::channel::mpsc::UnboundedSender;
 use muta_apm::derive::tracing_span;
 
 use crate::error::ConsensusError;
-use crate::types::{Address, AggregatedVote, OverlordMsg};
+use crate::types::{Address, AggregatedVote, OverlordMsg, PoLC, Proposal};
 use crate::utils::auth_manage::AuthorityManage;
 use crate::{Codec, ConsensusResult, Crypto};
 
@@ -36,7 +36,12 @@ pub async fn parallel_verify<T: Codec + 'static, C: Crypto + Sync + 'static>(
                     return;
                 }
 
-                if let Some(polc) = sp.proposal.lock {
+                if let Some(polc) = sp.proposal.lock.clone() {
+                    if !is_polc_matched(&sp.proposal, &polc) {
+                        log::error!("Overlord: verify {:?} proposal PoLC mismatched", sp);
+                        return;
+                    }
+
                     verify_qc(
                         ctx.clone(),
                         crypto,
@@ -95,6 +100,16 @@ pub async fn parallel_verify<T: Codec + 'static, C: Crypto + Sync + 'static>(
     });
 }
 
+/// A PoLC must be a prevote QC for the proposed block, in an earlier round of the same height.
+fn is_polc_matched<T: Codec>(proposal: &Proposal<T>, polc: &PoLC) -> bool {
+    let qc = &polc.lock_votes;
+    qc.is_prevote_qc()
+        && qc.height == proposal.height
+        && qc.round == polc.lock_round
+        && qc.block_hash == proposal.block_hash
+        && polc.lock_round < proposal.round
+}
+
 fn get_voters(
     addr_bitmap: &Bytes,
     authority_manage: AuthorityManage,
-- 
2.43.0


From 192cb60050f9231e33f9d3f4109ae2f41d895d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 03/25] fix: verify the sender and the carried evidence of a
 signed choke

---
 src/state/process.rs | 53 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index e4586c4..0e71bf5 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1202,13 +1202,23 @@ where
             hex_encode(signed_choke.address.clone())
         );
 
+        self.verify_address(&signed_choke.address)?;
+
         if choke_round > self.round {
             match choke.from {
-                UpdateFrom::PrevoteQC(qc) => {
-                    return self.handle_aggregated_vote(ctx.clone(), qc).await
-                }
-                UpdateFrom::PrecommitQC(qc) => {
-                    return self.handle_aggregated_vote(ctx.clone(), qc).await
+                UpdateFrom::PrevoteQC(qc) | UpdateFrom::PrecommitQC(qc) => {
+                    // The QC carried by a choke has not been verified yet.
+                    if qc.height == self.height {
+                        parallel_verify(
+                            ctx,
+                            OverlordMsg::AggregatedVote(qc),
+                            Arc::clone(&self.util),
+                            self.authority.clone(),
+                            self.verify_sig_tx.clone(),
+                        )
+                        .await;
+                    }
+                    return Ok(());
                 }
                 UpdateFrom::ChokeQC(qc) => return self.handle_aggregated_choke(qc),
             }
@@ -1223,14 +1233,33 @@ where
         &mut self,
         aggregated_choke: AggregatedChoke,
     ) -> ConsensusResult<()> {
+        if aggregated_choke.height != self.height {
+            return Err(ConsensusError::BrakeErr(
+                "choke qc is not of current height".to_string(),
+            ));
+        }
+
         // verify is above threshold.
-        if aggregated_choke.len() * 3 <= self.authority.len() * 2 {
+        let voters = aggregated_choke.voters.iter().collect::<HashSet<_>>();
+        if voters.len() != aggregated_choke.voters.len()
+            || !self.is_above_threshold(voters.into_iter())?
+        {
             return Err(ConsensusError::BrakeErr(
                 "choke qc is not above threshold".to_string(),
             ));
         }
 
         let choke = aggregated_choke.to_hash();
+        self.util
+            .verify_aggregated_signature(
+                aggregated_choke.signature.clone(),
+                self.util.hash(Bytes::from(rlp::encode(&choke))),
+                aggregated_choke.voters.clone(),
+            )
+            .map_err(|err| {
+                ConsensusError::AggregatedSignatureErr(format!("choke qc error {:?}", err))
+            })?;
+
         self.chokes.set_qc(choke.round, aggregated_choke);
 
         self.state_machine.trigger(SMRTrigger {
@@ -1448,6 +1477,18 @@ where
         Ok(())
     }
 
+    /// Check if the total vote weight of the given distinct addresses is above 2/3.
+    fn is_above_threshold<'a, I>(&self, addresses: I) -> ConsensusResult<bool>
+    where
+        I: Iterator<Item = &'a Address>,
+    {
+        let mut acc = 0u64;
+        for address in addresses {
+            acc += u64::from(*self.authority.get_vote_weight(address)?);
+        }
+        Ok(acc * 3 > self.authority.get_vote_weight_sum() * 2)
+    }
+
     async fn transmit(&self, ctx: Context, msg: OverlordMsg<T>) {
         log::debug!(
             "Overlord: state transmit a message to leader height {}, round {}",
-- 
2.43.0


From 669f8fbde5e77ef841a3275e46f399f8b11cc3f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 04/25] fix: count chokes by vote weight as the other quorums
 are

---
 src/state/collection.rs | 11 +++++++++--
 src/state/process.rs    |  2 +-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/state/collection.rs b/src/state/collection.rs
index 5ffefa6..41a9046 100644
--- a/src/state/collection.rs
+++ b/src/state/collection.rs
@@ -7,6 +7,7 @@ use crate::types::{
     Address, AggregatedChoke, AggregatedVote, Hash, SignedChoke, SignedProposal, SignedVote,
     VoteType,
 };
+use crate::utils::auth_manage::AuthorityManage;
 use crate::{error::ConsensusError, Codec, ConsensusResult};
 
 /// A struct to collect signed proposals in each height. It stores each height and the corresponding
@@ -518,9 +519,15 @@ impl ChokeCollector {
         self.qcs.get(&round).cloned()
     }
 
-    pub fn max_round_above_threshold(&self, nodes_num: usize) -> Option<u64> {
+    pub fn max_round_above_threshold(&self, authority: &AuthorityManage) -> Option<u64> {
+        let threshold = authority.get_vote_weight_sum() * 2;
         for (round, set) in self.chokes.iter().rev() {
-            if set.len() * 3 > nodes_num * 2 {
+            let weight = set
+                .keys()
+                .filter_map(|addr| authority.get_vote_weight(addr).ok())
+                .map(|weight| u64::from(*weight))
+                .sum::<u64>();
+            if weight * 3 > threshold {
                 return Some(*round);
             }
         }
diff --git a/src/state/process.rs b/src/state/process.rs
index 0e71bf5..fd8434d 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1586,7 +1586,7 @@ where
 
     fn check_choke_above_threshold(&mut self) -> ConsensusResult<()> {
         self.chokes.print_round_choke_log(self.round);
-        if let Some(round) = self.chokes.max_round_above_threshold(self.authority.len()) {
+        if let Some(round) = self.chokes.max_round_above_threshold(&self.authority) {
             if round < self.round {
                 return Ok(());
             }
-- 
2.43.0


From 7ce05d06438d224af5b7448231863f525ff8cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 05/25] fix: handle a stop message instead of asking for its
 height or ignoring it

---
 src/state/process.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index fd8434d..7fe4783 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -132,7 +132,7 @@ where
                 raw = raw_rx.next() => {
                     let (ctx, msg) = raw.expect("Overlord message handler dropped");
 
-                    if msg.is_rich_status() {
+                    if msg.is_rich_status() || matches!(msg, OverlordMsg::Stop) {
                         let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
                     } else {
                         match self.height.cmp(&msg.get_height()) {
@@ -196,7 +196,7 @@ where
         ctx: Context,
         raw: OverlordMsg<T>,
     ) -> ConsensusResult<()> {
-        if !self.consensus_power && !raw.is_rich_status() {
+        if !self.consensus_power && !raw.is_rich_status() && !matches!(raw, OverlordMsg::Stop) {
             return Ok(());
         }
 
-- 
2.43.0


From a9e4088d9ca1bb345fb07e6e098259eefd2658dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 06/25] fix: return an error instead of panicking on an invalid
 tag while decoding

---
 src/codec.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/codec.rs b/src/codec.rs
index 1ae3ff1..fa0b16a 100644
--- a/src/codec.rs
+++ b/src/codec.rs
@@ -445,7 +445,7 @@ impl Decodable for UpdateFrom {
                         let qc: AggregatedChoke = r.val_at(1)?;
                         UpdateFrom::ChokeQC(qc)
                     }
-                    _ => unreachable!(),
+                    _ => return Err(DecoderError::Custom("Invalid update from type.")),
                 };
                 Ok(res)
             }
@@ -502,6 +502,9 @@ impl<T: Codec> Decodable for WalInfo<T> {
                 let height: u64 = r.val_at(0)?;
                 let round: u64 = r.val_at(1)?;
                 let tmp: u8 = r.val_at(2)?;
+                if tmp > u8::from(Step::Commit) {
+                    return Err(DecoderError::Custom("Invalid step."));
+                }
                 let step = Step::from(tmp);
                 let lock = r.val_at(3)?;
                 let from: UpdateFrom = r.val_at(4)?;
-- 
2.43.0


From f78f7b6da34e9932376dabac8709695141059a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:15 +0000
Subject: [PATCH 07/25] fix: avoid integer overflow in vote counting and leader
 election

---
 src/state/process.rs     |  6 +++---
 src/utils/auth_manage.rs | 16 +++++++++-------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 7fe4783..9e39b8c 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1158,11 +1158,11 @@ where
         );
 
         for (hash, set) in vote_map.iter() {
-            let mut acc = 0u32;
+            let mut acc = 0u64;
             for addr in set.iter() {
-                acc += self.authority.get_vote_weight(addr)?;
+                acc += u64::from(*self.authority.get_vote_weight(addr)?);
             }
-            if u64::from(acc) * 3 > threshold {
+            if acc * 3 > threshold {
                 return Ok(Some(hash.to_owned()));
             }
         }
diff --git a/src/utils/auth_manage.rs b/src/utils/auth_manage.rs
index 5dd6644..69a7dcb 100644
--- a/src/utils/auth_manage.rs
+++ b/src/utils/auth_manage.rs
@@ -64,7 +64,7 @@ impl AuthorityManage {
     pub fn get_proposer(&self, height: u64, round: u64) -> ConsensusResult<Address> {
         let index = if cfg!(feature = "random_leader") {
             get_random_proposer_index(
-                height + round,
+                height.wrapping_add(round),
                 &self.propose_weights,
                 self.propose_weight_sum,
             )
@@ -161,15 +161,15 @@ pub fn extract_voters(
 /// Get the leader address of the height and the round, the authority list MUST be sorted.
 pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Address {
     authority_list.sort();
-    let mut weight_sum = 0;
+    let mut weight_sum = 0u64;
     let mut propose_weights = Vec::new();
     for node in authority_list.iter() {
-        weight_sum += node.propose_weight;
+        weight_sum += u64::from(node.propose_weight);
         propose_weights.push(node.propose_weight as u64);
     }
 
     let index = if cfg!(feature = "random_leader") {
-        get_random_proposer_index(height + round, &propose_weights, weight_sum as u64)
+        get_random_proposer_index(height.wrapping_add(round), &propose_weights, weight_sum)
     } else {
         rotation_leader_index(height, round, authority_list.len())
     };
@@ -178,9 +178,11 @@ pub fn get_leader(height: u64, round: u64, mut authority_list: Vec<Node>) -> Add
 }
 
 fn rotation_leader_index(height: u64, round: u64, authority_len: usize) -> usize {
-    let len = authority_len as u32;
-    let prime_num = *get_primes_less_than_x(len).last().unwrap_or(&1) as u64;
-    let res = (height * prime_num + round) % (len as u64);
+    let len = authority_len as u64;
+    let prime_num = *get_primes_less_than_x(authority_len as u32)
+        .last()
+        .unwrap_or(&1) as u64;
+    let res = ((height % len) * prime_num + round % len) % len;
     res as usize
 }
 
-- 
2.43.0


From edce0dced3371107dd977ba3a6fc25d632340785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 08/25] fix: only use a block under a hash after that very
 block has passed the check

---
 src/state/process.rs | 15 ++++++++-------
 src/types.rs         |  4 +++-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 9e39b8c..6d28b79 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -56,7 +56,7 @@ pub struct State<T: Codec, F: Consensus<T>, C: Crypto, W: Wal> {
     stopped: bool,
 
     verify_sig_tx: UnboundedSender<(Context, OverlordMsg<T>)>,
-    resp_tx: UnboundedSender<VerifyResp>,
+    resp_tx: UnboundedSender<VerifyResp<T>>,
     function: Arc<F>,
     wal: Arc<W>,
     util: Arc<C>,
@@ -80,7 +80,7 @@ where
         consensus: Arc<F>,
         crypto: Arc<C>,
         wal_engine: Arc<W>,
-    ) -> (Self, UnboundedReceiver<VerifyResp>) {
+    ) -> (Self, UnboundedReceiver<VerifyResp<T>>) {
         let (tx, rx) = unbounded();
         let mut auth = AuthorityManage::new();
         auth.update(&mut authority_list);
@@ -119,7 +119,7 @@ where
         &mut self,
         mut raw_rx: UnboundedReceiver<(Context, OverlordMsg<T>)>,
         mut event: Event,
-        mut verify_resp: UnboundedReceiver<VerifyResp>,
+        mut verify_resp: UnboundedReceiver<VerifyResp<T>>,
         mut verify_sig: UnboundedReceiver<(Context, OverlordMsg<T>)>,
     ) {
         log::debug!("Overlord: state start running");
@@ -329,7 +329,7 @@ where
         }
     }
 
-    fn handle_resp(&mut self, msg: Option<VerifyResp>) -> ConsensusResult<()> {
+    fn handle_resp(&mut self, msg: Option<VerifyResp<T>>) -> ConsensusResult<()> {
         let resp = msg.ok_or_else(|| ConsensusError::Other("Event sender dropped".to_string()))?;
         if resp.height != self.height {
             return Ok(());
@@ -345,6 +345,7 @@ where
 
         self.is_full_transaction
             .insert(block_hash.clone(), resp.is_pass);
+        self.hash_with_block.insert(block_hash.clone(), resp.block);
 
         if let Some(qc) =
             self.votes
@@ -627,7 +628,6 @@ where
 
         let hash = proposal.block_hash.clone();
         let block = proposal.content.clone();
-        self.hash_with_block.insert(hash.clone(), proposal.content);
         self.proposals.insert(
             ctx.clone(),
             self.height,
@@ -1905,10 +1905,10 @@ async fn check_current_block<U: Consensus<T>, T: Codec>(
     round: u64,
     hash: Hash,
     block: T,
-    tx: UnboundedSender<VerifyResp>,
+    tx: UnboundedSender<VerifyResp<T>>,
 ) -> ConsensusResult<()> {
     function
-        .check_block(ctx, height, hash.clone(), block)
+        .check_block(ctx, height, hash.clone(), block.clone())
         .await
         .map_err(|err| ConsensusError::Other(format!("check {} block error {:?}", height, err)))?;
 
@@ -1917,6 +1917,7 @@ async fn check_current_block<U: Consensus<T>, T: Codec>(
         height,
         round,
         block_hash: hash,
+        block,
         is_pass: true,
     })
     .map_err(|e| ConsensusError::ChannelErr(e.to_string()))
diff --git a/src/types.rs b/src/types.rs
index 469eea6..3106711 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -425,13 +425,15 @@ impl Node {
 
 /// A verify response.
 #[derive(Clone, Debug, PartialEq, Eq)]
-pub(crate) struct VerifyResp {
+pub(crate) struct VerifyResp<T: Codec> {
     /// The height of the verified block.
     pub(crate) height: u64,
     /// The round of the verified block.
     pub(crate) round: u64,
     /// Verified proposal hash.
     pub(crate) block_hash: Hash,
+    /// Verified block.
+    pub(crate) block: T,
     /// The block is pass or not.
     pub(crate) is_pass: bool,
 }
-- 
2.43.0


From 820ec7edce3bbae0b97912f8fa55f09ad49e30f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:17 +0000
Subject: [PATCH 09/25] fix: forget block check results when going to a new
 height

---
 src/state/process.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index 6d28b79..bf3e6b9 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -429,6 +429,7 @@ where
         self.proposals.flush(new_height - 1);
         self.votes.flush(new_height - 1);
         self.hash_with_block.clear();
+        self.is_full_transaction.clear();
         self.chokes.clear();
 
         // Re-check proposals that have been in the proposal collector, of the current height.
-- 
2.43.0


From 29853157c975a85fac6ecb671c83dbe8e4d75bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:18 +0000
Subject: [PATCH 10/25] fix: ignore SMR events of a height that the state has
 left

---
 src/state/process.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index bf3e6b9..559ac7d 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -260,12 +260,17 @@ where
     pub(crate) async fn handle_event(&mut self, event: Option<SMREvent>) -> ConsensusResult<()> {
         match event.ok_or_else(|| ConsensusError::Other("Event sender dropped".to_string()))? {
             SMREvent::NewRoundInfo {
+                height,
                 round,
                 lock_round,
                 lock_proposal,
                 from_where,
                 ..
             } => {
+                if height != self.height {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_new_round(round, lock_round, lock_proposal, from_where)
                     .await
@@ -276,10 +281,15 @@ where
             }
 
             SMREvent::PrevoteVote {
+                height,
                 block_hash,
                 lock_round,
                 ..
             } => {
+                if height != self.height {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_vote_event(block_hash, VoteType::Prevote, lock_round)
                     .await
@@ -290,10 +300,15 @@ where
             }
 
             SMREvent::PrecommitVote {
+                height,
                 block_hash,
                 lock_round,
                 ..
             } => {
+                if height != self.height {
+                    return Ok(());
+                }
+
                 if let Err(e) = self
                     .handle_vote_event(block_hash, VoteType::Precommit, lock_round)
                     .await
-- 
2.43.0


From e4fa9d78ecc4d17aadcd72b2f17189838f5842dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 11/25] fix: do not treat a message from a future height as a
 verified one

---
 src/state/process.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 559ac7d..deda1f6 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -137,7 +137,13 @@ where
                     } else {
                         match self.height.cmp(&msg.get_height()) {
                             Ordering::Less => {
-                                let _ = self.verify_sig_tx.unbounded_send((ctx, msg));
+                                // Store it right now. Passing it through the channel of verified
+                                // messages would let it skip the verification if the state goes
+                                // to its height in the meantime.
+                                if let Err(e) = self.handle_msg(ctx.clone(), msg).await {
+                                    self.report_error(ctx, e.clone());
+                                    log::error!("Overlord: state {:?} error", e);
+                                }
                             }
                             Ordering::Equal => {
                                 parallel_verify(
-- 
2.43.0


From d0ec8c3a9d05785ae1faf47e3760eb4740be62d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:20 +0000
Subject: [PATCH 12/25] fix: do not get stuck between two heights when saving
 the wal fails

---
 src/state/process.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index deda1f6..c7924dd 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -435,7 +435,11 @@ where
 
         log::info!("Overlord: state goto new height {}", self.height);
 
-        self.save_wal(Step::Propose, None).await?;
+        // Staying in the old height would make the node miss this status, so go ahead. Nothing is
+        // sent in the new height before another record is saved.
+        if let Err(e) = self.save_wal(Step::Propose, None).await {
+            log::error!("Overlord: state save wal of new height error {:?}", e);
+        }
 
         // Update height and authority list.
         self.height_start = Instant::now();
-- 
2.43.0


From 1c9570ca21cfe27e0e260ef03575db97ca92bb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 13/25] fix: ignore brake timeout in commit step

---
 src/smr/state_machine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index d2ef0e8..447de4b 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -102,7 +102,7 @@ impl StateMachine {
     }
 
     fn handle_brake_timeout(&mut self, height: u64, round: u64) -> ConsensusResult<()> {
-        if height != self.height || round != self.round {
+        if height != self.height || round != self.round || self.step == Step::Commit {
             Ok(())
         } else {
             log::debug!(
-- 
2.43.0


From 938506f4b01f921c0ea7cf6f5c6733252a04c7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 14/25] fix: keep the lock when prevoting for a proposal with a
 higher lock round

---
 src/smr/state_machine.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index 447de4b..fbdf153 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -187,8 +187,9 @@ impl StateMachine {
 
     /// Handle a proposal trigger. Only if self step is propose, the proposal is valid.
     /// If proposal hash is empty, prevote to an empty hash. If the lock round is some, and the lock
-    /// round is higher than self lock round, remove PoLC. Finally throw prevote vote event. It is
-    /// impossible that the proposal hash is empty with the lock round is some.
+    /// round is higher than self lock round, prevote to the proposal but keep self lock until there
+    /// is a prevote QC. Finally throw prevote vote event. It is impossible that the proposal hash
+    /// is empty with the lock round is some.
     fn handle_proposal(
         &mut self,
         proposal_hash: Hash,
@@ -241,15 +242,18 @@ impl StateMachine {
                 log::debug!("Overlord: SMR handle proposal with a lock");
 
                 if lock_round > lock.round {
-                    self.remove_polc();
                     self.set_proposal(proposal_hash);
-                } else if lock_round == lock.round && proposal_hash != self.block_hash {
+                } else if lock_round == lock.round && proposal_hash != lock.hash {
                     return Err(ConsensusError::CorrectnessErr("Fork".to_string()));
+                } else {
+                    self.set_proposal(lock.hash);
                 }
             } else {
                 self.set_proposal(proposal_hash);
             }
-        } else if self.lock.is_none() {
+        } else if let Some(lock) = self.lock.clone() {
+            self.set_proposal(lock.hash);
+        } else {
             self.set_proposal(proposal_hash);
         }
 
-- 
2.43.0


From 8f5cca7c70a7d38c5d818eb07d653b2cc1279863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 15/25] fix: set the leader when starting without wal

---
 src/state/process.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state/process.rs b/src/state/process.rs
index c7924dd..e6efcd4 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1732,6 +1732,7 @@ where
     }
 
     fn wal_lost(&mut self) -> ConsensusResult<()> {
+        self.is_proposer()?;
         let smr_base = SMRBase {
             height: self.height,
             round: self.round,
-- 
2.43.0


From 87f3e8efedbe375f62633e8380300b0213fc5a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:50 +0000
Subject: [PATCH 16/25] fix: count the voters of a choke certificate with its
 own method

---
 src/state/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index e6efcd4..616e115 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1267,7 +1267,7 @@ where
 
         // verify is above threshold.
         let voters = aggregated_choke.voters.iter().collect::<HashSet<_>>();
-        if voters.len() != aggregated_choke.voters.len()
+        if voters.len() != aggregated_choke.len()
             || !self.is_above_threshold(voters.into_iter())?
         {
             return Err(ConsensusError::BrakeErr(
-- 
2.43.0


From 6106816b27afb193d89fc855376bc74211ce65b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:42 +0000
Subject: [PATCH 17/25] fix: set the leader of a new round even if saving wal
 fails

---
 src/state/process.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 616e115..9d0af08 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -500,13 +500,15 @@ where
             ));
         }
 
+        // Set the leader first, the votes of this round need it even if saving wal fails.
+        let is_proposer = self.is_proposer()?;
         self.set_update_from(from_where)?;
         self.save_wal_with_lock_round(Step::Propose, lock_round)
             .await?;
 
         // If self is not proposer, check whether it has received current signed proposal before. If
         // has, then handle it.
-        if !self.is_proposer()? {
+        if !is_proposer {
             if let Ok((signed_proposal, ctx)) = self.proposals.get(self.height, self.round) {
                 return self.handle_signed_proposal(ctx, signed_proposal).await;
             }
-- 
2.43.0


From 8fd11900266576c3daf7c4ec47f421a2fedcedde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 18/25] fix: join the round of a higher prevote QC rather than
 the round after it

---
 src/smr/state_machine.rs | 5 +++--
 src/state/process.rs     | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index fbdf153..18c1854 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -338,17 +338,18 @@ impl StateMachine {
                 .clone()
                 .map_or_else(|| (None, None), |lock| (Some(lock.round), Some(lock.hash)));
 
+            // Catch up with the nodes that are in the round of the prevote QC. Going beyond it would
+            // leave them behind, because they can not follow with a prevote QC of their own round.
             self.round = prevote_round;
             self.throw_event(SMREvent::NewRoundInfo {
                 height: self.height,
-                round: self.round + 1,
+                round: self.round,
                 lock_round,
                 lock_proposal,
                 new_interval: None,
                 new_config: None,
                 from_where: FromWhere::PrevoteQC(prevote_round),
             })?;
-            self.goto_next_round();
         }
 
         // throw precommit vote event
diff --git a/src/state/process.rs b/src/state/process.rs
index 9d0af08..80ba9a9 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -502,6 +502,7 @@ where
 
         // Set the leader first, the votes of this round need it even if saving wal fails.
         let is_proposer = self.is_proposer()?;
+        let is_prevoted = from_where == FromWhere::PrevoteQC(new_round);
         self.set_update_from(from_where)?;
         self.save_wal_with_lock_round(Step::Propose, lock_round)
             .await?;
@@ -515,6 +516,11 @@ where
             return Ok(());
         }
 
+        // It is too late to propose while the prevote QC of this round has been formed.
+        if is_prevoted {
+            return Ok(());
+        }
+
         // There two cases to be handle when package a proposal:
         //
         // 1. Proposal without a lock
-- 
2.43.0


From 435b8d09986310843bba2a2bda474fb4b0cfe28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:03 +0000
Subject: [PATCH 19/25] fix: start SMR from the wal even if the first brake
 fails

---
 src/state/process.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 80ba9a9..1ee304c 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -1800,7 +1800,10 @@ where
 
         if wal_info.step == Step::Brake {
             let lock_round = wal_info.lock.clone().map(|lock| lock.lock_round);
-            self.handle_brake(self.round, lock_round).await?;
+            if let Err(e) = self.handle_brake(self.round, lock_round).await {
+                // SMR must start anyway, it will brake again after the brake timeout.
+                log::error!("Overlord: state handle brake error {:?}", e);
+            }
         }
 
         self.state_machine.trigger(SMRTrigger {
-- 
2.43.0


From 94004b9bdd0f438564dc49580a790f3610e76e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 20/25] fix: tell the other validators of a choke QC that ends
 the round

---
 src/state/process.rs | 50 +++++++++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/state/process.rs b/src/state/process.rs
index 1ee304c..eced5f6 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -768,12 +768,12 @@ where
             self.round
         );
 
-        self.chokes.insert(self.round, signed_choke.clone());
         self.save_wal_with_lock_round(Step::Brake, lock_round)
             .await?;
+        self.chokes.insert(self.round, signed_choke.clone());
         self.broadcast(Context::new(), OverlordMsg::SignedChoke(signed_choke))
             .await;
-        self.check_choke_above_threshold()?;
+        self.check_choke_above_threshold().await?;
         Ok(())
     }
 
@@ -1259,7 +1259,15 @@ where
         }
 
         self.chokes.insert(choke_round, signed_choke);
-        self.check_choke_above_threshold()?;
+        if !self.check_choke_above_threshold().await? {
+            // A node that leaves a round by a choke QC sends its choke of that round along with the
+            // choke QC to the nodes that do not have enough chokes.
+            if let UpdateFrom::ChokeQC(qc) = choke.from {
+                if qc.round == self.round {
+                    return self.handle_aggregated_choke(qc);
+                }
+            }
+        }
         Ok(())
     }
 
@@ -1618,11 +1626,12 @@ where
         }
     }
 
-    fn check_choke_above_threshold(&mut self) -> ConsensusResult<()> {
+    /// Leave the round if there are enough chokes, return whether there are.
+    async fn check_choke_above_threshold(&mut self) -> ConsensusResult<bool> {
         self.chokes.print_round_choke_log(self.round);
         if let Some(round) = self.chokes.max_round_above_threshold(&self.authority) {
             if round < self.round {
-                return Ok(());
+                return Ok(false);
             }
 
             log::debug!("Overlord: round {} chokes above threshold", round);
@@ -1636,15 +1645,14 @@ where
                 voters.push(sc.address.clone());
             }
             let sig = self.aggregate_signatures(sigs, voters.clone())?;
-            self.chokes.set_qc(
+            let is_new = self.chokes.get_qc(round).is_none();
+            let qc = AggregatedChoke {
+                height: self.height,
+                signature: sig,
                 round,
-                AggregatedChoke {
-                    height: self.height,
-                    signature: sig,
-                    round,
-                    voters,
-                },
-            );
+                voters,
+            };
+            self.chokes.set_qc(round, qc.clone());
 
             log::debug!(
                 "Overlord: state trigger SMR go on {} round of height {}",
@@ -1661,8 +1669,22 @@ where
                 height: self.height,
                 wal_info: None,
             })?;
+
+            // Some of the chokes may have been sent to this node only. Without them, the other
+            // nodes would stay one round behind until this node sends its next choke.
+            if is_new {
+                let own_choke = signed_chokes
+                    .into_iter()
+                    .find(|signed_choke| signed_choke.address == self.address);
+                if let Some(mut signed_choke) = own_choke {
+                    signed_choke.choke.from = UpdateFrom::ChokeQC(qc);
+                    self.broadcast(Context::new(), OverlordMsg::SignedChoke(signed_choke))
+                        .await;
+                }
+            }
+            return Ok(true);
         }
-        Ok(())
+        Ok(false)
     }
 
     #[tracing_span(
-- 
2.43.0


From 729d7b3ae4139c8961ac9c0d50d7503b57e6c8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:11 +0000
Subject: [PATCH 21/25] fix: end the timer and the SMR of a stopped instance
 instead of polling closed channels forever

---
 src/smr/state_machine.rs | 16 +++++++++-------
 src/timer.rs             |  6 +++---
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/smr/state_machine.rs b/src/smr/state_machine.rs
index 18c1854..f3f4537 100644
--- a/src/smr/state_machine.rs
+++ b/src/smr/state_machine.rs
@@ -37,9 +37,10 @@ impl Stream for StateMachine {
 
             Poll::Ready(msg) => {
                 if msg.is_none() {
-                    return Poll::Ready(Some(Err(ConsensusError::TriggerSMRErr(
-                        "Channel dropped".to_string(),
-                    ))));
+                    // Nobody can trigger the SMR anymore. Polling again would only repeat this
+                    // forever.
+                    log::error!("Overlord: SMR trigger channel dropped");
+                    return Poll::Ready(None);
                 }
 
                 let msg = msg.unwrap();
@@ -442,13 +443,14 @@ impl StateMachine {
 
     fn throw_event(&mut self, event: SMREvent) -> ConsensusResult<()> {
         log::debug!("Overlord: SMR throw {} event", event);
-        self.event.0.unbounded_send(event.clone()).map_err(|err| {
-            ConsensusError::ThrowEventErr(format!("event: {}, error: {:?}", event.clone(), err))
-        })?;
+        // The timer must get the event, a stop event especially, even if the state is gone.
+        let to_state = self.event.0.unbounded_send(event.clone());
         self.event.1.unbounded_send(event.clone()).map_err(|err| {
             ConsensusError::ThrowEventErr(format!("event: {}, error: {:?}", event.clone(), err))
         })?;
-        Ok(())
+        to_state.map_err(|err| {
+            ConsensusError::ThrowEventErr(format!("event: {}, error: {:?}", event.clone(), err))
+        })
     }
 
     fn throw_timer_event(&mut self, event: SMREvent) -> ConsensusResult<()> {
diff --git a/src/timer.rs b/src/timer.rs
index a2c26ba..85dded0 100644
--- a/src/timer.rs
+++ b/src/timer.rs
@@ -40,9 +40,9 @@ impl Stream for Timer {
 
                 Poll::Ready(event) => {
                     if event.is_none() {
-                        return Poll::Ready(Some(ConsensusError::TimerErr(
-                            "Channel dropped".to_string(),
-                        )));
+                        // The SMR is gone. Polling again would only repeat this forever.
+                        log::error!("Overlord: timer event channel dropped");
+                        return Poll::Ready(None);
                     }
 
                     let event = event.unwrap();
-- 
2.43.0


From ed493448c773fa91b8b326d6f8e2be07439c83cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:09 +0000
Subject: [PATCH 22/25] fix: back off the timeouts of the round that a restart
 from the wal resumes

---
 src/timer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/timer.rs b/src/timer.rs
index 85dded0..9b98935 100644
--- a/src/timer.rs
+++ b/src/timer.rs
@@ -134,6 +134,14 @@ impl Timer {
                     self.config.update(config);
                 }
             }
+            // After a restart from the wal there is no new round event of the current round.
+            SMREvent::PrevoteVote { height, round, .. }
+            | SMREvent::PrecommitVote { height, round, .. } => {
+                if height > self.height {
+                    self.height = height;
+                    self.round = round;
+                }
+            }
             SMREvent::Brake { .. } => is_brake_timer = true,
             SMREvent::Commit(_) => return Ok(()),
             _ => (),
-- 
2.43.0


From 62245d2a8be3ee15aae5a85bba6476ca844db441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:33 +0000
Subject: [PATCH 23/25] fix: do not run without the wal when loading it fails

---
 src/overlord.rs      | 4 +---
 src/state/process.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/overlord.rs b/src/overlord.rs
index a982371..3f45246 100644
--- a/src/overlord.rs
+++ b/src/overlord.rs
@@ -104,9 +104,7 @@ where
         timer.run();
 
         // Run state.
-        state.run(rx, evt_state, resp, verify_sig_rx).await;
-
-        Ok(())
+        state.run(rx, evt_state, resp, verify_sig_rx).await
     }
 }
 
diff --git a/src/state/process.rs b/src/state/process.rs
index eced5f6..10b35f9 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -121,10 +121,14 @@ where
         mut event: Event,
         mut verify_resp: UnboundedReceiver<VerifyResp<T>>,
         mut verify_sig: UnboundedReceiver<(Context, OverlordMsg<T>)>,
-    ) {
+    ) -> ConsensusResult<()> {
         log::debug!("Overlord: state start running");
         if let Err(e) = self.start_with_wal().await {
             log::error!("Overlord: start with wal error {:?}", e);
+            // Without its wal the node does not know what it has already signed.
+            if matches!(e, ConsensusError::LoadWalErr(_)) {
+                return Err(e);
+            }
         }
 
         loop {
@@ -193,6 +197,7 @@ where
                 }
             }
         }
+        Ok(())
     }
 
     /// A function to handle message from the network. Public this in the crate to do unit tests.
-- 
2.43.0


From 36d42b5da20309152f8b53290f81cfd91e67730c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:43 +0000
Subject: [PATCH 24/25] fix: keep forged messages of future heights from
 displacing genuine ones

---
 src/state/parallel.rs | 37 ++++++++++++++++++++++---------------
 src/state/process.rs  | 41 ++++++++++++++++++++++++++++++++++++-----
 2 files changed, 58 insertions(+), 20 deletions(-)

diff --git a/src/state/parallel.rs b/src/state/parallel.rs
index f975d18..f4b576f 100644
--- a/src/state/parallel.rs
+++ b/src/state/parallel.rs
@@ -112,7 +112,7 @@ fn is_polc_matched<T: Codec>(proposal: &Proposal<T>, polc: &PoLC) -> bool {
 
 fn get_voters(
     addr_bitmap: &Bytes,
-    authority_manage: AuthorityManage,
+    authority_manage: &AuthorityManage,
 ) -> ConsensusResult<Vec<Address>> {
     if !authority_manage.is_above_threshold(addr_bitmap)? {
         return Err(ConsensusError::AggregatedSignatureErr(
@@ -130,21 +130,28 @@ fn verify_qc<T: Codec, C: Crypto>(
     tx: UnboundedSender<(Context, OverlordMsg<T>)>,
     msg_clone: OverlordMsg<T>,
 ) {
+    if is_qc_valid(crypto.as_ref(), &qc, &authority) {
+        let _ = tx.unbounded_send((ctx, msg_clone));
+    }
+}
+
+/// Check whether the quorum certificate is signed by validators with enough vote weight.
+pub fn is_qc_valid<C: Crypto>(
+    crypto: &C,
+    qc: &AggregatedVote,
+    authority: &AuthorityManage,
+) -> bool {
     let hash = crypto.hash(Bytes::from(rlp::encode(&qc.to_vote())));
-    if let Ok(voters) = get_voters(&qc.signature.address_bitmap, authority) {
+    get_voters(&qc.signature.address_bitmap, authority).map_or(false, |voters| {
         crypto
             .verify_aggregated_signature(qc.signature.signature.clone(), hash, voters)
-            .map_or_else(
-                |err| {
-                    log::error!(
-                        "Overlord: verify {:?} aggregated signature error {:?}",
-                        qc,
-                        err
-                    );
-                },
-                |_| {
-                    let _ = tx.unbounded_send((ctx, msg_clone));
-                },
-            );
-    }
+            .map_err(|err| {
+                log::error!(
+                    "Overlord: verify {:?} aggregated signature error {:?}",
+                    qc,
+                    err
+                );
+            })
+            .is_ok()
+    })
 }
diff --git a/src/state/process.rs b/src/state/process.rs
index 10b35f9..fd4c012 100644
--- a/src/state/process.rs
+++ b/src/state/process.rs
@@ -17,7 +17,7 @@ use crate::error::ConsensusError;
 use crate::smr::smr_types::{FromWhere, SMREvent, SMRTrigger, Step, TriggerSource, TriggerType};
 use crate::smr::{Event, SMRHandler};
 use crate::state::collection::{ChokeCollector, ProposalCollector, VoteCollector};
-use crate::state::parallel::parallel_verify;
+use crate::state::parallel::{is_qc_valid, parallel_verify};
 use crate::types::{
     Address, AggregatedChoke, AggregatedSignature, AggregatedVote, Choke, Commit, Hash, Node,
     OverlordMsg, PoLC, Proof, Proposal, Signature, SignedChoke, SignedProposal, SignedVote, Status,
@@ -642,6 +642,15 @@ where
             &signed_proposal.proposal.proposer,
         )?;
 
+        // A forged proposal must not take the place of the genuine one in the proposal collector.
+        if proposal_height > self.height {
+            self.verify_signature(
+                &signed_proposal.signature,
+                Bytes::from(rlp::encode(&signed_proposal.proposal)),
+                &signed_proposal.proposal.proposer,
+            )?;
+        }
+
         self.height_start = Instant::now();
 
         if self.filter_signed_proposal(
@@ -913,13 +922,16 @@ where
         let vote = signed_vote.vote.clone();
         self.verify_address(&voter)?;
 
-        // Check if the quorum certificate has generated before check whether there is a hash that
-        // vote weight is above the threshold. If no hash achieved this, return directly.
-        if self
+        if height > self.height {
+            // A forged vote must not take the place of the genuine one in the vote collector.
+            self.verify_signature(&signature, Bytes::from(rlp::encode(&vote)), &voter)?;
+        } else if self
             .votes
             .get_qc_by_id(height, round, vote_type.clone())
             .is_ok()
         {
+            // Check if the quorum certificate has generated before check whether there is a hash
+            // that vote weight is above the threshold. If no hash achieved this, return directly.
             return Ok(());
         }
 
@@ -1055,7 +1067,15 @@ where
                         vote_height,
                         vote_round,
                     );
-                    self.votes.set_qc(aggregated_vote);
+                    // A forged QC must not take the place of a genuine one in the vote collector.
+                    if self
+                        .votes
+                        .get_qc_by_id(vote_height, vote_round, qc_type)
+                        .is_err()
+                        || is_qc_valid(self.util.as_ref(), &aggregated_vote, &self.authority)
+                    {
+                        self.votes.set_qc(aggregated_vote);
+                    }
                 } else {
                     log::warn!("Overlord: state receive a much higher aggregated vote");
                 }
@@ -1516,6 +1536,17 @@ where
         Ok(())
     }
 
+    fn verify_signature(
+        &self,
+        signature: &Signature,
+        message: Bytes,
+        address: &Address,
+    ) -> ConsensusResult<()> {
+        self.util
+            .verify_signature(signature.clone(), self.util.hash(message), address.clone())
+            .map_err(|err| ConsensusError::CryptoErr(format!("{:?}", err)))
+    }
+
     /// Check whether the given address is included in the corresponding authority list.
     fn verify_address(&self, address: &Address) -> ConsensusResult<()> {
         if !self.authority.contains(address) {
-- 
2.43.0


From b826b13fc189a07c76470943740b701593de4d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:05 +0000
Subject: [PATCH 25/25] fix: keep the back-off of timeouts in rounds beyond 32
 bits

---
 src/timer.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/timer.rs b/src/timer.rs
index 9b98935..946fde0 100644
--- a/src/timer.rs
+++ b/src/timer.rs
@@ -149,10 +149,7 @@ impl Timer {
 
         let mut interval = self.config.get_timeout(event.clone())?;
         if !is_brake_timer {
-            let mut coef = self.round as u32;
-            if coef > MAX_TIMEOUT_COEF {
-                coef = MAX_TIMEOUT_COEF;
-            }
+            let coef = self.round.min(u64::from(MAX_TIMEOUT_COEF)) as u32;
             interval *= 2u32.pow(coef);
         }
 
-- 
2.43.0

