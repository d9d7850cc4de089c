From 9dce054a295acfcad38de9910fc273ab18c52298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 01/19] fix: credit the ninth player's wins and ties

The winner mask was eight bits wide, so with nine players the last one's
bit was shifted out: its wins went to no one and its equity was always 0.
---
 src/equity_calculator/simulator.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 4448a14..cf69c66 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -542,7 +542,8 @@ pub struct UnitResults {
 }
 
 impl Default for UnitResults {
-    fn default() -> Self {
+    fn default() -> Self {
+
         UnitResults { 
             wins: 0, 
             ties: 0, 
@@ -555,7 +556,8 @@ impl Default for UnitResults {
             rank: u8::MAX, 
             draw: 0,
             valid: false
-        }
+        }
+
     }
 }
 
@@ -1253,9 +1255,9 @@ impl Simulator {
         flush_possible: bool,
     ) {
         // evaulate hands
-        let mut winner_mask: u8 = 0;
+        let mut winner_mask: u16 = 0;
         let mut best_score: u16 = 0;
-        let mut player_mask: u8 = 1;
+        let mut player_mask: u16 = 1;
         let mut counter: usize = 0;
         let mut indexes: [usize; MAX_PLAYERS] = [0; MAX_PLAYERS];
 
-- 
2.43.0


From a8446031e593ba54ec59f9d1e09b2251d1512151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 02/19] fix: do not round split pots down to whole units

A tied weight that the number of winners does not divide lost its
fraction, so equities were too low (0 for a three-way tie of weight 1).
---
 src/equity_calculator/simulator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index cf69c66..14cd004 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1137,9 +1137,9 @@ impl Simulator {
                         }
                     } else {
                         results.ties[batch.player_ids[j]] +=
-                            (batch.wins_by_mask[i] / winner_count) as f64;
+                            batch.wins_by_mask[i] as f64 / winner_count as f64;
                         if batch.player_ids[j] == 0 {
-                            batch_equity += (batch.wins_by_mask[i] / winner_count) as f64;
+                            batch_equity += batch.wins_by_mask[i] as f64 / winner_count as f64;
                         }
                     }
                     actual_player_mask |= 1 << batch.player_ids[j];
-- 
2.43.0


From 426cfb25b01c04b3d0c9ebf7bd7f89343e27dc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 03/19] fix: never report more than 100% progress

approx_equity's callback is documented to take 0-100% but was given up
to 255 when the batch deviation was below the target.
---
 src/equity_calculator/simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 14cd004..732074c 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1159,7 +1159,7 @@ impl Simulator {
                 .sqrt()
                 / results.batch_count;
 
-            let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0) as u8;
+            let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0).min(100.0) as u8;
             tx.send(progress).unwrap();
 
             // calc variance
-- 
2.43.0


From c84ecb5bae35e1bab0f827911ad029a7c54d59ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 04/19] fix: do not count an empty final batch as a sample

Every thread of approx_equity ended by adding a batch without evaluations,
of equity 0, which made the reported stdev meaningless.
---
 src/equity_calculator/simulator.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 732074c..381f09d 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1150,6 +1150,10 @@ impl Simulator {
         batch_equity /= (batch_hands as f64) + 1e-9;
 
         results.eval_count += batch.eval_count;
+        if !self.calc_exact && batch.eval_count == 0 {
+            // nothing was sampled: not a batch
+            return;
+        }
         if !self.calc_exact {
             results.batch_sum += batch_equity;
             results.batch_sum2 += batch_equity * batch_equity;
-- 
2.43.0


From d8af0f447ef0fc73fcd8668cd42a0d91628a2186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 05/19] fix: do not stop a simulation on the deviation of its
 first batch

The deviation of one batch is 0, so approx_equity stopped after its first
4096 samples whatever stdev_target it was given (the cause of the flaky
test_approx_weighted).
---
 src/equity_calculator/simulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 381f09d..0520119 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -27,6 +27,8 @@ const MAX_PLAYERS: usize = 9;
 const BOARD_CARDS: u32 = 5;
 const NUM_HANDS: usize = 1326;
 const NUM_COMBOS: usize = 169;
+/// Batches needed before their deviation says anything about the error
+const MIN_BATCHES: f64 = 10.0;
 
 #[derive(Debug, Clone)]
 pub enum SimulatorError {
@@ -1167,7 +1169,7 @@ impl Simulator {
             tx.send(progress).unwrap();
 
             // calc variance
-            if !finished && results.stdev < self.stdev_target {
+            if !finished && results.batch_count >= MIN_BATCHES && results.stdev < self.stdev_target {
                 self.stopped.store(true, std::sync::atomic::Ordering::SeqCst);
             }
         } else {
-- 
2.43.0


From a2614ba6643587d12f8759de4401eb33cbe043bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 06/19] fix: leave the equity of a hand that was never dealt at
 0, not NaN

Hands outside a player's range came back with a NaN equity.
---
 src/equity_calculator/simulator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 0520119..2e71510 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -585,7 +585,9 @@ impl AddAssign for UnitResults {
         self.ties += other.ties;
         self.total += other.total;
         self.corrected_ties += other.corrected_ties;
-        self.equity = (self.wins as f64+self.corrected_ties)/self.total as f64;
+        if self.total > 0 {
+            self.equity = (self.wins as f64+self.corrected_ties)/self.total as f64;
+        }
     }
 }
 
-- 
2.43.0


From 6ea2a64ec3d278532367f03a71f745c112ea7a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:40 +0000
Subject: [PATCH 07/19] fix: reject an overlong weight instead of overflowing

Parsing 'AA@99999999999' panicked in a debug build and took an arbitrary
weight in a release build.
---
 src/hand_range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index 4992e4c..425388a 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -222,8 +222,8 @@ impl HandRange {
             let digit = self.char_vec[*i].to_digit(10);
             match digit {
                 Some(num) => {
-                    number *= 10;
-                    number += num;
+                    // anything above 100 is rejected below
+                    number = (number * 10 + num).min(101);
                     *i += 1;
                 }
                 None => {
-- 
2.43.0


From ba10f7f87f7b3d78db09233d184c256d8623f650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:40 +0000
Subject: [PATCH 08/19] fix: a range without digits after '@' has the default
 weight

'AA@' was given weight 0, although from_strings documents 100 when no
weight is specified.
---
 src/hand_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index 425388a..7a77b59 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -227,7 +227,7 @@ impl HandRange {
                     *i += 1;
                 }
                 None => {
-                    if number > 100 {
+                    if number > 100 || *i == backtrack {
                         *i = backtrack;
                         return false;
                     } else {
-- 
2.43.0


From 397e925a48e3855bf5fa7f22b4cf5dc94b168275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:40 +0000
Subject: [PATCH 09/19] fix: return an error for a card text with an unknown
 rank or suit

card_from_str and flop_from_str panicked on it in a debug build, and
returned a card that does not exist in a release build.
---
 src/hand_range.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index 7a77b59..25055f4 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -461,6 +461,10 @@ pub fn card_from_chars<T: Iterator<Item = char>>(chars: &mut T) -> Result<u8, St
     let rank = char_to_rank(rank_char);
     let suit = char_to_suit(suit_char);
 
+    if rank == u8::MAX || suit == u8::MAX {
+        return Err("Invalid card".to_string());
+    }
+
     Ok(4 * rank + suit)
 }
 
-- 
2.43.0


From b663de9b6c1e4f28df1d2c46d674ce2adea2c96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:49 +0000
Subject: [PATCH 10/19] fix: accept a dash range of pairs from low to high

'22-55' gave no hands, while '55-22' and 'A2-A5' both work.
---
 src/hand_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index 25055f4..bb958a7 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -338,7 +338,7 @@ impl HandRange {
 
     fn add_combos_dash(&mut self, rank1: u8, rank2: u8, rank3: u8, rank4: u8, suited: bool, offsuited: bool, weight: u8){
         if rank1 == rank2 {
-            for r in rank3..=rank1{
+            for r in rank1.min(rank3)..=rank1.max(rank3){
                 self.add_combos(r, r, suited, offsuited, weight);
             }
         } else {
-- 
2.43.0


From ee05796b97fa9cb1a51b1aacd5870f99ad78ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:49 +0000
Subject: [PATCH 11/19] fix: saturate the number of hole card combinations

With seven or more wide ranges the product does not fit in 64 bits:
exact_equity panicked in a debug build and could end at once in a release
build.
---
 src/equity_calculator/simulator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 2e71510..e6604e8 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -974,7 +974,7 @@ impl Simulator {
     fn get_preflop_combo_count(&self) -> u64 {
         let mut combo_count = 1u64;
         for c in &self.combined_ranges {
-            combo_count *= c.size() as u64;
+            combo_count = combo_count.saturating_mul(c.size() as u64);
         }
         combo_count
     }
-- 
2.43.0


From cce5533376ad26c9d79ab6d232f85ac62f03d87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:49 +0000
Subject: [PATCH 12/19] fix: reduce weights before multiplying them over the
 players

Every showdown counted 100 per player, 100^9 for nine players, so that the
64 bit totals overflowed after 19 showdowns with nine players (and after
1845 with eight): a panic in a debug build, random equities in a release
build.
---
 src/equity_calculator/simulator.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index e6604e8..cdfe259 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -93,7 +93,7 @@ pub fn exact_equity<F: Fn(u8)>(
     hand_ranges
         .iter_mut()
         .for_each(|h| h.remove_conflicting_combos(board_mask, dead_mask));
-    let combined_ranges = CombinedRange::from_ranges(&hand_ranges);
+    let combined_ranges = CombinedRange::from_ranges(&sampling_ranges(&hand_ranges));
     for cr in &combined_ranges {
         if cr.size() == 0 {
             return Err(SimulatorError::ConflictingRanges);
@@ -201,7 +201,7 @@ pub fn approx_equity<F: Fn(u8)>(
     hand_ranges
         .iter_mut()
         .for_each(|h| h.remove_conflicting_combos(board_mask, dead_mask));
-    let mut combined_ranges = CombinedRange::from_ranges(&hand_ranges);
+    let mut combined_ranges = CombinedRange::from_ranges(&sampling_ranges(&hand_ranges));
     for cr in &mut combined_ranges {
         if cr.size() == 0 {
             return Err(SimulatorError::ConflictingRanges);
@@ -255,6 +255,25 @@ pub fn approx_equity<F: Fn(u8)>(
     Ok(results)
 }
 
+/// The ranges to draw hands from, with the smallest weights that have the same
+/// proportions, so that the product of all players' weights stays small.
+fn sampling_ranges(hand_ranges: &[HandRange]) -> Vec<HandRange> {
+    let mut ranges = hand_ranges.to_vec();
+    for range in &mut ranges {
+        let divisor = range.hands.iter().fold(0, |mut a, hand| {
+            let mut b = hand.2;
+            while b != 0 {
+                (a, b) = (b, a % b);
+            }
+            a
+        });
+        if divisor > 1 {
+            range.hands.iter_mut().for_each(|hand| hand.2 /= divisor);
+        }
+    }
+    ranges
+}
+
 /// Stores total results of the simulation
 #[derive(Debug, Clone)]
 pub struct SimulationResults {
-- 
2.43.0


From 48e044e215e445ef2f3fff0fdd8f66d985a62f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:49 +0000
Subject: [PATCH 13/19] fix: never deal a hand of weight 0

If all of a player's hands had weight 0, the equities were NaN instead of
an error.
---
 src/equity_calculator/simulator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index cdfe259..e9f827e 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -255,11 +255,12 @@ pub fn approx_equity<F: Fn(u8)>(
     Ok(results)
 }
 
-/// The ranges to draw hands from, with the smallest weights that have the same
+/// The ranges to draw hands from, without the hands of weight 0 and with the smallest weights that have the same
 /// proportions, so that the product of all players' weights stays small.
 fn sampling_ranges(hand_ranges: &[HandRange]) -> Vec<HandRange> {
     let mut ranges = hand_ranges.to_vec();
     for range in &mut ranges {
+        range.hands.retain(|hand| hand.2 > 0);
         let divisor = range.hands.iter().fold(0, |mut a, hand| {
             let mut b = hand.2;
             while b != 0 {
-- 
2.43.0


From 275b230231a405b7978ff6ba3c85078b0a645194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:49 +0000
Subject: [PATCH 14/19] fix: report an error when no hands could be dealt at
 all

Ranges that conflict only jointly gave NaN equities.
---
 src/equity_calculator/simulator.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index e9f827e..486d563 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -136,6 +136,10 @@ pub fn exact_equity<F: Fn(u8)>(
     sim.fix_hand_weights(flag);
     let results = Arc::try_unwrap(sim).unwrap().results;
     let mut results = results.into_inner().unwrap();
+    if results.eval_count == 0 {
+        // the ranges leave no way to deal everyone a hand
+        return Err(SimulatorError::ConflictingRanges);
+    }
     results.get_equity();
     results.generate_final_data();
     if board_mask.count_ones() > 2 {
@@ -247,6 +251,10 @@ pub fn approx_equity<F: Fn(u8)>(
     sim.fix_hand_weights(flag);
     let results = Arc::try_unwrap(sim).unwrap().results;
     let mut results = results.into_inner().unwrap();
+    if results.eval_count == 0 {
+        // the ranges leave no way to deal everyone a hand
+        return Err(SimulatorError::ConflictingRanges);
+    }
     results.get_equity();
     results.generate_final_data();
     if board_mask.count_ones() > 2 {
-- 
2.43.0


From 003577d0601fde46ff3becf11c7b0eea990fb5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:49 +0000
Subject: [PATCH 15/19] fix: leave the caller's cancel token alone

approx_equity set it when it reached its precision, which cancelled every
other calculation that shares the token, and any later one.
---
 src/equity_calculator/simulator.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 486d563..b77b3ca 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -680,7 +680,9 @@ struct Simulator {
     /// number of players
     n_players: usize,
     /// has monte carlo sim stopped
-    stopped: Arc<AtomicBool>,
+    stopped: AtomicBool,
+    /// set by the caller to stop the simulation
+    cancel_token: Arc<AtomicBool>,
     /// final results
     results: RwLock<SimulationResults>,
     /// target stdev from each batch for monte carlo
@@ -711,7 +713,8 @@ impl Simulator {
             fixed_board,
             n_players,
             calc_exact,
-            stopped: cancel_token,
+            stopped: AtomicBool::new(false),
+            cancel_token,
             enum_pos: Mutex::new(0u64),
             results: RwLock::new(SimulationResults::init(n_players)),
             stdev_target,
@@ -785,7 +788,7 @@ impl Simulator {
                 self.update_results(&tx, stats, hand_stats, false);
                 stats = SimulationResultsBatch::init(self.n_players);
                 hand_stats = vec![UnitResults::default(); self.n_players*NUM_HANDS];
-                if self.stopped.load(std::sync::atomic::Ordering::SeqCst) {
+                if self.is_stopped() {
                     break;
                 }
             }
@@ -990,6 +993,11 @@ impl Simulator {
         }
     }
 
+    fn is_stopped(&self) -> bool {
+        self.stopped.load(std::sync::atomic::Ordering::SeqCst)
+            || self.cancel_token.load(std::sync::atomic::Ordering::SeqCst)
+    }
+
     fn reserve_batch(&self, batch_size: u64) -> (u64, u64) {
         let total_batch_count = self.get_preflop_combo_count();
         let mut enum_pos = self.enum_pos.lock().unwrap();
@@ -1067,7 +1075,7 @@ impl Simulator {
                     self.update_results(&tx, batch, hand_stats, false);
                     hand_stats = vec![UnitResults::default(); NUM_HANDS*self.n_players];
                     batch = SimulationResultsBatch::init(self.n_players);
-                    if self.stopped.load(std::sync::atomic::Ordering::SeqCst) {
+                    if self.is_stopped() {
                         break;
                     }
                     if !self.randomize_hole_cards(
-- 
2.43.0


From 2b1a6d3c72c8f8e19dcec2293659bf538e32dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:58 +0000
Subject: [PATCH 16/19] hooks: observation points for the verification harness,
 under cfg pokers_verif

---
 src/equity_calculator/simulator.rs | 51 ++++++++++++++++++++++++++--
 src/lib.rs                         |  5 +++
 src/verif.rs                       | 53 ++++++++++++++++++++++++++++++
 3 files changed, 107 insertions(+), 2 deletions(-)
 create mode 100644 src/verif.rs

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index b77b3ca..8b89ad0 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -16,6 +16,8 @@ use rand::rngs::SmallRng;
 use rand::{rng, Rng, SeedableRng};
 
 use super::CombinedRange;
+#[cfg(pokers_verif)]
+use crate::verif::{emit, Event};
 use crate::constants::{CARD_COUNT, SUIT_COUNT, HAND_CATEGORY_OFFSET};
 use crate::hand_evaluator::{get_card_index, Hand, CARDS};
 use crate::hand_range::HandRange;
@@ -768,6 +770,9 @@ impl Simulator {
                 }
             }
 
+            #[cfg(pokers_verif)]
+            emit(|| Event::Examined { pos: enum_pos, dealt: ok });
+
             if ok {
                 let mut weight = 1u64;
                 for hand in &player_hands[0..self.n_players] {
@@ -796,6 +801,8 @@ impl Simulator {
         }
 
         self.update_results(&tx, stats, hand_stats, true);
+        #[cfg(pokers_verif)]
+        emit(|| Event::WorkerEnd);
     }
 
     fn enumerate_board(
@@ -994,16 +1001,25 @@ impl Simulator {
     }
 
     fn is_stopped(&self) -> bool {
-        self.stopped.load(std::sync::atomic::Ordering::SeqCst)
-            || self.cancel_token.load(std::sync::atomic::Ordering::SeqCst)
+        let stop = self.stopped.load(std::sync::atomic::Ordering::SeqCst)
+            || self.cancel_token.load(std::sync::atomic::Ordering::SeqCst);
+        #[cfg(pokers_verif)]
+        emit(|| Event::StopCheck { stop });
+        stop
     }
 
     fn reserve_batch(&self, batch_size: u64) -> (u64, u64) {
         let total_batch_count = self.get_preflop_combo_count();
+        #[cfg(pokers_verif)]
+        emit(|| Event::ReserveWant);
         let mut enum_pos = self.enum_pos.lock().unwrap();
         let start = *enum_pos;
+        #[cfg(pokers_verif)]
+        emit(|| Event::ReserveRead { pos: start });
         let end = std::cmp::min(total_batch_count, *enum_pos + batch_size);
         *enum_pos = end;
+        #[cfg(pokers_verif)]
+        emit(|| Event::Reserved { start, end, total: total_batch_count });
         (start, end)
     }
 
@@ -1117,6 +1133,8 @@ impl Simulator {
             }
         }
         self.update_results(&tx, batch, hand_stats, true);
+        #[cfg(pokers_verif)]
+        emit(|| Event::WorkerEnd);
     }
 
     fn randomize_hole_cards<R: Rng>(
@@ -1157,8 +1175,12 @@ impl Simulator {
     }
 
     fn update_results(&self, tx: &Sender<u8>, batch: SimulationResultsBatch, hand_batch: Vec<UnitResults>, finished: bool) {
+        #[cfg(pokers_verif)]
+        emit(|| Event::HandInWant { evals: batch.eval_count, last: finished });
         // get lock
         let mut results = self.results.write().unwrap();
+        #[cfg(pokers_verif)]
+        emit(|| Event::HandInLocked);
         let mut batch_hands = 0u64;
         let mut batch_equity = 0f64;
         for (ri, bi) in results.hand_results.iter_mut().zip(hand_batch) {
@@ -1192,6 +1214,8 @@ impl Simulator {
         results.eval_count += batch.eval_count;
         if !self.calc_exact && batch.eval_count == 0 {
             // nothing was sampled: not a batch
+            #[cfg(pokers_verif)]
+            self.emit_hand_in(&results, batch.eval_count, finished, None);
             return;
         }
         if !self.calc_exact {
@@ -1210,12 +1234,29 @@ impl Simulator {
             if !finished && results.batch_count >= MIN_BATCHES && results.stdev < self.stdev_target {
                 self.stopped.store(true, std::sync::atomic::Ordering::SeqCst);
             }
+            #[cfg(pokers_verif)]
+            self.emit_hand_in(&results, batch.eval_count, finished, Some(progress));
         } else {
             let progress = (*self.enum_pos.lock().unwrap() as f64 / self.get_preflop_combo_count() as f64 * 100.0) as u8;
             tx.send(progress).unwrap();
+            #[cfg(pokers_verif)]
+            self.emit_hand_in(&results, batch.eval_count, finished, Some(progress));
         }
     }
 
+    #[cfg(pokers_verif)]
+    fn emit_hand_in(&self, results: &SimulationResults, evals: u64, last: bool, progress: Option<u8>) {
+        emit(|| Event::HandIn {
+            evals,
+            last,
+            eval_count: results.eval_count,
+            batch_count: results.batch_count,
+            stdev: results.stdev,
+            progress,
+            stop: self.stopped.load(std::sync::atomic::Ordering::SeqCst),
+        });
+    }
+
     fn set_ranks(&self) {
         let mut results = self.results.write().unwrap();
         let board = Hand::from_bit_mask(self.board_mask);
@@ -1298,6 +1339,12 @@ impl Simulator {
         hand_results: &mut Vec<UnitResults>,
         flush_possible: bool,
     ) {
+        #[cfg(pokers_verif)]
+        emit(|| Event::Deal {
+            hands: (0..self.n_players).map(|i| lookup[i] - NUM_HANDS * i).collect(),
+            board: board.get_mask(),
+            weight,
+        });
         // evaulate hands
         let mut winner_mask: u16 = 0;
         let mut best_score: u16 = 0;
diff --git a/src/lib.rs b/src/lib.rs
index a3e461b..2000685 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -43,6 +43,8 @@
 //! let rank = final_score / 4096; // or final_score >> 12
 //! ```
 
+#![allow(unexpected_cfgs)]
+
 pub mod constants;
 pub mod hand_evaluator;
 pub mod hand_range;
@@ -55,6 +57,9 @@ pub mod flush_lookup;
 pub mod hash_offsets;
 pub mod map;
 
+#[cfg(pokers_verif)]
+pub mod verif;
+
 pub use hand_range::{HandRange, get_card_mask};
 pub use equity_calculator::{exact_equity, approx_equity, SimulationResults, UnitResults, SimulatorError};
 pub use hand_evaluator::*;
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..b1470c0
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,53 @@
+//! Observation points for the verification harness.
+//!
+//! Only compiled with `--cfg pokers_verif`. A harness installs a sink, which is called at each point on the thread
+//! that reached it, and which may block to choose how threads interleave. Without a sink nothing happens.
+
+use std::sync::atomic::{AtomicBool, Ordering};
+use std::sync::{Arc, RwLock};
+
+#[derive(Debug, Clone)]
+pub enum Event {
+    /// about to take the next portion of the hole card combinations
+    ReserveWant,
+    /// the position has been read, and not yet moved (lock held)
+    ReserveRead { pos: u64 },
+    /// the combinations start..end of total were taken (lock held)
+    Reserved { start: u64, end: u64, total: u64 },
+    /// a combination was looked at; it is dealt if no two of its hands share a card
+    Examined { pos: u64, dealt: bool },
+    /// hands were compared: indices of the players' hands, the mask of the full board, the weight counted
+    Deal { hands: Vec<usize>, board: u64, weight: u64 },
+    /// about to hand in what was counted
+    HandInWant { evals: u64, last: bool },
+    /// the results are locked, and not yet changed
+    HandInLocked,
+    /// the results were changed (lock held)
+    HandIn { evals: u64, last: bool, eval_count: u64, batch_count: f64, stdev: f64, progress: Option<u8>, stop: bool },
+    /// a worker asked whether to stop
+    StopCheck { stop: bool },
+    /// a worker is done
+    WorkerEnd,
+}
+
+type Sink = Arc<dyn Fn(Event) + Send + Sync>;
+
+static ACTIVE: AtomicBool = AtomicBool::new(false);
+static SINK: RwLock<Option<Sink>> = RwLock::new(None);
+
+/// Installs a sink, or removes it
+pub fn set_sink(sink: Option<Sink>) {
+    ACTIVE.store(sink.is_some(), Ordering::SeqCst);
+    *SINK.write().unwrap() = sink;
+}
+
+/// Calls the sink, if there is one
+#[inline(always)]
+pub fn emit(event: impl FnOnce() -> Event) {
+    if ACTIVE.load(Ordering::Relaxed) {
+        let sink = SINK.read().unwrap().clone();
+        if let Some(sink) = sink {
+            sink(event());
+        }
+    }
+}
-- 
2.43.0


From f8aa226d4b862b1680879dc8cff57916b990746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:12 +0000
Subject: [PATCH 17/19] fix: heed the cancel token while hardly any hands can
 be dealt together

A worker of an exact calculation handed in, and looked at the token, only after
10000 evaluations. With ranges that hardly ever fit together (say five players
who all hold an ace) it went through billions of combinations without one.
---
 src/equity_calculator/simulator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 8b89ad0..16c4429 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -31,6 +31,8 @@ const NUM_HANDS: usize = 1326;
 const NUM_COMBOS: usize = 169;
 /// Batches needed before their deviation says anything about the error
 const MIN_BATCHES: f64 = 10.0;
+/// Combinations of hands to look at before handing in, even if hardly any of them can be dealt
+const MAX_EXAMINED: u64 = 1000000;
 
 #[derive(Debug, Clone)]
 pub enum SimulatorError {
@@ -737,6 +739,7 @@ impl Simulator {
         let postflop_combos = self.get_postflop_combo_count();
 
         // let randomize_order = postflop_combos > 10000 && preflop_combos <= 2 * MAX_LOOKUP_SIZE;
+        let mut examined = 0u64;
         loop {
             if enum_pos >= enum_end {
                 let batch_size = std::cmp::max(2000000 / postflop_combos, 1);
@@ -789,7 +792,9 @@ impl Simulator {
                 );
             }
 
-            if stats.eval_count >= 10000  {
+            examined += 1;
+            if stats.eval_count >= 10000 || examined >= MAX_EXAMINED {
+                examined = 0;
                 self.update_results(&tx, stats, hand_stats, false);
                 stats = SimulationResultsBatch::init(self.n_players);
                 hand_stats = vec![UnitResults::default(); self.n_players*NUM_HANDS];
-- 
2.43.0


From 13501ab5069c8cfd117586b787cc4930bbf94d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:13 +0000
Subject: [PATCH 18/19] fix: keep the reported deviation a number when all
 batches are alike

The rounding errors of the sums add up over thousands of equal batches and
made the variance 0 or negative: the calculation then stopped above its target,
with NaN as the deviation.
---
 src/equity_calculator/simulator.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/equity_calculator/simulator.rs b/src/equity_calculator/simulator.rs
index 16c4429..a8b58ac 100644
--- a/src/equity_calculator/simulator.rs
+++ b/src/equity_calculator/simulator.rs
@@ -1227,9 +1227,11 @@ impl Simulator {
             results.batch_sum += batch_equity;
             results.batch_sum2 += batch_equity * batch_equity;
             results.batch_count += 1.0;
-            results.stdev = (1e-9 + results.batch_sum2
+            // never below 0, but for rounding
+            let variance_sum = (results.batch_sum2
                 - results.batch_sum * results.batch_sum / results.batch_count)
-                .sqrt()
+                .max(0.0);
+            results.stdev = (1e-9 + variance_sum).sqrt()
                 / results.batch_count;
 
             let progress = (1.0 / (results.stdev / self.stdev_target).powi(2) * 100.0).min(100.0) as u8;
-- 
2.43.0


From 9d41607bda137cf1d0857cbed5a9b005e1516846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:41 +0000
Subject: [PATCH 19/19] fix: 'random' is read in any letter case, like every
 other range text

---
 src/hand_range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hand_range.rs b/src/hand_range.rs
index bb958a7..2b8e94f 100644
--- a/src/hand_range.rs
+++ b/src/hand_range.rs
@@ -134,7 +134,7 @@ impl HandRange {
     pub fn from_string(text: String) -> Self {
         let mut range: HandRange = HandRange::new();
 
-        if text == "random" {
+        if text.eq_ignore_ascii_case("random") {
             range.add_all();
         } else {
             range.char_vec = text.to_lowercase().chars().collect();
-- 
2.43.0

