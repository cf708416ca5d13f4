From 111efd4e03ee1ecdb3630fe4751f3de5623861ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:29 +0000
Subject: [PATCH 01/11] fix: oracle observations continue from the last
 observation and record the tick that was active

swap recorded the post-swap tick, update() transformed the stale contents of the next slot instead
of the last observation, the returned cardinality was stored in observation_cardinality_next, and
swap never moved observation_index.
---
 programs/core/src/lib.rs           | 12 +++++++++---
 programs/core/src/states/oracle.rs | 14 ++++++++++----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 6c2171a..c902456 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1276,6 +1276,7 @@ pub mod cyclos_core {
         }
         let partition_current_timestamp = cache.block_timestamp / 14;
         let partition_last_timestamp = latest_observation.block_timestamp / 14;
+        let last_observation = *latest_observation;
         drop(latest_observation);
 
         // update tick and write an oracle entry if the tick changes
@@ -1301,14 +1302,17 @@ pub mod cyclos_core {
             } else {
                 last_observation_state.load_mut()?
             };
-            pool.tick = state.tick;
-            pool.observation_cardinality_next = next_observation.update(
+            // the observation records the tick that was active until this swap
+            pool.observation_cardinality = next_observation.update(
+                last_observation,
                 cache.block_timestamp,
                 pool.tick,
                 cache.liquidity_start,
                 pool.observation_cardinality,
                 pool.observation_cardinality_next,
             );
+            pool.observation_index = next_observation.index;
+            pool.tick = state.tick;
         }
         pool.sqrt_price_x32 = state.sqrt_price_x32;
 
@@ -2206,6 +2210,7 @@ pub fn _modify_position<'info>(
             let timestamp = oracle::_block_timestamp();
             let partition_current_timestamp = timestamp / 14;
             let partition_last_timestamp = latest_observation.block_timestamp / 14;
+            let last_observation = *latest_observation;
             drop(latest_observation);
 
             let next_observation_state;
@@ -2224,7 +2229,8 @@ pub fn _modify_position<'info>(
                 last_observation_state.load_mut()?
             };
 
-            pool_state.observation_cardinality_next = new_observation.update(
+            pool_state.observation_cardinality = new_observation.update(
+                last_observation,
                 timestamp,
                 pool_state.tick,
                 pool_state.liquidity,
diff --git a/programs/core/src/states/oracle.rs b/programs/core/src/states/oracle.rs
index 8614b3a..a4a1784 100644
--- a/programs/core/src/states/oracle.rs
+++ b/programs/core/src/states/oracle.rs
@@ -79,27 +79,33 @@ impl ObservationState {
     /// # Arguments
     ///
     /// * `self` - The observation account to write in
+    /// * `last` - The most recently written observation. Can be the same account as `self`
     /// * `block_timestamp` - The timestamp of the new observation
-    /// * `tick` - The active tick at the time of the new observation
+    /// * `tick` - The tick which was active since the last observation
     /// * `liquidity` - The total in-range liquidity at the time of the new observation
     /// * `cardinality` - The number of populated elements in the oracle array
     /// * `cardinality_next` - The new length of the oracle array, independent of population
     ///
     pub fn update(
         &mut self,
+        last: ObservationState,
         block_timestamp: u32,
         tick: i32,
         liquidity: u64,
         cardinality: u16,
         cardinality_next: u16,
     ) -> u16 {
-        if self.block_timestamp == block_timestamp {
+        if last.block_timestamp == block_timestamp {
             return cardinality;
         }
 
-        *self = self.transform(block_timestamp, tick, liquidity);
+        *self = ObservationState {
+            bump: self.bump,
+            index: self.index,
+            ..last.transform(block_timestamp, tick, liquidity)
+        };
 
-        if cardinality_next > cardinality && self.index == (cardinality - 1) {
+        if cardinality_next > cardinality && self.index == cardinality {
             cardinality_next
         } else {
             cardinality
-- 
2.43.0


From ff5d4a6d65d5a084fc7ba773885591af37e0c327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:30 +0000
Subject: [PATCH 02/11] fix: exact_input measures the swap output instead of
 the input

exact_input_internal returned the increase of the input vault, so amount_out_minimum was compared
against the input and multi-hop swaps fed the input amount of one pool into the next.
---
 programs/core/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index c902456..b931d6e 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -2097,7 +2097,7 @@ pub fn exact_input_internal<'info>(
     let pool_state = AccountLoader::<PoolState>::try_from(&accounts.pool_state)?;
     let zero_for_one = accounts.input_vault.mint == pool_state.load()?.token_0;
 
-    let balance_before = accounts.input_vault.amount;
+    let balance_before = accounts.output_vault.amount;
     swap(
         Context::new(&ID, accounts, remaining_accounts, BTreeMap::default()),
         i64::try_from(amount_in).unwrap(),
@@ -2112,8 +2112,8 @@ pub fn exact_input_internal<'info>(
         },
     )?;
 
-    accounts.input_vault.reload()?;
-    Ok(accounts.input_vault.amount - balance_before)
+    accounts.output_vault.reload()?;
+    Ok(balance_before - accounts.output_vault.amount)
 }
 
 /// Common checks for a valid tick input.
-- 
2.43.0


From ed4c0b5fce552659d41d37c0124c8ec083a18b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:49 +0000
Subject: [PATCH 03/11] fix: removing token_0 does not fail when amount * sqrt
 price exceeds u64

An exact output swap was refused although the reserves sufficed, since the product was computed in
u64.
---
 programs/core/src/libraries/sqrt_price_math.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/programs/core/src/libraries/sqrt_price_math.rs b/programs/core/src/libraries/sqrt_price_math.rs
index 0452d87..11d53a3 100644
--- a/programs/core/src/libraries/sqrt_price_math.rs
+++ b/programs/core/src/libraries/sqrt_price_math.rs
@@ -73,10 +73,9 @@ pub fn get_next_sqrt_price_from_amount_0_rounding_up(
         )
         .as_u64()
     } else {
-        // if the product overflows, we know the denominator underflows
-        // in addition, we must check that the denominator does not underflow
-        // assert!(product / amount == sqrt_p_x32 && numerator_1 > product);
-        let product = U128::from(amount.checked_mul(sqrt_p_x32).unwrap());
+        // the product of two u64 always fits in U128 and can legitimately exceed u64.
+        // we must check that the denominator does not underflow
+        let product = U128::from(amount) * U128::from(sqrt_p_x32);
         assert!(numerator_1 > product);
 
         let denominator = numerator_1 - product;
-- 
2.43.0


From 8273d17368f05d26c4a2e77d423cd767baa340c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:39 +0000
Subject: [PATCH 04/11] fix: decrease_liquidity credits only the burned amount
 to the tokenized position

The amounts were measured as the increase of tokens owed to the core position, which includes fees
accrued by all tokenized positions of the same range. They inflated the amounts compared to the
slippage limits and were credited on top of the position's own fees.
---
 programs/core/src/lib.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index b931d6e..691491e 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1751,8 +1751,7 @@ pub mod cyclos_core {
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
         )?;
-        let tokens_owed_0_before = position_state.load()?.tokens_owed_0;
-        let tokens_owed_1_before = position_state.load()?.tokens_owed_1;
+        let core_position_before = *position_state.load()?.deref();
 
         let mut core_position_owner = ctx.accounts.factory_state.to_account_info();
         core_position_owner.is_signer = true;
@@ -1776,8 +1775,21 @@ pub mod cyclos_core {
             liquidity,
         )?;
         let updated_core_position = accounts.position_state.load()?;
-        let amount_0 = updated_core_position.tokens_owed_0 - tokens_owed_0_before;
-        let amount_1 = updated_core_position.tokens_owed_1 - tokens_owed_1_before;
+
+        // burn also credits the fees accrued by the core position, which is shared by all NFTs
+        // having the same range. They are not part of the burned amount
+        let fees_0 = (updated_core_position.fee_growth_inside_0_last_x32
+            - core_position_before.fee_growth_inside_0_last_x32)
+            .mul_div_floor(core_position_before.liquidity, fixed_point_32::Q32)
+            .unwrap();
+        let fees_1 = (updated_core_position.fee_growth_inside_1_last_x32
+            - core_position_before.fee_growth_inside_1_last_x32)
+            .mul_div_floor(core_position_before.liquidity, fixed_point_32::Q32)
+            .unwrap();
+        let amount_0 =
+            updated_core_position.tokens_owed_0 - core_position_before.tokens_owed_0 - fees_0;
+        let amount_1 =
+            updated_core_position.tokens_owed_1 - core_position_before.tokens_owed_1 - fees_1;
         require!(
             amount_0 >= amount_0_min && amount_1 >= amount_1_min,
             ErrorCode::PriceSlippageCheck
-- 
2.43.0


From 12538423cd24e987fa1163a33245a24a2d213060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:44 +0000
Subject: [PATCH 05/11] fix: decrease_liquidity cannot remove more than the
 liquidity of the tokenized position

The subtraction wrapped around, which let the owner of an NFT withdraw the liquidity of other NFTs
having the same range.
---
 programs/core/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 691491e..6551f96 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1747,6 +1747,10 @@ pub mod cyclos_core {
         deadline: i64,
     ) -> Result<()> {
         assert!(liquidity > 0);
+        require!(
+            liquidity <= ctx.accounts.tokenized_position_state.load()?.liquidity,
+            ErrorCode::LS
+        );
 
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
-- 
2.43.0


From c190fb4bd7ffa90c3390eef2b14f5970d5405939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:49 +0000
Subject: [PATCH 06/11] fix: collect pays each token out of its own vault

The vaults were not validated, so that an amount owed in one token could be collected out of the
vault of the other.
---
 programs/core/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 6551f96..21b1b01 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -825,6 +825,15 @@ pub mod cyclos_core {
             AccountLoader::<PoolState>::try_from(&ctx.accounts.pool_state.to_account_info())?;
         let mut pool = pool_state.load_mut()?;
 
+        assert!(
+            ctx.accounts.vault_0.key()
+                == get_associated_token_address(&pool_state.key(), &pool.token_0)
+        );
+        assert!(
+            ctx.accounts.vault_1.key()
+                == get_associated_token_address(&pool_state.key(), &pool.token_1)
+        );
+
         let tick_lower_state =
             AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state.to_account_info())?;
         let tick_lower = *tick_lower_state.load()?.deref();
-- 
2.43.0


From 2f22b05cfbd5d7c085346c0abbc42ffdd72e33db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 07/11] fix: burn event reports the upper tick

---
 programs/core/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 21b1b01..bb9a156 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -794,7 +794,7 @@ pub mod cyclos_core {
             pool_state: ctx.accounts.pool_state.key(),
             owner: ctx.accounts.owner.key(),
             tick_lower: tick_lower.tick,
-            tick_upper: tick_lower.tick,
+            tick_upper: tick_upper.tick,
             amount,
             amount_0,
             amount_1,
-- 
2.43.0


From 91f5bdb3b16a7e4d51b4c999b9de12665d7990cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 08/11] fix: swap refuses a step whose input plus fee exceeds
 u64 instead of wrapping around

---
 programs/core/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index bb9a156..e1d14c4 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1188,9 +1188,9 @@ pub mod cyclos_core {
             step.amount_out = swap_step.amount_out;
             step.fee_amount = swap_step.fee_amount;
 
+            let amount_paid = step.amount_in.checked_add(step.fee_amount).unwrap();
             if exact_input {
-                state.amount_specified_remaining -=
-                    i64::try_from(step.amount_in + step.fee_amount).unwrap();
+                state.amount_specified_remaining -= i64::try_from(amount_paid).unwrap();
                 state.amount_calculated = state
                     .amount_calculated
                     .checked_sub(i64::try_from(step.amount_out).unwrap())
@@ -1199,7 +1199,7 @@ pub mod cyclos_core {
                 state.amount_specified_remaining += i64::try_from(step.amount_out).unwrap();
                 state.amount_calculated = state
                     .amount_calculated
-                    .checked_add(i64::try_from(step.amount_in + step.fee_amount).unwrap())
+                    .checked_add(i64::try_from(amount_paid).unwrap())
                     .unwrap();
             }
 
-- 
2.43.0


From e4ab138bd3540179d2bba737affd7d4df4e04649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:02 +0000
Subject: [PATCH 09/11] fix: mint payment check does not wrap around when vault
 balance plus amount exceeds u64

---
 programs/core/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index e1d14c4..56c80b8 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -667,13 +667,15 @@ pub mod cyclos_core {
 
         if amount_0 > 0 {
             require!(
-                balance_0_before + amount_0 <= ctx.accounts.vault_0.amount,
+                balance_0_before.checked_add(amount_0).unwrap()
+                    <= ctx.accounts.vault_0.amount,
                 ErrorCode::M0
             );
         }
         if amount_1 > 0 {
             require!(
-                balance_1_before + amount_1 <= ctx.accounts.vault_1.amount,
+                balance_1_before.checked_add(amount_1).unwrap()
+                    <= ctx.accounts.vault_1.amount,
                 ErrorCode::M1
             );
         }
-- 
2.43.0


From e532c19098872b9825e89e88a6df8035aedda30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 10/11] fix: tokenized positions can only be used with the pool
 and ticks they were minted for

increase_liquidity, decrease_liquidity and collect_from_tokenized accepted any pool and tick range,
so that the owner of one NFT could withdraw the liquidity and fees of NFTs in other ranges and pools.
---
 programs/core/src/lib.rs                      | 26 +++++++++++++++++++
 .../core/src/states/tokenized_position.rs     | 20 ++++++++++++++
 2 files changed, 46 insertions(+)

diff --git a/programs/core/src/lib.rs b/programs/core/src/lib.rs
index 56c80b8..943f4a0 100644
--- a/programs/core/src/lib.rs
+++ b/programs/core/src/lib.rs
@@ -1675,6 +1675,12 @@ pub mod cyclos_core {
             AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?;
         let tick_upper = tick_upper_state.load()?.tick;
 
+        ctx.accounts.tokenized_position_state.load()?.validate_range(
+            &pool_state.key(),
+            tick_lower,
+            tick_upper,
+        )?;
+
         let mut accs = MintContext {
             minter: ctx.accounts.payer.clone(),
             token_account_0: ctx.accounts.token_account_0.clone(),
@@ -1763,6 +1769,16 @@ pub mod cyclos_core {
             ErrorCode::LS
         );
 
+        let tick_lower_state =
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state.to_account_info())?;
+        let tick_upper_state =
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?;
+        ctx.accounts.tokenized_position_state.load()?.validate_range(
+            &ctx.accounts.pool_state.key(),
+            tick_lower_state.load()?.tick,
+            tick_upper_state.load()?.tick,
+        )?;
+
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
         )?;
@@ -1860,6 +1876,16 @@ pub mod cyclos_core {
         let mut tokens_owed_0 = tokenized_position.tokens_owed_0;
         let mut tokens_owed_1 = tokenized_position.tokens_owed_1;
 
+        let tick_lower_state =
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_lower_state.to_account_info())?;
+        let tick_upper_state =
+            AccountLoader::<TickState>::try_from(&ctx.accounts.tick_upper_state.to_account_info())?;
+        tokenized_position.validate_range(
+            &ctx.accounts.pool_state.key(),
+            tick_lower_state.load()?.tick,
+            tick_upper_state.load()?.tick,
+        )?;
+
         let position_state = AccountLoader::<PositionState>::try_from(
             &ctx.accounts.core_position_state.to_account_info(),
         )?;
diff --git a/programs/core/src/states/tokenized_position.rs b/programs/core/src/states/tokenized_position.rs
index 6b5f295..8822483 100644
--- a/programs/core/src/states/tokenized_position.rs
+++ b/programs/core/src/states/tokenized_position.rs
@@ -39,6 +39,26 @@ pub struct TokenizedPositionState {
     pub tokens_owed_1: u64,
 }
 
+impl TokenizedPositionState {
+    /// Validates that the tokenized position was minted for the given pool and tick range
+    ///
+    /// # Arguments
+    ///
+    /// * `self`- The tokenized position
+    /// * `pool_id` - Address of the pool to validate
+    /// * `tick_lower` - The lower tick boundary to validate
+    /// * `tick_upper` - The upper tick boundary to validate
+    ///
+    pub fn validate_range(self, pool_id: &Pubkey, tick_lower: i32, tick_upper: i32) -> Result<()> {
+        assert!(
+            self.pool_id == *pool_id
+                && self.tick_lower == tick_lower
+                && self.tick_upper == tick_upper
+        );
+        Ok(())
+    }
+}
+
 /// Emitted when liquidity is increased for a position NFT.
 /// Also emitted when a token is minted
 #[event]
-- 
2.43.0


From 4da3124bb871628772a37ae2ffe706a8bd1b13a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:06 +0000
Subject: [PATCH 11/11] fix: liquidity referencing a tick fits its signed net
 liquidity

---
 programs/core/src/states/tick.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/programs/core/src/states/tick.rs b/programs/core/src/states/tick.rs
index 393a20b..c226405 100644
--- a/programs/core/src/states/tick.rs
+++ b/programs/core/src/states/tick.rs
@@ -81,6 +81,13 @@ impl TickState {
         // entire tick range can never be traversed
         // require!(liquidity_gross_after <= max_liquidity, ErrorCode::LO);
 
+        // The signed net liquidity has to hold everything that references the tick, whichever way
+        // it points: then it can always be negated on crossing, and no withdrawal overflows it
+        require!(
+            liquidity_delta <= 0 || liquidity_gross_after <= i64::MAX as u64,
+            ErrorCode::LO
+        );
+
         // Either liquidity_gross_after becomes 0 (uninitialized) XOR liquidity_gross_before
         // was zero (initialized)
         let flipped = (liquidity_gross_after == 0) != (liquidity_gross_before == 0);
-- 
2.43.0

