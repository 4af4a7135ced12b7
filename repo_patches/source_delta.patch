From 7476b3f45cfa4c32098a7535b9f813525c24b149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 1/9] fix: stable pool update_config must be authorised by the
 admin

It compared the `sender` argument with the stored admin but never asked for
that address's authorisation, so anyone could pass the admin's address.
---
 contracts/pool_stable/src/contract.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 6948dd4..5ff8369 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -574,6 +574,7 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
             log!(&env, "Pool Stable: UpdateConfig: Unauthorized");
             panic_with_error!(&env, ContractError::Unauthorized);
         }
+        sender.require_auth();
         env.storage()
             .instance()
             .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);
-- 
2.43.0


From 18247bc8d5b2c35066145643a2c91326a94496bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 2/9] fix: staking rewards older than a stake must not trap the
 claim

The age of a stake underflowed for a reward distributed before the stake was
bonded, so every later claim of that user trapped.
---
 contracts/stake/src/distribution.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/stake/src/distribution.rs b/contracts/stake/src/distribution.rs
index 4587ce7..911ebfb 100644
--- a/contracts/stake/src/distribution.rs
+++ b/contracts/stake/src/distribution.rs
@@ -101,7 +101,7 @@ pub fn calculate_pending_rewards(
                         // Calculate the user's share of the total staked amount at the time
                         let user_share = stake.stake as u128 * daily_reward / total_staked;
                         let stake_age_days =
-                            (staking_reward_day - stake.stake_timestamp) / SECONDS_PER_DAY;
+                            staking_reward_day.saturating_sub(stake.stake_timestamp) / SECONDS_PER_DAY;
                         let multiplier = if stake_age_days >= 60 {
                             Decimal::one()
                         } else {
-- 
2.43.0


From 7e8c9d32b28c68cbc838c73e2df8dfffc7a8683f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 3/9] fix: two reward distributions in one ledger must add up

The second distribution of a token at the same timestamp replaced the recorded
amount of the first, whose tokens then stayed in the contract for good.
---
 contracts/stake/src/contract.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index c767a81..502caa7 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -246,7 +246,8 @@ impl StakingTrait for Staking {
         save_total_staked_history(&env, total_staked_history);
 
         let mut reward_history = get_reward_history(&env, &reward_token);
-        reward_history.set(current_timestamp, amount as u128);
+        let distributed_now = reward_history.get(current_timestamp).unwrap_or(0);
+        reward_history.set(current_timestamp, distributed_now + amount as u128);
         save_reward_history(&env, &reward_token, reward_history);
 
         token_contract::Client::new(&env, &reward_token).transfer(
-- 
2.43.0


From b1aaa56ec4e45ffe4acb689b5dc7f6713c7906ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 4/9] fix: pool upgrade must validate the new default slippage

---
 contracts/pool/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index ca9e8d6..9c1ba3c 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -584,6 +584,8 @@ impl LiquidityPoolTrait for LiquidityPool {
         let admin: Address = utils::get_admin(&env);
         admin.require_auth();
 
+        validate_bps!(new_default_slippage_bps);
+
         env.deployer().update_current_contract_wasm(new_wasm_hash);
         save_default_slippage_bps(&env, new_default_slippage_bps);
     }
-- 
2.43.0


From 86e2e6a72e243de0ba6cae222bd2ae444e5b7977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:46 +0000
Subject: [PATCH 5/9] fix: stable pool swaps must scale each asset by its own
 decimals

Swaps scaled the sold amount and the bought balance with the larger of the two
tokens' decimals, which is only right when both have the same number.  The
spread is now compared in one unit as well.
---
 contracts/pool_stable/src/contract.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 5ff8369..25f1e33 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -1018,25 +1018,24 @@ pub fn compute_swap(
     let amp_parameters = get_amp(env);
     let amp = compute_current_amp(env, &amp_parameters);
 
-    let greatest_precision = get_greatest_precision(env);
-
     let new_ask_pool = calc_y(
         env,
         amp as u128,
         scale_value(
             offer_pool + offer_amount,
-            greatest_precision,
+            offer_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
             scale_value(offer_pool, offer_pool_precision, DECIMAL_PRECISION),
             scale_value(ask_pool, ask_pool_precision, DECIMAL_PRECISION),
         ],
-        greatest_precision,
+        ask_pool_precision,
     );
 
     let return_amount = ask_pool - new_ask_pool;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
+    let offer_amount = scale_value(offer_amount, offer_pool_precision, ask_pool_precision);
     let spread_amount = if offer_amount > return_amount {
         convert_u128_to_i128(offer_amount - return_amount)
     } else {
@@ -1073,27 +1072,26 @@ pub fn compute_offer_amount(
     let inv_one_minus_commission = Decimal::one() / one_minus_commission;
     let before_commission = inv_one_minus_commission * convert_u128_to_i128(ask_amount);
 
-    let greatest_precision = get_greatest_precision(env);
-
     let new_offer_pool = calc_y(
         env,
         amp as u128,
         scale_value(
             ask_pool - convert_i128_to_u128(before_commission),
-            greatest_precision,
+            ask_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
             scale_value(offer_pool, offer_pool_precision, DECIMAL_PRECISION),
             scale_value(ask_pool, ask_pool_precision, DECIMAL_PRECISION),
         ],
-        greatest_precision,
+        offer_pool_precision,
     );
 
     let offer_amount = new_offer_pool - offer_pool;
 
     let ask_before_commission = convert_u128_to_i128(ask_amount) * inv_one_minus_commission;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
+    let ask_amount = scale_value(ask_amount, ask_pool_precision, offer_pool_precision);
     let spread_amount = if offer_amount > ask_amount {
         offer_amount - ask_amount
     } else {
-- 
2.43.0


From 682c70b640c8ca53cbebe24ddd9b481663f34edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:29 +0000
Subject: [PATCH 6/9] fix: multihop reverse quotes must ask a stable pool by
 the sold asset

The stable pool's simulate_reverse_swap takes the asset that is sold, the
constant-product pool's the asset that is bought; multihop passed the bought
asset to both, so stable pools were quoted in the wrong direction.
---
 contracts/multihop/src/contract.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/multihop/src/contract.rs b/contracts/multihop/src/contract.rs
index dcd39a6..b015208 100644
--- a/contracts/multihop/src/contract.rs
+++ b/contracts/multihop/src/contract.rs
@@ -265,8 +265,9 @@ impl MultihopTrait for Multihop {
                 }
                 PoolType::Stable => {
                     let lp_client = stable_pool::Client::new(&env, &pool_address);
+                    // a stable pool is asked by the asset that is sold
                     let simulated_reverse_swap =
-                        lp_client.simulate_reverse_swap(&op.ask_asset, &next_ask_amount);
+                        lp_client.simulate_reverse_swap(&op.offer_asset, &next_ask_amount);
 
                     let token_symbol = token_contract::Client::new(&env, &op.ask_asset).symbol();
 
-- 
2.43.0


From f239d8c9876bf10a6c98ff61cee9888712ec3c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:24 +0000
Subject: [PATCH 7/9] fix: factory: removing an account from the whitelist
 removes every listing of it

---
 contracts/factory/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/factory/src/contract.rs b/contracts/factory/src/contract.rs
index 6970225..e43a0e2 100644
--- a/contracts/factory/src/contract.rs
+++ b/contracts/factory/src/contract.rs
@@ -264,7 +264,7 @@ impl FactoryTrait for Factory {
         });
 
         to_remove.into_iter().for_each(|addr| {
-            if let Some(id) = whitelisted_accounts.iter().position(|x| x == addr) {
+            while let Some(id) = whitelisted_accounts.iter().position(|x| x == addr) {
                 whitelisted_accounts.remove(id as u32);
             }
         });
-- 
2.43.0


From f797af239d2c112e71823eb59509a43cd14400df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:42 +0000
Subject: [PATCH 8/9] fix: Decimal::abs_diff refuses a difference beyond i128
 instead of wrapping to a negative number

---
 packages/decimal/src/decimal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/decimal/src/decimal.rs b/packages/decimal/src/decimal.rs
index ed89696..287f002 100644
--- a/packages/decimal/src/decimal.rs
+++ b/packages/decimal/src/decimal.rs
@@ -263,7 +263,12 @@ impl Decimal {
     }
 
     pub const fn abs_diff(self, other: Self) -> Self {
-        Self(self.0.abs_diff(other.0) as i128)
+        let diff = self.0.abs_diff(other.0);
+        assert!(
+            diff <= i128::MAX as u128,
+            "attempt to subtract with overflow"
+        );
+        Self(diff as i128)
     }
 }
 
-- 
2.43.0


From e8e507bec03974784d0672425c93762c457f9341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:53 +0000
Subject: [PATCH 9/9] fix: pool: a reverse quote is refused for a negative
 amount or for more than the pool can pay out

---
 contracts/pool/src/contract.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index 9c1ba3c..d013120 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -733,6 +733,15 @@ impl LiquidityPoolTrait for LiquidityPool {
             config.protocol_fee_rate(),
         );
 
+        // the curve has no offer for less than nothing, nor for more than the pool holds
+        if ask_amount < 0 || offer_amount < 0 {
+            log!(
+                &env,
+                "Pool: Simulate reverse swap: The pool cannot pay out the amount asked for"
+            );
+            panic_with_error!(env, ContractError::NotEnoughLiquidityProvided);
+        }
+
         SimulateReverseSwapResponse {
             offer_amount,
             spread_amount,
-- 
2.43.0

