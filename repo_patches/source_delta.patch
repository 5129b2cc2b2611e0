From 4525f9d10cab792f9de59dd94244bf79007617b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:07 +0000
Subject: [PATCH 01/15] fix: pool_stable update_config must require the
 sender's authorization

---
 contracts/pool_stable/src/contract.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 6948dd4..601c428 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -570,6 +570,7 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
         max_allowed_slippage_bps: Option<i64>,
         max_allowed_spread_bps: Option<i64>,
     ) {
+        sender.require_auth();
         if sender != utils::get_admin(&env) {
             log!(&env, "Pool Stable: UpdateConfig: Unauthorized");
             panic_with_error!(&env, ContractError::Unauthorized);
-- 
2.43.0


From 0ea8d029ee10f20e983b90f871c484f9bdaf59fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:08 +0000
Subject: [PATCH 02/15] fix: pool upgrade must validate the new default
 slippage

---
 contracts/pool/src/contract.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index ca9e8d6..aeb1ec9 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -583,6 +583,7 @@ impl LiquidityPoolTrait for LiquidityPool {
     fn upgrade(env: Env, new_wasm_hash: BytesN<32>, new_default_slippage_bps: i64) {
         let admin: Address = utils::get_admin(&env);
         admin.require_auth();
+        validate_bps!(new_default_slippage_bps);
 
         env.deployer().update_current_contract_wasm(new_wasm_hash);
         save_default_slippage_bps(&env, new_default_slippage_bps);
-- 
2.43.0


From bf00c22a3919f4d2fcf2335eed683c7f53870628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 03/15] fix: stake withdraw_rewards must require the sender's
 authorization

---
 contracts/stake/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index c767a81..9ffad4b 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -260,6 +260,8 @@ impl StakingTrait for Staking {
     }
 
     fn withdraw_rewards(env: Env, sender: Address) {
+        sender.require_auth();
+
         env.storage()
             .instance()
             .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);
-- 
2.43.0


From 0a96bef28d34483932386086372ac434fa2675b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 04/15] fix: stake keeps every distribution made at the same
 time

---
 contracts/stake/src/contract.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index 9ffad4b..71c40ad 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -242,11 +242,16 @@ impl StakingTrait for Staking {
         let total_staked_amount = get_total_staked_counter(&env);
 
         let mut total_staked_history = get_total_staked_history(&env);
-        total_staked_history.set(current_timestamp, total_staked_amount as u128);
-        save_total_staked_history(&env, total_staked_history);
+        // several distributions can happen at the same time: the first total recorded for it stays,
+        // because some rewards might already have been paid out based on it
+        if !total_staked_history.contains_key(current_timestamp) {
+            total_staked_history.set(current_timestamp, total_staked_amount as u128);
+            save_total_staked_history(&env, total_staked_history);
+        }
 
         let mut reward_history = get_reward_history(&env, &reward_token);
-        reward_history.set(current_timestamp, amount as u128);
+        let distributed_now = reward_history.get(current_timestamp).unwrap_or(0);
+        reward_history.set(current_timestamp, distributed_now + amount as u128);
         save_reward_history(&env, &reward_token, reward_history);
 
         token_contract::Client::new(&env, &reward_token).transfer(
-- 
2.43.0


From a1b4c9b92d52672959a61a8b86efe1dfd590f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 05/15] fix: stake rewards skip stakes made after a
 distribution

---
 contracts/stake/src/distribution.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/stake/src/distribution.rs b/contracts/stake/src/distribution.rs
index 4587ce7..3a57b4a 100644
--- a/contracts/stake/src/distribution.rs
+++ b/contracts/stake/src/distribution.rs
@@ -98,6 +98,11 @@ pub fn calculate_pending_rewards(
                 if total_staked > 0 {
                     // Calculate multiplier based on the age of each stake
                     for stake in user_info.stakes.iter() {
+                        // Stakes made after this distribution have no part in it
+                        if stake.stake_timestamp > staking_reward_day {
+                            continue;
+                        }
+
                         // Calculate the user's share of the total staked amount at the time
                         let user_share = stake.stake as u128 * daily_reward / total_staked;
                         let stake_age_days =
-- 
2.43.0


From 21036381be554c499794e07e43404504e74d53c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 06/15] fix: stake rewards refuse to fund a distribution that
 never ends

---
 contracts/stake_rewards/src/contract.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index 3c2e1c8..6eba4c3 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -386,7 +386,12 @@ impl StakingRewardsTrait for StakingRewards {
         // Validate the the curve locks at most the amount provided and
         // also fully unlocks all rewards sent
         let (min, max) = new_reward_distribution.range();
-        if min != 0 || max > convert_i128_to_u128(token_amount) {
+        if new_reward_distribution
+            .validate_monotonic_decreasing()
+            .is_err()
+            || min != 0
+            || max > convert_i128_to_u128(token_amount)
+        {
             log!(
                 &env,
                 "Stake rewards: Fund distribution: Rewards validation failed"
-- 
2.43.0


From ec75c5eb3182da44df4e77f1da0d1193eb2ea9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 07/15] fix: trader authorizes the transfer of the tokens it
 trades and sells its own balance

---
 contracts/trader/src/contract.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/contracts/trader/src/contract.rs b/contracts/trader/src/contract.rs
index 4dae3a9..f1f8001 100644
--- a/contracts/trader/src/contract.rs
+++ b/contracts/trader/src/contract.rs
@@ -1,6 +1,8 @@
 use phoenix::ttl::{INSTANCE_BUMP_AMOUNT, INSTANCE_LIFETIME_THRESHOLD};
 use soroban_sdk::{
-    contract, contractimpl, contractmeta, log, panic_with_error, Address, Env, String,
+    auth::{ContractContext, InvokerContractAuthEntry, SubContractInvocation},
+    contract, contractimpl, contractmeta, log, panic_with_error, vec, Address, Env, IntoVal,
+    String, Symbol,
 };
 
 use crate::{
@@ -149,9 +151,28 @@ impl TraderTrait for Trader {
         let amount = if let Some(amount) = amount {
             amount as i128
         } else {
-            token_client.balance(&sender)
+            token_client.balance(&env.current_contract_address())
         };
 
+        // the pool pulls the offered tokens from this contract, which is not the pool token's
+        // direct invoker there and therefore has to authorize exactly that transfer upfront
+        env.authorize_as_current_contract(vec![
+            &env,
+            InvokerContractAuthEntry::Contract(SubContractInvocation {
+                context: ContractContext {
+                    contract: token_to_swap.clone(),
+                    fn_name: Symbol::new(&env, "transfer"),
+                    args: (
+                        env.current_contract_address(),
+                        liquidity_pool.clone(),
+                        amount,
+                    )
+                        .into_val(&env),
+                },
+                sub_invocations: vec![&env],
+            }),
+        ]);
+
         let amount_swapped = lp_client.swap(
             &env.current_contract_address(),
             &token_to_swap,
-- 
2.43.0


From 19807e04c7afdc9193bce75b091e5c43cca58953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:52 +0000
Subject: [PATCH 08/15] fix: factory removes every entry of an account from the
 whitelist

---
 contracts/factory/src/contract.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/contracts/factory/src/contract.rs b/contracts/factory/src/contract.rs
index 6970225..8bedd88 100644
--- a/contracts/factory/src/contract.rs
+++ b/contracts/factory/src/contract.rs
@@ -264,8 +264,9 @@ impl FactoryTrait for Factory {
         });
 
         to_remove.into_iter().for_each(|addr| {
-            if let Some(id) = whitelisted_accounts.iter().position(|x| x == addr) {
-                whitelisted_accounts.remove(id as u32);
+            // the list given at initialization may name an account more than once
+            while let Some(id) = whitelisted_accounts.first_index_of(addr.clone()) {
+                whitelisted_accounts.remove(id);
             }
         });
 
-- 
2.43.0


From d214fd5847d03f81e580fa4605155a06b74e701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:35 +0000
Subject: [PATCH 09/15] fix: Decimal::abs_diff refuses a difference that does
 not fit

---
 packages/decimal/src/decimal.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/decimal/src/decimal.rs b/packages/decimal/src/decimal.rs
index ed89696..287f002 100644
--- a/packages/decimal/src/decimal.rs
+++ b/packages/decimal/src/decimal.rs
@@ -263,7 +263,12 @@ impl Decimal {
     }
 
     pub const fn abs_diff(self, other: Self) -> Self {
-        Self(self.0.abs_diff(other.0) as i128)
+        let diff = self.0.abs_diff(other.0);
+        assert!(
+            diff <= i128::MAX as u128,
+            "attempt to subtract with overflow"
+        );
+        Self(diff as i128)
     }
 }
 
-- 
2.43.0


From 26afbdf0310f59e1277e5a2b0eb752f2950f04e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 10/15] hook: solver of the stable pool as contract calls, with
 --cfg phoenix_probe only

---
 contracts/pool_stable/src/lib.rs   |  2 ++
 contracts/pool_stable/src/probe.rs | 29 +++++++++++++++++++++++++++++
 2 files changed, 31 insertions(+)
 create mode 100644 contracts/pool_stable/src/probe.rs

diff --git a/contracts/pool_stable/src/lib.rs b/contracts/pool_stable/src/lib.rs
index 16601e2..78926d0 100644
--- a/contracts/pool_stable/src/lib.rs
+++ b/contracts/pool_stable/src/lib.rs
@@ -2,6 +2,8 @@
 mod contract;
 mod error;
 mod math;
+#[cfg(phoenix_probe)]
+mod probe;
 mod storage;
 
 pub mod token_contract {
diff --git a/contracts/pool_stable/src/probe.rs b/contracts/pool_stable/src/probe.rs
new file mode 100644
index 0000000..6a90094
--- /dev/null
+++ b/contracts/pool_stable/src/probe.rs
@@ -0,0 +1,29 @@
+//! Verification hook (only with `--cfg phoenix_probe`): the invariant solver as contract calls.
+use soroban_sdk::{contractimpl, Env, U256};
+
+use crate::{
+    contract::{StableLiquidityPool, StableLiquidityPoolArgs, StableLiquidityPoolClient},
+    math::{calc_y, compute_current_amp, compute_d},
+    storage::AmplifierParameters,
+};
+
+#[contractimpl]
+impl StableLiquidityPool {
+    pub fn probe_d(env: Env, amp: u128, a: u128, b: u128) -> U256 {
+        compute_d(&env, amp, &[a, b])
+    }
+
+    pub fn probe_y(env: Env, amp: u128, x: u128, a: u128, b: u128, precision: u32) -> u128 {
+        calc_y(&env, amp, x, &[a, b], precision)
+    }
+
+    pub fn probe_amp(env: Env, init: u64, init_time: u64, next: u64, next_time: u64) -> u64 {
+        let params = AmplifierParameters {
+            init_amp: init,
+            init_amp_time: init_time,
+            next_amp: next,
+            next_amp_time: next_time,
+        };
+        compute_current_amp(&env, &params)
+    }
+}
-- 
2.43.0


From 4851a119a73a58e888bd56dfe643a07b493435ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:51 +0000
Subject: [PATCH 11/15] fix: stable pool solver no longer overflows beyond a
 few tokens of reserves

---
 contracts/pool_stable/src/math.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/contracts/pool_stable/src/math.rs b/contracts/pool_stable/src/math.rs
index d0badba..076ab10 100644
--- a/contracts/pool_stable/src/math.rs
+++ b/contracts/pool_stable/src/math.rs
@@ -15,8 +15,6 @@ const ITERATIONS: u8 = 64;
 const N_COINS: u128 = 2;
 /// N = 2 with DECIMAL_PRECISION (18) digits
 const N_COINS_PRECISION: u128 = 2000000000000000000;
-/// 1*10**18
-const DECIMAL_FRACTIONAL: u128 = 1_000_000_000_000_000_000;
 /// 1e-6
 const TOL: u128 = 1000000000000;
 
@@ -74,8 +72,9 @@ pub(crate) fn compute_current_amp(env: &Env, amp_params: &AmplifierParameters) -
 /// A * sum(x_i) * n**n + D = A * D * n**n + D**(n+1) / (n**n * prod(x_i))
 pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
     let leverage = U256::from_u128(env, (amp / AMP_PRECISION as u128) * N_COINS_PRECISION);
-    let amount_a_times_coins = pools[0] * N_COINS;
-    let amount_b_times_coins = pools[1] * N_COINS;
+    let n_coins = U256::from_u128(env, N_COINS);
+    let amount_a_times_coins = U256::from_u128(env, pools[0]).mul(&n_coins);
+    let amount_b_times_coins = U256::from_u128(env, pools[1]).mul(&n_coins);
 
     let sum_x = U256::from_u128(env, pools[0] + pools[1]); // sum(x_i), a.k.a S
     let zero = U256::from_u128(env, 0u128);
@@ -88,10 +87,9 @@ pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
 
     // Newton's method to approximate D
     for _ in 0..ITERATIONS {
-        let d_product = d.pow(3).div(&U256::from_u128(
-            env,
-            amount_a_times_coins * amount_b_times_coins,
-        ));
+        let d_product = d
+            .pow(3)
+            .div(&amount_a_times_coins.mul(&amount_b_times_coins));
         d_previous = d.clone();
         d = calculate_step(env, &d, &leverage, &sum_x, &d_product);
         // Equality with the precision of 1e-6
@@ -155,8 +153,9 @@ pub(crate) fn calc_y(
     let new_amount = U256::from_u128(env, new_amount);
 
     let d = compute_d(env, amp, xp);
-    let leverage = U256::from_u128(env, amp * DECIMAL_FRACTIONAL * N_COINS);
-    let amp_prec = U256::from_u128(env, AMP_PRECISION as u128 * DECIMAL_FRACTIONAL);
+    // both without the 18 decimals they share, so that d^3 * amp_prec fits in 256 bits
+    let leverage = U256::from_u128(env, amp * N_COINS);
+    let amp_prec = U256::from_u128(env, AMP_PRECISION as u128);
 
     let c = d
         .pow(3)
-- 
2.43.0


From 38e57079d0e6529a8db6690560744a0d5a20ae85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 12/15] fix: stable pool prices each token in its own decimals

---
 contracts/pool_stable/src/contract.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 601c428..8f20024 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -1018,27 +1018,26 @@ pub fn compute_swap(
     let amp_parameters = get_amp(env);
     let amp = compute_current_amp(env, &amp_parameters);
 
-    let greatest_precision = get_greatest_precision(env);
-
     let new_ask_pool = calc_y(
         env,
         amp as u128,
         scale_value(
             offer_pool + offer_amount,
-            greatest_precision,
+            offer_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
             scale_value(offer_pool, offer_pool_precision, DECIMAL_PRECISION),
             scale_value(ask_pool, ask_pool_precision, DECIMAL_PRECISION),
         ],
-        greatest_precision,
+        ask_pool_precision,
     );
 
     let return_amount = ask_pool - new_ask_pool;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
-    let spread_amount = if offer_amount > return_amount {
-        convert_u128_to_i128(offer_amount - return_amount)
+    let offer_value = scale_value(offer_amount, offer_pool_precision, ask_pool_precision);
+    let spread_amount = if offer_value > return_amount {
+        convert_u128_to_i128(offer_value - return_amount)
     } else {
         // saturating sub equivalent
         0
@@ -1073,29 +1072,28 @@ pub fn compute_offer_amount(
     let inv_one_minus_commission = Decimal::one() / one_minus_commission;
     let before_commission = inv_one_minus_commission * convert_u128_to_i128(ask_amount);
 
-    let greatest_precision = get_greatest_precision(env);
-
     let new_offer_pool = calc_y(
         env,
         amp as u128,
         scale_value(
             ask_pool - convert_i128_to_u128(before_commission),
-            greatest_precision,
+            ask_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
             scale_value(offer_pool, offer_pool_precision, DECIMAL_PRECISION),
             scale_value(ask_pool, ask_pool_precision, DECIMAL_PRECISION),
         ],
-        greatest_precision,
+        offer_pool_precision,
     );
 
     let offer_amount = new_offer_pool - offer_pool;
 
     let ask_before_commission = convert_u128_to_i128(ask_amount) * inv_one_minus_commission;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
-    let spread_amount = if offer_amount > ask_amount {
-        offer_amount - ask_amount
+    let offer_value = scale_value(offer_amount, offer_pool_precision, ask_pool_precision);
+    let spread_amount = if offer_value > ask_amount {
+        offer_value - ask_amount
     } else {
         // saturating sub equivalent
         0
-- 
2.43.0


From 3b77d3d2f7e4540f60a0822db8943a0edcd06746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 13/15] fix: XYK pool accepts small swaps, whose rounding made
 the spread underflow

---
 contracts/pool/src/contract.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index aeb1ec9..743d6ef 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -1159,11 +1159,14 @@ pub fn compute_swap(
     // which ensures the product of the amounts of the two assets remains constant before and after a trade.
     let return_amount =
         ask_pool_as_u256.sub(&(cp.div(&offer_pool_as_u256.add(&offer_amount_as_u256))));
-    // Calculate the spread amount, representing the difference between the expected and actual swap amounts
-    let spread_amount = (offer_amount_as_u256
+    // The amount expected at the price before the swap. The return amount above is rounded up,
+    // for a small swap possibly beyond it
+    let expected_amount = offer_amount_as_u256
         .mul(&ask_pool_as_u256)
-        .div(&offer_pool_as_u256))
-    .sub(&return_amount);
+        .div(&offer_pool_as_u256);
+    let return_amount = return_amount.min(expected_amount.clone());
+    // Calculate the spread amount, representing the difference between the expected and actual swap amounts
+    let spread_amount = expected_amount.sub(&return_amount);
 
     let decimal_fractional = U256::from_u128(env, 1_000_000_000_000_000_000u128);
     let commission_amount = return_amount
-- 
2.43.0


From d7ac75d74556aa0ec630c4b55420f4873721077a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 14/15] fix: stable pool accepts deposits that raise the
 invariant by more than 170 tokens

---
 contracts/pool_stable/src/contract.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 8f20024..84758ca 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -3,7 +3,7 @@ use phoenix::{
     utils::{convert_i128_to_u128, convert_u128_to_i128, LiquidityPoolInitInfo},
 };
 use soroban_sdk::{
-    contract, contractimpl, contractmeta, log, panic_with_error, Address, BytesN, Env, String,
+    contract, contractimpl, contractmeta, log, panic_with_error, Address, BytesN, Env, String, U256,
 };
 
 use crate::{
@@ -389,17 +389,18 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
             .expect("Pool stable: provide_liquidity: conversion to u128 failed");
 
             // Calculate the proportion of the change in invariant
-            let invariant_delta = convert_u128_to_i128(
-                new_invariant
-                    .to_u128()
-                    .expect("Pool stable: provide_liquidity: conversion to u128 failed")
-                    - initial_invariant,
-            );
+            let invariant_delta = new_invariant
+                .to_u128()
+                .expect("Pool stable: provide_liquidity: conversion to u128 failed")
+                - initial_invariant;
 
-            let initial_invariant = convert_u128_to_i128(initial_invariant);
-            convert_i128_to_u128(
-                total_shares * (Decimal::new(invariant_delta) / Decimal::new(initial_invariant)),
-            )
+            // In 256 bits, as a change of more than 170 tokens with 36 decimals does not fit in 128
+            let growth = U256::from_u128(&env, invariant_delta)
+                .mul(&U256::from_u128(&env, 10u128.pow(DECIMAL_PRECISION)))
+                .div(&U256::from_u128(&env, initial_invariant))
+                .to_u128()
+                .expect("Pool stable: provide_liquidity: conversion to u128 failed");
+            convert_i128_to_u128(total_shares * Decimal::new(convert_u128_to_i128(growth)))
         };
 
         if let Some(min_shares) = min_shares_to_receive {
-- 
2.43.0


From 6f46703fdcd78417cf1f646c020e0d58ca7608f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:04 +0000
Subject: [PATCH 15/15] fix: multihop quotes stable hops in reverse for the
 offered token

---
 contracts/multihop/src/contract.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/contracts/multihop/src/contract.rs b/contracts/multihop/src/contract.rs
index dcd39a6..e3e86cc 100644
--- a/contracts/multihop/src/contract.rs
+++ b/contracts/multihop/src/contract.rs
@@ -265,8 +265,9 @@ impl MultihopTrait for Multihop {
                 }
                 PoolType::Stable => {
                     let lp_client = stable_pool::Client::new(&env, &pool_address);
+                    // the stable pool takes the offered asset, not the asked one
                     let simulated_reverse_swap =
-                        lp_client.simulate_reverse_swap(&op.ask_asset, &next_ask_amount);
+                        lp_client.simulate_reverse_swap(&op.offer_asset, &next_ask_amount);
 
                     let token_symbol = token_contract::Client::new(&env, &op.ask_asset).symbol();
 
-- 
2.43.0

