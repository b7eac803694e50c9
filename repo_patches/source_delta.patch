From 4f4c0225f0213b1fdfa0c0096c5ac936cdb88788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:44 +0000
Subject: [PATCH 01/11] fix: donation_share must not move shares locked by
 shadow records

---
 ref-exchange/src/donation.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ref-exchange/src/donation.rs b/ref-exchange/src/donation.rs
index 8c8193e..19d9c99 100644
--- a/ref-exchange/src/donation.rs
+++ b/ref-exchange/src/donation.rs
@@ -20,6 +20,9 @@ impl Contract {
         let mut pool = self.pools.get(pool_id).expect(ERR85_NO_POOL);
         let donation_amount = amount.map(|v| v.0).unwrap_or(pool.share_balances(&account_id));
         assert!(donation_amount > 0, "Invalid amount");
+        if let Some(record) = self.internal_get_account(&account_id).and_then(|account| account.get_shadow_record(pool_id)) {
+            assert!(donation_amount <= record.free_shares(pool.share_balances(&account_id)), "Not enough free shares");
+        }
         pool.share_transfer(&account_id, &env::current_account_id(), donation_amount);
         if unregister == Some(true) {
             pool.share_unregister(&account_id);
-- 
2.43.0


From ff487b393657631514c0d89b84ab27d1b03a66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:44 +0000
Subject: [PATCH 02/11] fix: charge remove_liquidity_by_tokens rounded up for
 tokens with more than 18 decimals

---
 ref-exchange/src/stable_swap/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ref-exchange/src/stable_swap/mod.rs b/ref-exchange/src/stable_swap/mod.rs
index 123f4fa..e78e145 100644
--- a/ref-exchange/src/stable_swap/mod.rs
+++ b/ref-exchange/src/stable_swap/mod.rs
@@ -370,7 +370,13 @@ impl StableSwapPool {
         assert_eq!(amounts.len(), n_coins, "{}", ERR64_TOKENS_COUNT_ILLEGAL);
 
         // make amounts into comparable-amounts
-        let c_amounts = self.amounts_to_c_amounts(&amounts);
+        let mut c_amounts = self.amounts_to_c_amounts(&amounts);
+        // tokens with more decimals than the pool precision are charged rounded up
+        for i in 0..n_coins {
+            if self.c_amount_to_amount(c_amounts[i], i) < amounts[i] {
+                c_amounts[i] += 1;
+            }
+        }
         for i in 0..n_coins {
             self.assert_min_reserve(self.c_amounts[i].checked_sub(c_amounts[i]).unwrap_or(0));
         }
-- 
2.43.0


From cf00535ab747c0210c10dcb9023f35116cfd4148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:44 +0000
Subject: [PATCH 03/11] fix: refund shadow record storage on failure only when
 the record is removed

---
 ref-exchange/src/shadow_actions.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ref-exchange/src/shadow_actions.rs b/ref-exchange/src/shadow_actions.rs
index 5fe8916..0864a87 100644
--- a/ref-exchange/src/shadow_actions.rs
+++ b/ref-exchange/src/shadow_actions.rs
@@ -247,25 +247,26 @@ impl Contract {
         sender_id: AccountId,
         pool_id: u64,
         amount: U128,
+        #[allow(unused_variables)]
         storage_fee: U128
     ) -> bool {
         if !is_promise_success() {
+            let prev_storage = env::storage_usage();
             let mut account = self.internal_unwrap_account(&sender_id); 
             match action {
                 ShadowActions::ToFarming => {
                     account.update_shadow_record(pool_id, &ShadowActions::FromFarming, amount.0);
-                    if storage_fee.0 > 0 {
-                        Promise::new(sender_id.clone()).transfer(storage_fee.0);
-                    }
                 }
                 ShadowActions::ToBurrowland => {
                     account.update_shadow_record(pool_id, &ShadowActions::FromBurrowland, amount.0);
-                    if storage_fee.0 > 0 {
-                        Promise::new(sender_id.clone()).transfer(storage_fee.0);
-                    }
                 }
                 _ => {}
             }
+            // Refund what the record occupies only if it is gone now, whichever action had created it.
+            if prev_storage > env::storage_usage() {
+                let refund = (prev_storage - env::storage_usage()) as Balance * env::storage_byte_cost();
+                Promise::new(sender_id.clone()).transfer(refund);
+            }
             self.internal_save_account(&sender_id, account);
             false
         } else {
-- 
2.43.0


From 374c5dafced73b474dec0c7ae0250f7bcf926aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:44 +0000
Subject: [PATCH 04/11] fix: update the unit share accumulator before HotZap
 adds liquidity

---
 ref-exchange/src/token_receiver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ref-exchange/src/token_receiver.rs b/ref-exchange/src/token_receiver.rs
index 246dbbf..7eaa7f6 100644
--- a/ref-exchange/src/token_receiver.rs
+++ b/ref-exchange/src/token_receiver.rs
@@ -180,6 +180,10 @@ impl FungibleTokenReceiver for Contract {
                         token_cache.add(&out_token_id, out_amount);
                     }
 
+                    for add_liquidity_info in add_liquidity_infos.iter() {
+                        self.internal_update_unit_share_cumulative_info(add_liquidity_info.pool_id);
+                    }
+
                     let prev_storage = env::storage_usage();
                     for add_liquidity_info in add_liquidity_infos {
                         let mut pool = self.pools.get(add_liquidity_info.pool_id).expect(ERR85_NO_POOL);
-- 
2.43.0


From 496098de0a5e2444c9d55350198a5715b2ac098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 05/11] fix: credit a failed near_withdraw in the token it was
 taken from

---
 ref-exchange/src/account_deposit.rs | 5 ++++-
 ref-exchange/src/utils.rs           | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/ref-exchange/src/account_deposit.rs b/ref-exchange/src/account_deposit.rs
index d990c2f..cc5f447 100644
--- a/ref-exchange/src/account_deposit.rs
+++ b/ref-exchange/src/account_deposit.rs
@@ -390,6 +390,7 @@ impl Contract {
         &mut self,
         sender_id: AccountId,
         amount: U128,
+        token_id: Option<AccountId>,
     ) -> U128 {
         assert_eq!(
             env::promise_results_count(),
@@ -404,7 +405,8 @@ impl Contract {
                 amount
             },
             PromiseResult::Failed => {
-                let token_id = self.wnear_id.as_ref().unwrap().clone();
+                // the token that failed to unwrap, even if the owner has changed wnear_id since
+                let token_id = token_id.unwrap_or_else(|| self.wnear_id.as_ref().unwrap().clone());
                 self.internal_handle_fail_in_withdraw_callback(&sender_id, &token_id, amount.0);
                 0.into()
             }
@@ -601,6 +603,7 @@ impl Contract {
             .then(ext_self::exchange_callback_post_withdraw_near(
                 sender_id.clone(),
                 U128(amount),
+                Some(token_id.clone()),
                 &env::current_account_id(),
                 0,
                 GAS_FOR_CB_NEAR_TRANSFER,
diff --git a/ref-exchange/src/utils.rs b/ref-exchange/src/utils.rs
index 0ddf138..fe7bb24 100644
--- a/ref-exchange/src/utils.rs
+++ b/ref-exchange/src/utils.rs
@@ -83,6 +83,7 @@ pub trait RefExchange {
         &mut self,
         sender_id: AccountId,
         amount: U128,
+        token_id: Option<AccountId>,
     ) -> U128 ;
     fn exchange_callback_post_withdraw(
         &mut self,
-- 
2.43.0


From ced1a7e0be7012b07d606d42695c06f30be90c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:11 +0000
Subject: [PATCH 06/11] fix: mft_resolve_transfer reports the amount it
 actually refunded

---
 ref-exchange/src/multi_fungible_token.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ref-exchange/src/multi_fungible_token.rs b/ref-exchange/src/multi_fungible_token.rs
index 1fe3836..308a3ec 100644
--- a/ref-exchange/src/multi_fungible_token.rs
+++ b/ref-exchange/src/multi_fungible_token.rs
@@ -328,6 +328,7 @@ impl Contract {
             }
             PromiseResult::Failed => amount.0,
         };
+        let mut refunded_amount = 0;
         if unused_amount > 0 {
             let receiver_balance = self.internal_mft_balance(token_id.clone(), &receiver_id);
             if receiver_balance > 0 {
@@ -341,9 +342,10 @@ impl Contract {
                     env::current_account_id()
                 };
                 self.internal_mft_transfer(token_id, &receiver_id, &refund_to, Some(refund_amount), None);
+                refunded_amount = refund_amount;
             }
         }
-        U128(unused_amount)
+        U128(refunded_amount)
     }
 
     pub fn mft_metadata(&self, token_id: String) -> FungibleTokenMetadata {
-- 
2.43.0


From c4d116e5a45af4478b4eb45bfdafe0d3035b6d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:31 +0000
Subject: [PATCH 07/11] fix: a farmer without stake could not claim or stake
 after the reward per seed was reset

---
 ref-farming/src/simple_farm.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ref-farming/src/simple_farm.rs b/ref-farming/src/simple_farm.rs
index 757f25c..713dc60 100644
--- a/ref-farming/src/simple_farm.rs
+++ b/ref-farming/src/simple_farm.rs
@@ -296,9 +296,11 @@ impl SimpleFarm {
     ) -> (RPS, Balance) {
 
         self.distribute(total_seeds, silent);
-        // if user_seeds == &0 {
-        //     return (self.last_distribution.rps, 0);
-        // }
+        if user_seeds == &0 {
+            // without stake there is nothing to claim, and the recorded rps may be  
+            // ahead of a rps that was reset while no seed was staked
+            return (self.last_distribution.rps, 0);
+        }
 
         let claimed = (
             U256::from(*user_seeds) 
-- 
2.43.0


From dadc2852dcfbb8ba6c78cfdd6571f5a21ac5d86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:31 +0000
Subject: [PATCH 08/11] fix: a failed withdrawal of a farmer who unregistered
 meanwhile was lost

---
 ref-farming/src/actions_of_reward.rs | 4 ++++
 ref-farming/src/actions_of_seed.rs   | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/ref-farming/src/actions_of_reward.rs b/ref-farming/src/actions_of_reward.rs
index 00455c3..35cae3c 100644
--- a/ref-farming/src/actions_of_reward.rs
+++ b/ref-farming/src/actions_of_reward.rs
@@ -117,6 +117,10 @@ impl Contract {
                     )
                     .as_bytes(),
                 );
+                // the farmer may have unregistered meanwhile
+                if self.get_farmer_wrapped(&sender_id).is_none() {
+                    self.internal_register_account(&sender_id, 0);
+                }
                 // This reverts the changes from withdraw function.
                 let mut farmer = self.get_farmer(&sender_id);
                 farmer.get_ref_mut().add_reward(&token_id, amount.0);
diff --git a/ref-farming/src/actions_of_seed.rs b/ref-farming/src/actions_of_seed.rs
index d6e5c2d..3eab965 100644
--- a/ref-farming/src/actions_of_seed.rs
+++ b/ref-farming/src/actions_of_seed.rs
@@ -94,6 +94,10 @@ impl Contract {
                     )
                     .as_bytes(),
                 );
+                // the farmer may have unregistered meanwhile
+                if self.get_farmer_wrapped(&sender_id).is_none() {
+                    self.internal_register_account(&sender_id, 0);
+                }
                 // revert withdraw, equal to deposit, claim reward to update user reward_per_seed
                 self.internal_claim_user_reward_by_seed_id(&sender_id, &seed_id);
                 let mut farm_seed = self.get_seed(&seed_id);
@@ -143,6 +147,10 @@ impl Contract {
                     )
                     .as_bytes(),
                 );
+                // the farmer may have unregistered meanwhile
+                if self.get_farmer_wrapped(&sender_id).is_none() {
+                    self.internal_register_account(&sender_id, 0);
+                }
                 // revert withdraw, equal to deposit, claim reward to update user reward_per_seed
                 self.internal_claim_user_reward_by_seed_id(&sender_id, &seed_id);
                 let mut farm_seed = self.get_seed(&seed_id);
-- 
2.43.0


From e54f7cfa4cb8dcb84b31580f4c8e4e562a973ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:31 +0000
Subject: [PATCH 09/11] fix: withdrawing the whole reward by its amount left an
 entry that blocked unregistering

---
 ref-farming/src/farmer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ref-farming/src/farmer.rs b/ref-farming/src/farmer.rs
index 8b34a39..18889a8 100644
--- a/ref-farming/src/farmer.rs
+++ b/ref-farming/src/farmer.rs
@@ -52,7 +52,7 @@ impl Farmer {
     pub(crate) fn sub_reward(&mut self, token: &AccountId, amount: Balance) -> Balance {
         let value = *self.rewards.get(token).expect(ERR21_TOKEN_NOT_REG);
         assert!(value >= amount, "{}", ERR22_NOT_ENOUGH_TOKENS);
-        if amount == 0 {
+        if amount == 0 || amount == value {
             self.rewards.remove(&token.clone());
             value
         } else {
-- 
2.43.0


From c809aea95f0be71a1add0774b0cfe2fbc578c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:31 +0000
Subject: [PATCH 10/11] fix: a farmer who registered again could not withdraw
 his whole stake

---
 ref-farming/src/farmer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ref-farming/src/farmer.rs b/ref-farming/src/farmer.rs
index 18889a8..7e4f2f8 100644
--- a/ref-farming/src/farmer.rs
+++ b/ref-farming/src/farmer.rs
@@ -98,7 +98,8 @@ impl Farmer {
     pub fn remove_rps(&mut self, farm_id: &FarmId) {
         if self.user_rps.contains_key(farm_id) {
             self.user_rps.remove(farm_id);
-            self.rps_count -= 1;
+            // an entry from before the farmer registered again is not counted
+            self.rps_count = self.rps_count.saturating_sub(1);
         }
     }
 
-- 
2.43.0


From 898c20a17d36cdbd1242e0c21472b12ea676a7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:26 +0000
Subject: [PATCH 11/11] fix: what the receiver of a payout with client_echo
 hands back was lost

---
 ref-exchange/src/account_deposit.rs | 31 ++++++++++++++++++++++++++++-
 ref-exchange/src/utils.rs           |  6 ++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/ref-exchange/src/account_deposit.rs b/ref-exchange/src/account_deposit.rs
index cc5f447..30d85a6 100644
--- a/ref-exchange/src/account_deposit.rs
+++ b/ref-exchange/src/account_deposit.rs
@@ -435,6 +435,35 @@ impl Contract {
             }
         }
     }
+
+    /// The receiver of ft_transfer_call may hand back a part of the amount, or all of it.
+    #[private]
+    pub fn exchange_callback_post_transfer_call(
+        &mut self,
+        token_id: AccountId,
+        sender_id: AccountId,
+        amount: U128,
+    ) -> U128 {
+        assert_eq!(
+            env::promise_results_count(),
+            1,
+            "{}",
+            ERR25_CALLBACK_POST_WITHDRAW_INVALID
+        );
+        let used = match env::promise_result(0) {
+            PromiseResult::NotReady => unreachable!(),
+            PromiseResult::Successful(value) => {
+                near_sdk::serde_json::from_slice::<U128>(&value)
+                    .map(|used| used.0.min(amount.0))
+                    .unwrap_or(amount.0)
+            }
+            PromiseResult::Failed => 0,
+        };
+        if used < amount.0 {
+            self.internal_handle_fail_in_withdraw_callback(&sender_id, &token_id, amount.0 - used);
+        }
+        used.into()
+    }
 }
 
 impl Contract {
@@ -645,7 +674,7 @@ impl Contract {
             1,
             GAS_FOR_FT_TRANSFER_CALL + extra_gas,
         )
-        .then(ext_self::exchange_callback_post_withdraw(
+        .then(ext_self::exchange_callback_post_transfer_call(
             token_id.clone(),
             sender_id.clone(),
             U128(amount),
diff --git a/ref-exchange/src/utils.rs b/ref-exchange/src/utils.rs
index fe7bb24..772f135 100644
--- a/ref-exchange/src/utils.rs
+++ b/ref-exchange/src/utils.rs
@@ -91,6 +91,12 @@ pub trait RefExchange {
         sender_id: AccountId,
         amount: U128,
     );
+    fn exchange_callback_post_transfer_call(
+        &mut self,
+        token_id: AccountId,
+        sender_id: AccountId,
+        amount: U128,
+    ) -> U128;
     fn callback_on_shadow(
         &mut self,
         action: crate::account_deposit::ShadowActions,
-- 
2.43.0

