From 622473d36587819761ff39feb38be536f5dc9a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:01 +0000
Subject: [PATCH 1/2] fix: emit the close event when fixed price presale args
 are closed

close_fixed_price_presale_args returned Ok(()) without calling its handler,
so EvtFixedPricePresaleArgsClose was never emitted.
---
 programs/presale/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/programs/presale/src/lib.rs b/programs/presale/src/lib.rs
index c5d7119..a661d6e 100644
--- a/programs/presale/src/lib.rs
+++ b/programs/presale/src/lib.rs
@@ -60,9 +60,9 @@ pub mod presale {
     }
 
     pub fn close_fixed_price_presale_args(
-        _ctx: Context<CloseFixedPricePresaleArgsCtx>,
+        ctx: Context<CloseFixedPricePresaleArgsCtx>,
     ) -> Result<()> {
-        Ok(())
+        instructions::handle_close_fixed_price_presale_args(ctx)
     }
 
     pub fn initialize_presale<'a, 'b, 'c: 'info, 'info>(
-- 
2.43.0


From d63098aa6a749a56d5134dc558f67de4272bf464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:20 +0000
Subject: [PATCH 2/2] fix: saturate the fixed price registry quota instead of
 failing deposits

When the remaining supply of a registry is worth more than u64::MAX quote
tokens, computing its remaining deposit quota overflowed and every deposit
failed with MathOverflow although the presale was accepted at creation.
---
 .../src/presale_mode_handler/fixed_price_presale.rs        | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/programs/presale/src/presale_mode_handler/fixed_price_presale.rs b/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
index d8005cc..a0341e9 100644
--- a/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
+++ b/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
@@ -228,10 +228,11 @@ impl PresaleModeHandler for FixedPricePresaleHandler {
         let registry_remaining_base_token =
             presale_registry.presale_supply.safe_sub(total_token_sold)?;
 
+        // The remaining base tokens can be worth more than u64::MAX quote tokens. In that case the deposit is bounded only by the global and personal quota.
         let registry_remaining_deposit_quota: u64 = u128::from(registry_remaining_base_token)
-            .safe_mul(self.q_price)?
-            .div_ceil(SCALE_MULTIPLIER)
-            .safe_cast()?;
+            .checked_mul(self.q_price)
+            .and_then(|q_quote| u64::try_from(q_quote.div_ceil(SCALE_MULTIPLIER)).ok())
+            .unwrap_or(u64::MAX);
 
         let personal_remaining_quota =
             escrow.get_remaining_deposit_quota(presale_registry.buyer_maximum_deposit_cap)?;
-- 
2.43.0

