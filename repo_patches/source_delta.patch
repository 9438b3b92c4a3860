From 6b78ca66613c93cce3c04dc025c9dc9777c38116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:21 +0000
Subject: [PATCH 1/2] fix: reject unknown unsold_token_action when initializing
 a presale

UnsoldTokenAction derives FromPrimitive with a default variant, so
try_from always succeeded and any byte was accepted and stored (and later
treated as Refund).
---
 .../presale/src/instructions/initialize_presale/params.rs    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/programs/presale/src/instructions/initialize_presale/params.rs b/programs/presale/src/instructions/initialize_presale/params.rs
index 5fe55eb..82cb251 100644
--- a/programs/presale/src/instructions/initialize_presale/params.rs
+++ b/programs/presale/src/instructions/initialize_presale/params.rs
@@ -182,9 +182,10 @@ impl PresaleArgs {
         let maybe_presale_mode = PresaleMode::try_from(self.presale_mode);
         require!(maybe_presale_mode.is_ok(), PresaleError::InvalidPresaleInfo);
 
-        let maybe_unsold_token_action = UnsoldTokenAction::try_from(self.unsold_token_action);
+        // UnsoldTokenAction has a default variant, so the conversion never fails. Reject unknown value explicitly.
+        let unsold_token_action = UnsoldTokenAction::from(self.unsold_token_action);
         require!(
-            maybe_unsold_token_action.is_ok(),
+            u8::from(unsold_token_action) == self.unsold_token_action,
             PresaleError::InvalidUnsoldTokenAction
         );
 
-- 
2.43.0


From a42e3a974bf67ba96769dc0edcc8dee99b1c7a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:21 +0000
Subject: [PATCH 2/2] fix: fixed price deposit quota overflow when registry
 supply is worth more than u64::MAX quote

A presale with presale_supply * q_price >= 2^128 (or worth more than
u64::MAX quote lamports) passes initialization, but every deposit failed
with a math overflow although it is within every cap.
---
 .../presale/src/presale_mode_handler/fixed_price_presale.rs   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/programs/presale/src/presale_mode_handler/fixed_price_presale.rs b/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
index d8005cc..e2f87fb 100644
--- a/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
+++ b/programs/presale/src/presale_mode_handler/fixed_price_presale.rs
@@ -228,9 +228,11 @@ impl PresaleModeHandler for FixedPricePresaleHandler {
         let registry_remaining_base_token =
             presale_registry.presale_supply.safe_sub(total_token_sold)?;
 
+        // Saturate: supply may be worth more quote token than what fits in u64. The other quotas are the binding ones in that case.
         let registry_remaining_deposit_quota: u64 = u128::from(registry_remaining_base_token)
-            .safe_mul(self.q_price)?
+            .saturating_mul(self.q_price)
             .div_ceil(SCALE_MULTIPLIER)
+            .min(u64::MAX.into())
             .safe_cast()?;
 
         let personal_remaining_quota =
-- 
2.43.0

