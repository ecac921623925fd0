From 6744180e6a1c4547ee678e97bcd74b59b5e82805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:54 +0000
Subject: [PATCH] fix: a partial fill never takes more than the requested input

With the rate limiter the fee rate is recomputed for the filled amount by an inverse that rounds up; grossing the
filled amount up with it could exceed the requested amount_in (amount_in 150289771526 was charged 150289771693).
---
 programs/dynamic-bonding-curve/src/state/virtual_pool.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/programs/dynamic-bonding-curve/src/state/virtual_pool.rs b/programs/dynamic-bonding-curve/src/state/virtual_pool.rs
index 14acb0c..02814ac 100644
--- a/programs/dynamic-bonding-curve/src/state/virtual_pool.rs
+++ b/programs/dynamic-bonding-curve/src/state/virtual_pool.rs
@@ -668,9 +668,13 @@ impl VirtualPool {
                         )?
                 };
 
-                let (included_fee_input_amount, fee_amount) =
+                let (included_fee_input_amount, _) =
                     PoolFeesConfig::get_included_fee_amount(trade_fee_numerator, actual_amount_in)?;
 
+                // the rate limiter's inverse fee rate is rounded up, never take more than the requested amount
+                let included_fee_input_amount = included_fee_input_amount.min(amount_in);
+                let fee_amount = included_fee_input_amount.safe_sub(actual_amount_in)?;
+
                 // that ensure included_fee_input_amount = actual_amount_in + trading_fee + protocol_fee + referral_fee
                 let (trading_fee, protocol_fee, referral_fee) = config
                     .pool_fees
-- 
2.43.0

