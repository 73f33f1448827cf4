From c43a4d123d90cfbbbf876822cbc007757ebf80cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:30 +0000
Subject: [PATCH 1/3] Small market sizes under the (so far unused) feature
 test, for the verification harness

---
 src/program/dispatch_market.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/program/dispatch_market.rs b/src/program/dispatch_market.rs
index 994c5db..bd665a8 100644
--- a/src/program/dispatch_market.rs
+++ b/src/program/dispatch_market.rs
@@ -70,6 +70,12 @@ pub(crate) fn dispatch_market_mut<'a>(
         (4096, 4096, 128) => fifo_market_mut!(4096, 4096, 128, bytes),
         (4096, 4096, 8193) => fifo_market_mut!(4096, 4096, 8193, bytes),
         (4096, 4096, 8321) => fifo_market_mut!(4096, 4096, 8321, bytes),
+        #[cfg(feature = "test")]
+        (2, 2, 3) => fifo_market_mut!(2, 2, 3, bytes),
+        #[cfg(feature = "test")]
+        (4, 4, 6) => fifo_market_mut!(4, 4, 6, bytes),
+        #[cfg(feature = "test")]
+        (8, 8, 8) => fifo_market_mut!(8, 8, 8, bytes),
         _ => {
             phoenix_log!("Invalid parameters for market");
             return Err(PhoenixError::InvalidMarketParameters.into());
@@ -119,6 +125,12 @@ fn dispatch_market<'a>(
         (4096, 4096, 128) => fifo_market!(4096, 4096, 128, bytes),
         (4096, 4096, 8193) => fifo_market!(4096, 4096, 8193, bytes),
         (4096, 4096, 8321) => fifo_market!(4096, 4096, 8321, bytes),
+        #[cfg(feature = "test")]
+        (2, 2, 3) => fifo_market!(2, 2, 3, bytes),
+        #[cfg(feature = "test")]
+        (4, 4, 6) => fifo_market!(4, 4, 6, bytes),
+        #[cfg(feature = "test")]
+        (8, 8, 8) => fifo_market!(8, 8, 8, bytes),
         _ => {
             phoenix_log!("Invalid parameters for market");
             return Err(PhoenixError::InvalidMarketParameters.into());
@@ -151,6 +163,12 @@ pub fn get_market_size(market_size_params: &MarketSizeParams) -> Result<usize, P
         (4096, 4096, 128) => fifo_market_size!(4096, 4096, 128),
         (4096, 4096, 8193) => fifo_market_size!(4096, 4096, 8193),
         (4096, 4096, 8321) => fifo_market_size!(4096, 4096, 8321),
+        #[cfg(feature = "test")]
+        (2, 2, 3) => fifo_market_size!(2, 2, 3),
+        #[cfg(feature = "test")]
+        (4, 4, 6) => fifo_market_size!(4, 4, 6),
+        #[cfg(feature = "test")]
+        (8, 8, 8) => fifo_market_size!(8, 8, 8),
         _ => {
             phoenix_log!("Invalid parameters for market");
             return Err(PhoenixError::InvalidMarketParameters.into());
-- 
2.43.0


From c83d65747ab74bcc1847cdfe450900023e9d1b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:28 +0000
Subject: [PATCH 2/3] fix: a limit order placed while the market is post-only
 must not trade with deposited funds

The status was only checked when lots were paid out, which is never the
case for orders that settle with free funds (nor for sells whose
proceeds are all taken as fee), so they could take liquidity on a market
that does not allow crossing.
---
 src/program/processor/new_order.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/program/processor/new_order.rs b/src/program/processor/new_order.rs
index d236ed0..c6d1536 100644
--- a/src/program/processor/new_order.rs
+++ b/src/program/processor/new_order.rs
@@ -376,6 +376,7 @@ fn process_new_order<'a, 'info>(
 
     let side = order_packet.side();
     let (
+        has_traded,
         quote_atoms_to_withdraw,
         quote_atoms_to_deposit,
         base_atoms_to_withdraw,
@@ -421,6 +422,12 @@ fn process_new_order<'a, 'info>(
         }
 
         (
+            // Trades that are settled with free funds have no lots out, and trades whose proceeds
+            // round down to zero have only lots in.
+            matching_engine_response.num_quote_lots_in > QuoteLots::ZERO
+                || matching_engine_response.num_base_lots_in > BaseLots::ZERO
+                || matching_engine_response.num_quote_lots_out > QuoteLots::ZERO
+                || matching_engine_response.num_base_lots_out > BaseLots::ZERO,
             matching_engine_response.num_quote_lots_out * quote_lot_size,
             matching_engine_response.get_deposit_amount_bid_in_quote_lots() * quote_lot_size,
             matching_engine_response.num_base_lots_out * base_lot_size,
@@ -431,7 +438,7 @@ fn process_new_order<'a, 'info>(
     let quote_params = &header.quote_params;
     let base_params = &header.base_params;
 
-    if quote_atoms_to_withdraw > QuoteAtoms::ZERO || base_atoms_to_withdraw > BaseAtoms::ZERO {
+    if has_traded {
         let status = MarketStatus::from(header.status);
         assert_with_msg(
             status.cross_allowed(),
-- 
2.43.0


From a3f00d13fcc17370a09941264d5b240bd178a800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:40 +0000
Subject: [PATCH 3/3] fix: refuse to initialize a market with a zero tick size
 or a zero base unit

Zero is a multiple of every lot count, so both passed the divisibility
checks. A market with a tick of zero values every order at zero quote
lots, one with an empty base unit pays out zero base atoms for every lot.
---
 src/program/processor/initialize.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/program/processor/initialize.rs b/src/program/processor/initialize.rs
index 1ac157e..147cb7e 100644
--- a/src/program/processor/initialize.rs
+++ b/src/program/processor/initialize.rs
@@ -111,6 +111,16 @@ pub(crate) fn process_initialize_market<'a, 'info>(
     let quote_atoms_per_quote_unit =
         QuoteAtomsPerQuoteUnit::new(10u64.pow(quote_mint.decimals as u32));
 
+    assert_with_msg(
+        base_atoms_per_base_unit > BaseAtomsPerBaseUnit::ZERO,
+        PhoenixError::InvalidLotSize,
+        "Base atoms per base unit must be positive",
+    )?;
+    assert_with_msg(
+        tick_size_in_quote_lots_per_base_unit > QuoteLotsPerBaseUnitPerTick::ZERO,
+        PhoenixError::InvalidTickSize,
+        "Tick size must be positive",
+    )?;
     assert_with_msg(
         base_atoms_per_base_unit % num_base_lots_per_base_unit == 0,
         PhoenixError::InvalidLotSize,
-- 
2.43.0

