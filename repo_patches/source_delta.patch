From 94b54b01b21f7c490dc62a62079d1a919f12b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:53 +0000
Subject: [PATCH 1/6] fix: compute the swap return with integer division
 rounded down

The 18-digit ratio cp / (offer_pool + offer_amount) was truncated before it
was subtracted, so the return could round up past the constant product (a swap
took value from the liquidity providers), the spread subtraction panicked for
assets whose price is below about 1e-17, and products above ~1.16e59 overflowed.
---
 contracts/halo-pair/src/contract.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index dfa45cb..0bb8b1c 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -607,19 +607,20 @@ fn compute_swap(
     // offer => ask
     // hoanm: EQUATION - B = (R_B - \frac{K}{R_A + A}) * (1 - F)
     // ask_amount = (ask_pool - cp / (offer_pool + offer_amount)) * (1 - commission_rate)
+    // with cp (constant product, K in the EQUATION) = offer_pool * ask_pool, so that
+    // ask_pool - cp / (offer_pool + offer_amount) = ask_pool * offer_amount / (offer_pool + offer_amount)
 
-    // cp (constant product) is K  in the EQUATION
-    let cp: Uint256 = offer_pool * ask_pool;
-
-    // calculate the ask_amount without commission
-    let return_amount: Uint256 = (Decimal256::from_uint256(ask_pool)
-        - Decimal256::from_ratio(cp, offer_pool + offer_amount))
-        * Uint256::one();
+    // calculate the ask_amount without commission, rounded down in favour of the pool
+    let return_amount: Uint256 = ask_pool.multiply_ratio(offer_amount, offer_pool + offer_amount);
 
     // calculate the spread_amount
     // hoanm: EQUATION - SPREAD = (A * \frac{R_B}{R_A}) - B
-    let spread_amount: Uint256 =
-        (offer_amount * Decimal256::from_ratio(ask_pool, offer_pool)) - return_amount;
+    let amount_before_spread: Uint256 = offer_amount * Decimal256::from_ratio(ask_pool, offer_pool);
+    let spread_amount: Uint256 = if amount_before_spread > return_amount {
+        amount_before_spread - return_amount
+    } else {
+        Uint256::zero()
+    };
 
     // calculate the commission_amount
     let commission_amount: Uint256 = return_amount * commission_rate;
-- 
2.43.0


From b0aecaf24c5691afefec4de878c1c879795a438f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:28 +0000
Subject: [PATCH 2/6] fix: do not overflow on the product of the first two
 deposits

The product was computed in u128, so a pair of two 18-decimals tokens could not
be initialised with more than about 18.4 tokens of each.
---
 contracts/halo-pair/src/contract.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index 0bb8b1c..367fcb1 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -6,7 +6,7 @@ use cosmwasm_std::entry_point;
 
 use cosmwasm_std::{
     from_binary, to_binary, Addr, Binary, CanonicalAddr, Coin, CosmosMsg, Decimal, Deps, DepsMut,
-    Env, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult, SubMsg, Uint128, WasmMsg,
+    Env, Isqrt, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult, SubMsg, Uint128, WasmMsg,
 };
 
 use bignumber::{Decimal256, Uint256};
@@ -20,7 +20,6 @@ use haloswap::pair::{
 };
 use haloswap::querier::query_token_info;
 use haloswap::token::InstantiateMsg as TokenInstantiateMsg;
-use integer_sqrt::IntegerSquareRoot;
 use std::cmp::Ordering;
 use std::str::FromStr;
 
@@ -294,7 +293,7 @@ pub fn provide_liquidity(
 
         // if the total supply of the LP token is zero, Initial share = collateral amount
         // hoanm: EQUATION - LP = \sqrt{A * B}
-        Uint128::from((deposits[0].u128() * deposits[1].u128()).integer_sqrt())
+        Uint128::try_from(deposits[0].full_mul(deposits[1]).isqrt()).map_err(StdError::from)?
     } else {
         // hoanm: update these equations by using the formula of Uniswap V2
         // min(1, 2)
-- 
2.43.0


From be894cab6aae598c016bd505478fd335907fbeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:31 +0000
Subject: [PATCH 3/6] fix: accept a slippage tolerance on the first provision

The price of an empty pool was computed as 0 / 0, so providing the first
liquidity with a slippage tolerance panicked.
---
 contracts/halo-pair/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index 367fcb1..b820e30 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -772,6 +772,11 @@ fn assert_slippage_tolerance(
             return Err(StdError::generic_err("slippage_tolerance cannot bigger than 1").into());
         }
 
+        // an empty pool has no price to slip from, the first provision sets it
+        if pools.iter().any(|pool| pool.amount.is_zero()) {
+            return Ok(());
+        }
+
         let one_minus_slippage_tolerance = Decimal256::one() - slippage_tolerance;
         let deposits: [Uint256; 2] = [deposits[0].into(), deposits[1].into()];
         let pools: [Uint256; 2] = [pools[0].amount.into(), pools[1].amount.into()];
-- 
2.43.0


From 133da2eba95f7825e227d68a68ce9f4366246bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:08 +0000
Subject: [PATCH 4/6] fix: reject a pair of one token given by two spellings of
 its address

Bech32 accepts an address in upper case, and the same-asset check compared the
spellings, so a pair of a token with itself could be created.
---
 contracts/halo-factory/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/halo-factory/src/contract.rs b/contracts/halo-factory/src/contract.rs
index 2b2e98a..5771780 100644
--- a/contracts/halo-factory/src/contract.rs
+++ b/contracts/halo-factory/src/contract.rs
@@ -133,6 +133,11 @@ pub fn execute_create_pair(
         asset_infos[1].to_raw(deps.api)?,
     ];
 
+    // the same token can be given by two spellings of its address
+    if raw_infos[0] == raw_infos[1] {
+        return Err(StdError::generic_err("same asset"));
+    }
+
     let asset_decimals = [asset_1_decimal, asset_2_decimal];
 
     let pair_key = pair_key(&raw_infos);
-- 
2.43.0


From b88ccc91b3fa629efe43c20ba33375d91833284f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 5/6] fix: scale the amounts of the spread check only when
 there is a limit

A swap without a maximum spread was refused when scaling its amounts to equal
decimals overflowed, and every swap of a pair whose decimals differ by more
than 19 panicked.
---
 contracts/halo-pair/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index b820e30..9055e91 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -699,6 +699,11 @@ pub fn assert_max_spread(
     offer_decimal: u8,
     return_decimal: u8,
 ) -> Result<(), ContractError> {
+    // without a limit there is nothing to check, nor to scale
+    if max_spread.is_none() {
+        return Ok(());
+    }
+
     let (offer_amount, return_amount, spread_amount): (Uint256, Uint256, Uint256) =
         match offer_decimal.cmp(&return_decimal) {
             Ordering::Greater => {
-- 
2.43.0


From f342cf9098075600ff8afca9700504680fab787c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:51 +0000
Subject: [PATCH 6/6] fix: a coin called like a token is another output of a
 route

---
 contracts/halo-router/src/contract.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/contracts/halo-router/src/contract.rs b/contracts/halo-router/src/contract.rs
index 3e430d2..e44b9e1 100644
--- a/contracts/halo-router/src/contract.rs
+++ b/contracts/halo-router/src/contract.rs
@@ -334,7 +334,9 @@ fn reverse_simulate_return_amount(
 }
 
 fn assert_operations(operations: &[SwapOperation]) -> StdResult<()> {
-    let mut ask_asset_map: HashMap<String, bool> = HashMap::new();
+    // a coin may have the address of a token for its denomination
+    let key = |asset: &AssetInfo| (asset.is_native_token(), asset.to_string());
+    let mut ask_asset_map: HashMap<(bool, String), bool> = HashMap::new();
     for operation in operations.iter() {
         let (offer_asset, ask_asset) = match operation {
             SwapOperation::HaloSwap {
@@ -343,8 +345,8 @@ fn assert_operations(operations: &[SwapOperation]) -> StdResult<()> {
             } => (offer_asset_info.clone(), ask_asset_info.clone()),
         };
 
-        ask_asset_map.remove(&offer_asset.to_string());
-        ask_asset_map.insert(ask_asset.to_string(), true);
+        ask_asset_map.remove(&key(&offer_asset));
+        ask_asset_map.insert(key(&ask_asset), true);
     }
 
     if ask_asset_map.keys().len() != 1 {
-- 
2.43.0

