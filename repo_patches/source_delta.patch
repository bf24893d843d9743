From eda64bedebf57bbaea165a1bb736aab179eee409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 01/95] fix: trade curves of less than one token at their own
 capacity

Order.x0/y0 replaced any y_int below 1 by 1, so the exact and alpha routers
priced orders holding less than one token off their curve (and outside of
their range). The floor is only needed to avoid dividing by an empty capacity.
---
 carbon/order.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/order.py b/carbon/order.py
index 56e2882..21a070d 100644
--- a/carbon/order.py
+++ b/carbon/order.py
@@ -101,7 +101,7 @@ class Order:
     def x0(self) -> Decimal:
         n: Decimal = self.n
         p: Decimal = self.p
-        y_int: Decimal = max(self.y_int, Decimal("1"))
+        y_int: Decimal = self.y_int if self.y_int > 0 else Decimal("1")
         return (y_int * (1 - n)) / (p * (2 - n))
 
     @property
@@ -124,7 +124,7 @@ class Order:
 
     @property
     def y0(self) -> Decimal:
-        y_int: Decimal = max(self.y_int, Decimal("1"))
+        y_int: Decimal = self.y_int if self.y_int > 0 else Decimal("1")
         n: Decimal = self.n
         return (y_int * (1 - n)) / (2 - n)
 
-- 
2.43.0


From dc37e03cb39e0f8298304d2f75aae6edc0c51a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 02/95] fix: delete the linked order also if its id is 0

delete_order tested the linked id for truth, so deleting order 1 left its
linked order 0 behind, linked to an order that no longer exists.
---
 carbon/simulators/carbon_simulator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index eea72fa..c8a13a5 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -583,19 +583,19 @@ class CarbonSimulatorUI:
 
         del self.orders[position_id]
 
-        if linked_position_id:
+        if linked_position_id is not None:
             del self.orders[linked_position_id]
 
         if self.verbose:
             str2 = (
                 f"and linked position {linked_position_id}"
-                if linked_position_id
+                if linked_position_id is not None
                 else ""
             )
             print(f"Deleted position {position_id} {str2}[{pair}]")
 
         return (
-            [position_id, linked_position_id] if linked_position_id else [position_id]
+            [position_id, linked_position_id] if linked_position_id is not None else [position_id]
         )
     delete_strategy = delete_order
 
-- 
2.43.0


From a321fdfb528fb3b75deafbd657feec2e15d96439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 03/95] fix: do not keep half of a rejected strategy

If the second order of a strategy was refused (eg y_int below the amount) the
first one stayed in the book, linked to an order that does not exist, after
which state() failed.
---
 carbon/simulators/carbon_simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index c8a13a5..7672dff 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -485,6 +485,7 @@ class CarbonSimulatorUI:
         :y_int:         y_int >= amt is used as curve capacity, marginal price adapts
         """
         
+        id1 = id2 = None
         try:
 
             # validate tkn, pair and get CarbonPair object
@@ -554,6 +555,9 @@ class CarbonSimulatorUI:
 
 
         except Exception as e:
+            # do not leave half a strategy behind if the second order is rejected
+            for oid in (id1, id2):
+                self.orders.pop(oid, None)
             if self.raiseonerror:
                 raise
             return {"success": False, "error": str(e), "exception": e}
-- 
2.43.0


From eb9f81624c475ca672f6c7d93dd5b7494f5a2f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 04/95] fix: keep use_positions when a negative amount is
 turned around

amm_buys and amm_sells with a negative amount call each other, and dropped the
use_positions argument, so the trade went through orders that were excluded.
---
 carbon/simulators/carbon_simulator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 7672dff..249723e 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -970,6 +970,8 @@ class CarbonSimulatorUI:
                     limit_price=limit_price,
                     limit_amt=limit_amt,
                     threshold_orders=threshold_orders,
+                    use_positions=use_positions,
+                    use_positions_matchlevel=use_positions_matchlevel,
                     support_partial=support_partial,
                 )
 
@@ -1049,6 +1051,8 @@ class CarbonSimulatorUI:
                     limit_price=limit_price,
                     limit_amt=limit_amt,
                     threshold_orders=threshold_orders,
+                    use_positions=use_positions,
+                    use_positions_matchlevel=use_positions_matchlevel,
                     support_partial=support_partial,
                 )
 
-- 
2.43.0


From 759e57e4ff353975d60fec5714dbe69d8f8dbb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 05/95] fix: check limits of by-target trades against the right
 price with fast matching

The fast router swaps input and output when matching by target, so the average
price was the inverse of the actual price when the limit was checked, and
trades were executed at prices worse than their limit (or refused at better ones).
---
 carbon/simulators/carbon_simulator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 249723e..92d18ed 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -762,8 +762,13 @@ class CarbonSimulatorUI:
 
             if limit_price is not None:
                 print(f"[_trade] limit_price={limit_price}, price_avg={price_avg}")
+                # the fast router reports input and output the other way round when matching
+                # by target, hence the price is inverted (see also `price` below)
+                price_lim = price_avg
+                if is_by_target and isinstance(self.matcher, FastRouter):
+                    price_lim = 1 / Decimal(price_avg)
                 limitfail = not carbon_pair.limit_is_met(
-                    tkn, limit_price, carbon_pair.BUY, round(float(price_avg), decimals)
+                    tkn, limit_price, carbon_pair.BUY, round(float(price_lim), decimals)
                 )
                 if limitfail:
                     execute = False
-- 
2.43.0


From 58380a40c9d508bedabd44e94909c6edaf6e5526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:58 +0000
Subject: [PATCH 06/95] fix: refuse trades beyond the available liquidity with
 fast matching

Without support_partial the fast router silently filled only part of the amount
requested and reported success, unlike the exact and alpha routers.
---
 carbon/routers/fast_router.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/carbon/routers/fast_router.py b/carbon/routers/fast_router.py
index 87b0d4b..0e03929 100644
--- a/carbon/routers/fast_router.py
+++ b/carbon/routers/fast_router.py
@@ -169,7 +169,7 @@ class FastRouter(BaseRouter):
         #     self.sufficient_liquidity_exists(x, use_positions_matchlevel)
 
         actions = []
-        x = abs(x)
+        x = x0 = abs(x)
         for quote in sorted(
                 [Quote(n, trade(x, n)) for n in self.indexes], key=cmp_to_key(cmp)
         ):
@@ -202,6 +202,12 @@ class FastRouter(BaseRouter):
                     )
                     break
 
+        # without partial support the full amount (x0) must be matched, up to rounding
+        if check_sufficient_liquidity and not support_partial and not self.use_floor_division:
+            unmatched = x0 - sum(action.input for action in actions)
+            if unmatched > x0 * Decimal("1E-12"):
+                raise ValueError("Insufficient liquidity across all user positions to support this trade.", x0, unmatched)
+
         # Format the output
         match_method = "by_src" if not is_by_target else "by_target"
         actions[0].total_output = actions[0].output
@@ -238,6 +244,7 @@ class FastRouter(BaseRouter):
             is_by_target=is_by_target,
             completed_trade=False,
             check_sufficient_liquidity=check_sufficient_liquidity,
+            support_partial=support_partial,
         )
 
     def match_by_target(
@@ -255,6 +262,7 @@ class FastRouter(BaseRouter):
             is_by_target=is_by_target,
             completed_trade=False,
             check_sufficient_liquidity=check_sufficient_liquidity,
+            support_partial=support_partial,
         )
 
     def __post_init__(self):
-- 
2.43.0


From 2d17f997046ae6a07dbe4b0e837d1471d7641757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 07/95] fix: a quoted order trade does not pay the linked order

CarbonOrderUI.selly(execute=False) (also buyx, tradeto) left the order itself
alone but added the proceeds to the linked order.
---
 carbon/carbon_order_ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index 4ce0add..ebf7137 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -987,7 +987,7 @@ class CarbonOrderUI:
         if execute:
             self.y = ynew
 
-        if self.linked:
+        if self.linked and execute:
             result_linked = self.linked.addliqy(dx)
         else:
             result_linked = None
-- 
2.43.0


From 3eb5216d284beee2d74a21ebce7494a2de63be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 08/95] fix: a refused order trade leaves the order unchanged

selly() with a linked order and a negative amount reduced the order before the
linked order refused the proceeds; buyx() failed with a TypeError instead of
returning None for trades beyond capacity.
---
 carbon/carbon_order_ui.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index ebf7137..d3bfbee 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -984,14 +984,14 @@ class CarbonOrderUI:
             if ynew<0: ynew = 0  # see if ynew < -self.EPSILON
 
         dx = self.dxfromdy_f(dy, checkbounds=False, raiseonerror=True)
-        if execute:
-            self.y = ynew
-
         if self.linked and execute:
             result_linked = self.linked.addliqy(dx)
         else:
             result_linked = None
 
+        if execute:
+            self.y = ynew
+
         result = {
             "action":       "bysource[selly]",
             "executed":     execute,
@@ -1030,6 +1030,7 @@ class CarbonOrderUI:
         """
         dy = self.dyfromdx_f(dx, checkbounds=False, raiseonerror=True)
         result = self.selly(dy, execute, allowneg, expandcurve, raiseonerror)
+        if result is None: return None
         result["action"] = "bytarget[buyx]"
         return result
 
-- 
2.43.0


From f3e48e383547d2110f93f7d5fc287cac6f387bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 09/95] fix: do not trade orders of another pair whose
 concatenated name is the same

---
 carbon/simulators/carbon_simulator.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/carbon/simulators/carbon_simulator.py b/carbon/simulators/carbon_simulator.py
index 92d18ed..46a260d 100644
--- a/carbon/simulators/carbon_simulator.py
+++ b/carbon/simulators/carbon_simulator.py
@@ -684,8 +684,8 @@ class CarbonSimulatorUI:
             order_ids = [
                 k
                 for k in self.orders.keys()
-                if self.orders[k].pair_name
-                   in [carbon_pair.pair_iso, carbon_pair_r.pair_iso]
+                if self.orders[k].pair.slashpair
+                   in [carbon_pair.slashpair, carbon_pair_r.slashpair]
                    and self.orders[k].tkn == tkn
                    and not self.orders[k].disabled
                 if self.orders[k].y > 0
@@ -1255,10 +1255,10 @@ class CarbonSimulatorUI:
         """
         PRIVATE - checks if pair has any liquid positions (raises if not)
         """
-        orders = {o.pair_name for o in self.orders.values() if o.y > 0}
+        orders = {o.pair.slashpair for o in self.orders.values() if o.y > 0}
         if (
-                carbon_pair.pair_iso not in orders
-                and carbon_pair.reverse.pair_iso not in orders
+                carbon_pair.slashpair not in orders
+                and carbon_pair.reverse.slashpair not in orders
         ):
             raise ValueError(f"valid liquidity positions for {carbon_pair.pair_iso}")
 
-- 
2.43.0


From 4b09b97b00ad7be2bbbd8118cbbd869eb117968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 10/95] fix: CarbonPair.from_slashpair sets the decimals of
 both tokens

---
 carbon/pair.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/pair.py b/carbon/pair.py
index baf1a0e..4eb8938 100644
--- a/carbon/pair.py
+++ b/carbon/pair.py
@@ -228,7 +228,8 @@ class CarbonPair:
         tknb = tokens[0].strip()
         tknq = tokens[1].strip()
         newobj = cls(f"{tknb}/{tknq}")
-        newobj.set_decimals(decimals)
+        if not decimals is None:
+            newobj.set_decimals(*decimals)
         return newobj
         
 
-- 
2.43.0


From 2cea9b47fb2a5cdb57336e9efa2c6aed863a310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 11/95] fix: CarbonPair.from_isopair_and_tkn with a token name
 that occurs in the other one

---
 carbon/pair.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/carbon/pair.py b/carbon/pair.py
index 4eb8938..f9a4389 100644
--- a/carbon/pair.py
+++ b/carbon/pair.py
@@ -193,18 +193,18 @@ class CarbonPair:
                     tkn,
                 )
         else:
-            tkn2 = isopair.replace(tkn, ".")
-            if tkn2 == isopair:
+            tkn = tkn.upper()
+            if not tkn in isopair or tkn == isopair:
                 raise ValueError(
                     "Invalid token specification (tkn not part of isopair)",
                     isopair,
                     tkn,
                 )
-            if tkn2[0] == ".":
+            if isopair.startswith(tkn):
                 tknb = tkn
-                tknq = tkn2[1:]
-            elif tkn2[-1] == ".":
-                tknb = tkn2[:-1]
+                tknq = isopair[len(tkn):]
+            elif isopair.endswith(tkn):
+                tknb = isopair[:-len(tkn)]
                 tknq = tkn
             else:
                 raise ValueError(
-- 
2.43.0


From 791eb09ee6f42972f4c4c4acc857192592ea6c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 12/95] fix: CarbonPair.limit_is_met takes reverse into account

---
 carbon/pair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carbon/pair.py b/carbon/pair.py
index f9a4389..239e1c4 100644
--- a/carbon/pair.py
+++ b/carbon/pair.py
@@ -449,6 +449,10 @@ class CarbonPair:
             result = f"Order placer {action} {tkn} at {current_price} {self.price_convention} (limit={limit_price})"
             return result
 
+        # the counterparty of the order placer does the opposite
+        if reverse:
+            buysell = {self.BUY: self.SELL, self.SELL: self.BUY}.get(buysell, buysell)
+
         # if the prices coincide, both buy and sell orders will be executed
         if current_price == limit_price:
             return True
-- 
2.43.0


From fc33138e3bf9fe4eb6a3683782751d8164e70d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:34 +0000
Subject: [PATCH 13/95] fix: alpha matching by source counts what an order can
 absorb from its current balance

---
 carbon/routers/alpha_router.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/carbon/routers/alpha_router.py b/carbon/routers/alpha_router.py
index adc20fe..afbff3e 100644
--- a/carbon/routers/alpha_router.py
+++ b/carbon/routers/alpha_router.py
@@ -344,11 +344,12 @@ class AlphaRouter(BaseRouter):
         available_value = []
         for k, v in hypothetical_output_amts.items():
             if v > self.orders[k].y:
-                price = self.get_geoprice(k)
-                amount = self.orders[k].y
+                # the order is emptied from its current state, not from its capacity
+                amount = Decimal(str(self.orders[k].y))
+                value = self.amt_by_target(subject=k, dx=amount)
                 amounts += [amount]
-                effective_prices += [price]
-                available_value += [price * amount]
+                effective_prices += [value / amount]
+                available_value += [value]
             else:
                 amounts += [v]
                 price = x / v
-- 
2.43.0


From 300aeac82ef5d680cef4cbfdeed95c3b88358aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 14/95] fix: alpha matching does not sell more than a nearly
 empty book holds

---
 carbon/routers/alpha_router.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/carbon/routers/alpha_router.py b/carbon/routers/alpha_router.py
index afbff3e..8d33822 100644
--- a/carbon/routers/alpha_router.py
+++ b/carbon/routers/alpha_router.py
@@ -255,10 +255,9 @@ class AlphaRouter(BaseRouter):
         # print(f'is_by_target {is_by_target}') # True
         # print(tabulate(results,headers=list(results.columns)))
         if support_partial & (results.ordered_associated_liquidity.sum() < abs(x)):
-            if x < 0:
-                x = -results.ordered_associated_liquidity.sum() + Decimal('0.0000000001')
-            else:
-                x = results.ordered_associated_liquidity.sum() - Decimal('0.0000000001')
+            available = Decimal(results.ordered_associated_liquidity.sum())
+            available -= min(Decimal('0.0000000001'), available / 2)
+            x = -available if x < 0 else available
         passed_indexes = AlphaRouter.gen_one_order_selector(results.ordered_associated_liquidity, abs(x), threshold_orders)
         top_n_threshold_orders = [results.indexes[i] for i in passed_indexes]
 
@@ -384,10 +383,9 @@ class AlphaRouter(BaseRouter):
         # print(f'is_by_target {is_by_target}') #False
         # print(tabulate(results,headers=list(results.columns)))
         if support_partial & (results.available_value.sum() < abs(x)):
-            if x < 0:
-                x = -results.available_value.sum() + Decimal('0.0000000001')
-            else:
-                x = results.available_value.sum() - Decimal('0.0000000001')
+            available = Decimal(results.available_value.sum())
+            available -= min(Decimal('0.0000000001'), available / 2)
+            x = -available if x < 0 else available
         passed_indexes = AlphaRouter.gen_one_order_selector(results.available_value, abs(x), threshold_orders)
         top_n_threshold_orders = [results.indexes[i] for i in passed_indexes]
 
-- 
2.43.0


From 7e0fd2fec37ed44f5ab30a4c670da7cd924bde8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 15/95] fix: CarbonOrderUI.tradeto on a flat order

---
 carbon/carbon_order_ui.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index d3bfbee..de36133 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -622,6 +622,9 @@ class CarbonOrderUI:
                 if raiseonerror:
                     raise self.PriceOutOfBoundsErrorBeyondEnd("Price out of bounds (beyond end)", p, self.pb)
                 return 0
+        if self.S == 0:
+            # flat curve: the price is the same for every y, hence y does not change
+            return self.y
         y = self.yint * (sqrt(dydx) - self.B) / self.S
         if checkbounds:
             if y > self.y:
@@ -1050,7 +1053,7 @@ class CarbonOrderUI:
                 self.PriceOutOfBoundsErrorBeyondMarg):
             dy = 0
         except self.PriceOutOfBoundsErrorBeyondEnd:
-            dy = self.dyfromp_f(self.p_end, checkbounds=False, raiseonerror=False)
+            dy = self.y
         result = self.selly(dy, execute, allowneg=False, expandcurve=False, raiseonerror=True)
         if result is None:
             raise RuntimeError(f"Unexpected None value at {p_marg}", dy, self.yint, self.y, self.p_marg, p_marg, self)
-- 
2.43.0


From b81958655511a075c4f467a0205b20f0ec593829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 16/95] fix: CarbonOrderUI.tradeto does not change the capacity
 of an empty order

---
 carbon/carbon_order_ui.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index de36133..f79aec5 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -1047,6 +1047,10 @@ class CarbonOrderUI:
         """
         if self.yint == 0:
             self.yint = 1e-50 # selly fails on a fully empty curve, even with dy=0
+            try:
+                return self.tradeto(p_marg, execute)
+            finally:
+                self.yint = 0
         try:
             dy = self.dyfromp_f(p_marg, checkbounds=True, raiseonerror=True)
         except (self.PriceOutOfBoundsErrorBeyondStart, 
-- 
2.43.0


From 9d0774a294a56e3ee75a40776771a1e118d1c5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 17/95] fix: CarbonOrderUI.from_prices with the token in lower
 case

---
 carbon/carbon_order_ui.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index f79aec5..ee6fee2 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -181,6 +181,7 @@ class CarbonOrderUI:
         be confusing in reverse quotation, so we correct by exchanging pa, pb if pb < pa
         """
         pair = CarbonPair(pair)
+        tkn = tkn.upper()
         if yint<0:
             raise ValueError(f"yint must be non-negative (yint={yint})", pair, tkn, pa, pb, yint, y)
         if y>yint:
-- 
2.43.0


From 6fe5aed66bf0812088665f5ead3c1ac4891ffcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 18/95] fix: errors of CarbonOrderUI curve functions name
 undefined variables

---
 carbon/carbon_order_ui.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index ee6fee2..a6aa10e 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -548,7 +548,7 @@ class CarbonOrderUI:
         
         if self.yint == 0:
             if not self.y == 0 and dy == 0:
-                raise ValueError("If yint=0 you must also have y,dy=0", yint, y, dy)
+                raise ValueError("If yint=0 you must also have y,dy=0", self.yint, y, dy)
             dydx = ((self.B + self.S))**2
         else:
             dydx = ((self.B + self.S * y/self.yint))**2
@@ -584,7 +584,7 @@ class CarbonOrderUI:
 
         if self.yint == 0:
             if not y0 == 0 and dy == 0:
-                raise ValueError("If yint=0 you must also have y,dy=0", yint, y, dy)
+                raise ValueError("If yint=0 you must also have y,dy=0", self.yint, y, dy)
             dydx = ((self.B + self.S))**2
         else:
             if dy==0:
@@ -695,7 +695,7 @@ class CarbonOrderUI:
         if checkbounds:
             if num < 0:
                 if raiseonerror:
-                    raise ValueError("AMM does not have enough y liquidity to purchase dx", y, dx, num)
+                    raise ValueError("AMM does not have enough y liquidity to purchase dx", self.y, dx, num)
                 return None
 
         return dx * (num/denom) 
@@ -802,7 +802,7 @@ class CarbonOrderUI:
         if checkbounds:
             if y < 0:
                 if raiseonerror:
-                    raise ValueError("The value of x is out of bounds (x>xint; y<0)", x, xint, y)
+                    raise ValueError("The value of x is out of bounds (x>xint; y<0)", x, self.xint, y)
                 return None 
         return y
 
-- 
2.43.0


From 7929d5127f13179f7c6573742946ef95658d4295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:27 +0000
Subject: [PATCH 19/95] fix: CarbonOrderUI.goalseek with a bracket that is not
 positive

---
 carbon/carbon_order_ui.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index a6aa10e..f2f1c3e 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -925,6 +925,8 @@ class CarbonOrderUI:
             
         while 1:
             m = 0.5*(a+b)
+            if not a<m<b:
+                return m
             fm = func(m)
             if fm * fa > 0:
                 a = m
@@ -932,7 +934,7 @@ class CarbonOrderUI:
                 b = m
             
             #print(f"m={m}, m={m}, b={b}")
-            if b/a-1 < eps:
+            if b-a < eps*max(abs(a), abs(b)):
                 return m
 
     EPSILON = 1e-10
-- 
2.43.0


From 6b263c45d7ff2fd6c1f299a97d0f4f4f5d8fd43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:22 +0000
Subject: [PATCH 20/95] fix: matchBest walks the orders by marginal rate,
 without empty ones

---
 benchmark/core/match/impl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/benchmark/core/match/impl.py b/benchmark/core/match/impl.py
index 1f182eb..e801295 100644
--- a/benchmark/core/match/impl.py
+++ b/benchmark/core/match/impl.py
@@ -107,7 +107,7 @@ def matchFast(amount, orders, quotes, filter, trade):
 
 '''
  * Compute a list of {order id, trade amount} tuples:
- * - Iterate the orders from best rate to worst rate:
+ * - Iterate the orders from best marginal rate to worst marginal rate:
  *   - Calculate a trade which brings orders `0` thru `n - 1` to the rate of order `n`
  *   - If the result is larger than or equal to the requested trade amount, then stop
  * - If the result is larger than the requested trade amount:
@@ -116,7 +116,10 @@ def matchFast(amount, orders, quotes, filter, trade):
  *   - If the result is equal to the requested trade amount, then stop
 '''
 def matchBest(amount, orders, quotes, filter, trade, equalize):
+    quotes = [quote for quote in quotes if orders[quote.id]['y'] > 0]
+    quotes = sorted(quotes, key=lambda quote: getLimit(orders[quote.id]), reverse=True)
     orders = [orders[quote.id] for quote in quotes] + [{k: 0 for k in 'yzAB'}]
+    rates, delta = [], 0
 
     for n in range(1, len(orders)):
         limit = getLimit(orders[n])
-- 
2.43.0


From 38a850ad7d687c5f1fe88fd5c3795bb69404ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:22 +0000
Subject: [PATCH 21/95] fix: matchBest keeps every order within one step of the
 common rate when it settles the remainder

---
 benchmark/core/match/impl.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/benchmark/core/match/impl.py b/benchmark/core/match/impl.py
index e801295..eea685d 100644
--- a/benchmark/core/match/impl.py
+++ b/benchmark/core/match/impl.py
@@ -145,15 +145,18 @@ def matchBest(amount, orders, quotes, filter, trade, equalize):
                 break
 
     if delta > 0:
+        limit = min(limit + 1, getLimit(orders[n - 1]))
+        least = [equalize(order, limit) if getLimit(order) > limit else 0 for order in orders[:n]]
         for i in reversed(range(len(rates))):
-            rate = trade(rates[i].input - delta, orders[i])
+            rate = trade(max(rates[i].input - delta, least[i]), orders[i])
             delta += rate.input - rates[i].input
             rates[i] = rate
             if delta <= 0:
                 break
     elif delta < 0:
         for i in range(len(rates)):
-            rate = trade(rates[i].input - delta, orders[i])
+            most = equalize(orders[i], limit - 1)
+            rate = trade(min(rates[i].input - delta, most), orders[i])
             delta += rate.input - rates[i].input
             if delta > 0:
                 break
-- 
2.43.0


From eea97930297856cbabbe4e60f4bd61a0ca76961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 22/95] fix: strategy seeds zero risk amounts and refuses
 marginal prices together with y_int

---
 carbon/helpers/strategym.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 6d466ad..89902f5 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -57,12 +57,6 @@ class strategy():
     rescale: bool = True
     rescaled_fctr: float = None
 
-    def __post_init__(self):
-        pm_provided = not self.psell_marginal is None or not self.pbuy_marginal is None
-        yi_provided = not self.y_int_sell is None or not self.y_int_buy is None
-        if pm_provided and yi_provided:
-            raise ValueError("Not both p_marginal and y_int can be provided", self.psell_marginal, self.y_int_sell, self.pbuy_marginal, self.y_int_buy)
-        
     MIN_SEED_AMT = 1e-10
 
     def rescale_strat(self, newspot=100, oldspot=100, force=False):
@@ -132,9 +126,14 @@ class strategy():
         return newobj
 
     def __post_init__(self):
+        pm_provided = not self.psell_marginal is None or not self.pbuy_marginal is None
+        yi_provided = not self.y_int_sell is None or not self.y_int_buy is None
+        if pm_provided and yi_provided:
+            raise ValueError("Not both p_marginal and y_int can be provided", self.psell_marginal, self.y_int_sell, self.pbuy_marginal, self.y_int_buy)
+
         # the ==0 is important: do not touch None!
         # (None means: to be filled in later)
-        if self.amt_rsk == 0: self.amt_risk = self.MIN_SEED_AMT
+        if self.amt_rsk == 0: self.amt_rsk  = self.MIN_SEED_AMT
         if self.amt_csh == 0: self.amt_csh  = self.MIN_SEED_AMT
         if self.rsk is None: self.rsk = "RSK"
         if self.csh is None: self.csh = "CSH"
-- 
2.43.0


From bfa9b5f5847675b1edbce0c31f8e5b787a2cdd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 23/95] fix: from_mgw treated the range width like a
 utilization (capped at 0.999, refused above 1 or 0 in a tuple)

---
 carbon/helpers/strategym.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 89902f5..8fd34bd 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -270,7 +270,6 @@ class strategy():
         p_marg -> p_end (we can not have u=1 for y>0); p_marg = (1-u) p_s + u p_e;
         for values MAX_UTIL < u <=1, u is set to MAX_UTIL
         """
-        if w==0: w=0.0001
         if g==0: g=0.0001
         try:
             # this will work on tuple / list of length 2...
@@ -281,9 +280,12 @@ class strategy():
         #print("[from_mgw] u, usell, ubuy", u, usell, ubuy)
     
         try:
-            wsell, wbuy = (cls._validate(ww) for ww in w)
-        except:
-            wsell = wbuy = cls._validate(w)
+            wsell, wbuy = w
+        except TypeError:
+            wsell = wbuy = w
+        wsell, wbuy = (ww if ww else 0.0001 for ww in (wsell, wbuy))
+        if wsell < 0 or wbuy < 0:
+            raise ValueError("Must have w >= 0", w)
         #print("[from_mgw] w, wsell, wbuy", w, wsell, wbuy)
     
         
-- 
2.43.0


From 86299df9346bc7de32793f26006969a9fb7fe275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 24/95] fix: strategy.filter_isnan lost numbers, strategy.drr
 failed on undefined names

---
 carbon/helpers/strategym.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/carbon/helpers/strategym.py b/carbon/helpers/strategym.py
index 8fd34bd..500b68e 100644
--- a/carbon/helpers/strategym.py
+++ b/carbon/helpers/strategym.py
@@ -9,6 +9,7 @@ from dataclasses import dataclass as _dataclass
 from math import sqrt as _sqrt
 from copy import copy as _copy
 from math import isnan as _isnan
+import pandas as _pd
 
 @_dataclass
 class strategy():
@@ -458,14 +459,14 @@ class strategy():
         r0k = tuple(rr)[0]
         r0 = rr[r0k]
         if not asdf:
-            result = {k:dr(r, r0, purge) for k,r in rr.items()}
+            result = {k:strategy.dr(r, r0, purge) for k,r in rr.items()}
             if not baseline:
                 return result
             result[r0k] = {k:v for k,v in r0.items() if not k in ["id0", "comment"]}
             return result
         else:
-            result = {k:dr(r, r0, purge=False) for k,r in rr.items()}
-            df = pd.DataFrame.from_records(result).T.fillna("")
+            result = {k:strategy.dr(r, r0, purge=False) for k,r in rr.items()}
+            df = _pd.DataFrame.from_records(result).T.fillna("")
             del df["id0"]
             if not comment: 
                 del df["comment"]
@@ -481,4 +482,5 @@ class strategy():
             if _isnan(val):
                 return ""
         except TypeError:
-            return val
\ No newline at end of file
+            pass
+        return val
\ No newline at end of file
-- 
2.43.0


From 0c8d998a095efb739eca961f2841c1a362ac3c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:44 +0000
Subject: [PATCH 25/95] fix: path interpolation lost the points of segments
 shorter than the period

---
 carbon/helpers/pathinterpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/pathinterpolation.py b/carbon/helpers/pathinterpolation.py
index f884c84..2a8580c 100644
--- a/carbon/helpers/pathinterpolation.py
+++ b/carbon/helpers/pathinterpolation.py
@@ -87,7 +87,7 @@ class PathInterpolation():
         path_td_yrs = path_td/_pd.Timedelta(days=1)/365.25
         if period > path_td:
             print("[interpolate_segment] sample period too large; returning original")
-            return path_segment.iloc[:1]
+            return path_segment
         numsegments = int(round(path_td/period,0))
         period_act = path_td/numsegments
         sample_path_np = cls.gaussian_bridge(path_segment[0], path_segment[1], sig*_sqrt(path_td_yrs), numsegments)
-- 
2.43.0


From ddb90512d3a8792d7a834f6e6d673c8a7ed153e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 26/95] fix: PathGenerator ignored the column names it was
 constructed with

---
 carbon/helpers/pathgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/pathgenerator.py b/carbon/helpers/pathgenerator.py
index 5575ec6..d60606b 100644
--- a/carbon/helpers/pathgenerator.py
+++ b/carbon/helpers/pathgenerator.py
@@ -125,7 +125,7 @@ class PathGenerator():
         """
         
         if numpaths is None: numpaths = self.DEFAULTS["numpaths"]
-        if colname is None: colname = self.DEFAULTS["colname"]
+        if colname is None: colname = self.colname
         
         paths = [self.path() for _ in range(numpaths)]
         #df0 = pd.DataFrame(data=self.vec2ar([self.times, self.datetimes]), columns=["time", "datetime"])
-- 
2.43.0


From f9e6872753f491823070bbe857c522aab6648041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:53 +0000
Subject: [PATCH 27/95] fix: PathGenerator column names truncate sig and mu by
 float error (0.29 became 028)

---
 carbon/helpers/pathgenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/helpers/pathgenerator.py b/carbon/helpers/pathgenerator.py
index d60606b..442f118 100644
--- a/carbon/helpers/pathgenerator.py
+++ b/carbon/helpers/pathgenerator.py
@@ -132,8 +132,8 @@ class PathGenerator():
         df0 = pd.DataFrame(data=self.vec2ar([self.datetimes]), columns=["datetime"])
         cols = [
             colname.format(
-                sig100 = int(self.sig*100),
-                mu100  = int(self.mu*100),   
+                sig100 = int(round(self.sig*100)),
+                mu100  = int(round(self.mu*100)),   
                 ix     = ix
                 ) 
             for ix in range(len(paths))
-- 
2.43.0


From 8a14d5f9d5d2a3e565e82d6d61d35b0871476257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 28/95] fix: from_univ3 labels its curves as such (from_pkpp
 ignored its constr argument)

---
 carbon/tools/cpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 2fd16f4..1dfe458 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -345,7 +345,7 @@ class ConstantProductCurve():
         xa = x0 - sqrt(k/p_max)
         ya = y0 - sqrt(k*p_min)
         constr = constr or "pkpp"
-        return cls(k=k, x=x0, x_act=xa, y_act=ya, pair=pair, cid=cid, fee=fee, descr=descr, constr="pkpp", params=params)
+        return cls(k=k, x=x0, x_act=xa, y_act=ya, pair=pair, cid=cid, fee=fee, descr=descr, constr=constr, params=params)
     
     @classmethod
     def from_univ2(cls, x_tknb=None, y_tknq=None, k=None, pair=None, fee=None, cid=None, descr=None, params=None):
-- 
2.43.0


From 911e795a78829e727c3b6ea6b6c74eb284203852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:33 +0000
Subject: [PATCH 29/95] fix: inverted curves that are not bounded have no price
 bound (CPCInverter.p_min/p_max raised)

---
 carbon/tools/cpc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 1dfe458..2439a42 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1806,11 +1806,13 @@ class CPCInverter():
     
     @property
     def p_min(self):
-        return 1/self.curve.p_max
+        p_max = self.curve.p_max
+        return 1/p_max if p_max else None
     
     @property
     def p_max(self):
-        return 1/self.curve.p_min
+        p_min = self.curve.p_min
+        return 1/p_min if p_min else None
     
     @property
     def y_act(self):
-- 
2.43.0


From 00f73a7707520d298108a9c5d5d9edb0be0efc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 30/95] fix: execute also refuses trades that take more of the
 other token than the curve has

---
 carbon/tools/cpc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 2439a42..6896be3 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -544,6 +544,12 @@ class ConstantProductCurve():
             newy = self.y + dy
             newx = self.k / newy
         
+        if not ignorebounds:
+            # the amount coming in may also be more than the amount available on the other side pays for
+            for new, act, tkn in ((newx, self.x_act + newx - self.x, self.tknx), (newy, self.y_act + newy - self.y, self.tkny)):
+                if not new > 0 or act < -1e-12 * new:
+                    raise ValueError(f"trade beyond the bounds of the curve (dx={dx}, dy={dy}, {tkn}: {act} [{self.cid}: {self.pair}])")
+
         if verbose:
             if dx is None: dx=newx-self.x
             if dy is None: dy=newy-self.y
-- 
2.43.0


From 529e9a1cce5aca885cb6059dcfab0bc6f99b053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 31/95] fix: goalseek returns a result object, and the right
 one, when it hits the zero exactly

---
 carbon/tools/optimizer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index b171771..f974ffb 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -289,10 +289,13 @@ class OptimizerBase:
                 method="findminmax_nr"
                 )
             raise ValueError("function must have different signs at a,b")
+        for c in (a, b):
+            if func(c) == 0:
+                return cls.SimpleResult(result=c, method="findminmax_nr")
         while (b - a) > cls.GOALSEEKEPS:
             c = (a + b) / 2
             if func(c) == 0:
-                return c
+                return cls.SimpleResult(result=c, method="findminmax_nr")
             elif func(a) * func(c) < 0:
                 b = c
             else:
-- 
2.43.0


From 945437a24ceca66e75e336e0a5688e02a26dba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 32/95] fix: margp_optimizer reports an error when it converges
 in the last iteration

---
 carbon/tools/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index f974ffb..ef00fd4 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1311,7 +1311,7 @@ class CPCArbOptimizer(OptimizerBase):
         
         NOMR = lambda f: f if not result==self.MO_MINIMAL else None
         
-        if i == maxiter-1:
+        if not criterium < eps:
             return self.MargpOptimizerResult(
                 optimizer=NOMR(self),
                 result =  None,
-- 
2.43.0


From 7b01ca7d99d044dd1a937a5578e73272c93962d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 33/95] fix: nofees_optimizer with a token name leaves the
 other tokens unconstrained

---
 carbon/tools/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index ef00fd4..7dfab8b 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -693,7 +693,8 @@ class CPCArbOptimizer(OptimizerBase):
         
         assert not cp is None, "cvxpy not installed [pip install cvxpy]]"
         if isinstance(sfc, str):
-            sfc = self.SelfFinancingConstraints.arb(sfc)
+            # with the constraints for the other tokens
+            sfc = self.SFC(**{sfc: self.OV})
 
         curves_t = self.curve_container.curves
         c0 = curves_t[0]
-- 
2.43.0


From 094d70f12d2d1d192ba20ea35306b24beb4f55dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 34/95] fix: goalseek stops before it starts if the numbers are
 small (eg prices of cheap tokens)

---
 carbon/tools/optimizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 7dfab8b..499ac54 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -292,7 +292,8 @@ class OptimizerBase:
         for c in (a, b):
             if func(c) == 0:
                 return cls.SimpleResult(result=c, method="findminmax_nr")
-        while (b - a) > cls.GOALSEEKEPS:
+        # the precision is relative if the numbers are small (eg prices of cheap tokens)
+        while (b - a) > cls.GOALSEEKEPS * min(1, max(abs(a), abs(b))):
             c = (a + b) / 2
             if func(c) == 0:
                 return cls.SimpleResult(result=c, method="findminmax_nr")
-- 
2.43.0


From f6ec3b77f1d444de87165ed4a4cee7d85fac1d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 35/95] fix: curves added to a container use its token scale
 (as those it is created with)

---
 carbon/tools/cpc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 6896be3..758d04b 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -974,6 +974,7 @@ class CPCContainer():
         else:
             pass
             #print("[add] item.cid =", item.cid)
+        item.set_tokenscale(self.tokenscale)
         self.curves_by_cid[item.cid] = item
         self.curveix_by_curve[item] = len(self)
         self.curves += [item]
-- 
2.43.0


From 16c1db4145e9d1f6569be1ccc5ff243d3b2eb38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 36/95] fix: bypairs drops pairs if there are spaces in the
 list (as the other filters it ignores them now)

---
 carbon/tools/cpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 758d04b..10434a1 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1350,7 +1350,7 @@ class CPCContainer():
         :returns:   tuple, generator or container object (default)
         """
         if isinstance(pairs, str):
-            pairs = set(pairs.split(","))
+            pairs = self.pairset(pairs)
         if pairs is None:
             result = (c for c in self)
         else:
-- 
2.43.0


From 22819c582d8238b96bed2889ce6cae33c8f445ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 37/95] fix: missing values (eg fee) survive the round trip of
 a curve container through a data frame

---
 carbon/tools/cpc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 10434a1..bf92d5a 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -941,7 +941,9 @@ class CPCContainer():
         "alternative constructor: creates a container from a dataframe representation"
         if "cid" in df.columns:
             df = df.set_index("cid")
-        return cls.from_dicts(df.reset_index().to_dict("records"), tokenscale=tokenscale)
+        df = df.reset_index()
+        df = df.astype(object).where(df.notna(), None) # missing values are None in the curves
+        return cls.from_dicts(df.to_dict("records"), tokenscale=tokenscale)
     
     def add(self, item):
         """
-- 
2.43.0


From 05083386ae78be1ca5d72ac9b642eb4ea6af507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 38/95] fix: symmetric pivot tables lose the pairs whose tokens
 are only base or only quote

---
 carbon/tools/cpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index bf92d5a..9a4a64f 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -1075,7 +1075,7 @@ class CPCContainer():
         """converts df into upper triangular matrix by adding the lower triangle"""
         df = df.copy()
         fields = df.index.union(df.columns)
-        df = df.reindex(index=fields, columns=fields)
+        df = df.reindex(index=fields, columns=fields).fillna(0)
         df = df + df.T
         df = df.fillna(0).astype(int)
         return df
-- 
2.43.0


From 06189f01ca9ffec99a12347b65caaa0bbd8a2fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 39/95] fix: trade instructions were refused if rounding errors
 of large token amounts exceed 1e-8

---
 carbon/tools/optimizer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 499ac54..b8669ae 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1486,7 +1486,7 @@ class CPCArbOptimizer(OptimizerBase):
             self.amtin = float(self.amtin)
             self.amtout = float(self.amtout)
             if not self.amtin*self.amtout < 0:
-                if abs(self.amtin)<self.POSNEGEPS and abs(self.amtout)<self.POSNEGEPS:
+                if abs(self.amtin)<self._eps(curve, self.tknin) and abs(self.amtout)<self._eps(curve, self.tknout):
                     self.amtin = 0
                     self.amtout = 0
                 else:
@@ -1494,6 +1494,14 @@ class CPCArbOptimizer(OptimizerBase):
             assert self.amtin >= 0, f"amtin must be positive [{self.amtin}]" # seen from AMM
             assert self.amtout <= 0, f"amtout must be negative [{self.amtout}]"
 
+        RELEPS = 1e-12
+        @classmethod
+        def _eps(cls, curve, tkn):
+            """amounts of tkn smaller than this are considered zero (absolute, and relative to the curve)"""
+            if curve is None:
+                return cls.POSNEGEPS
+            return max(cls.POSNEGEPS, cls.RELEPS * (curve.x if tkn == curve.tknx else curve.y))
+
         TIEPS = 1e-10
         @classmethod
         def new(cls, curve_or_cid, tkn1, amt1, tkn2, amt2, *, eps=None):
-- 
2.43.0


From 4bfe50fdd49b35046c22aad3f4ada0d72b73f4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 40/95] fix: margp_optimizer raised (division by zero) instead
 of reporting an error when prices diverge

---
 carbon/tools/optimizer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index b8669ae..21c3b56 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1079,6 +1079,7 @@ class CPCArbOptimizer(OptimizerBase):
     
     MOEPS = 1e-6
     MOMAXITER = 50
+    MOMAXLOG10P = 100   # prices beyond 10**(+/-100) are considered diverging
 
     def margp_optimizer(self, sfc=None, result=None, *, params=None):
         """
@@ -1257,6 +1258,7 @@ class CPCArbOptimizer(OptimizerBase):
             #     print("[margp_optimizer] dtkn_d", dtkn_d)
                 
 
+        errormsg = f"maximum number of iterations reached [{maxiter}]"
         for i in range(maxiter):
 
             if P("progress"):
@@ -1284,6 +1286,11 @@ class CPCArbOptimizer(OptimizerBase):
             p0log10 = [*plog10]
             plog10 += dplog10
             criterium = np.linalg.norm(dplog10)
+            if not np.all(np.abs(plog10) < self.MOMAXLOG10P):
+                # the prices diverge (or are nan), and would eventually overflow
+                errormsg = f"prices diverge [log10 p = {plog10}]"
+                criterium = np.inf
+                break
             p = np.exp(plog10 * np.log(10))
             if P("verbose"):
                 print(f"\n[margp_optimizer] ========== cycle {i} =======>>>")
@@ -1326,7 +1333,7 @@ class CPCArbOptimizer(OptimizerBase):
                 dtokens_t = None,
                 tokens_t = tokens_t,
                 n_iterations = i,
-                errormsg = f"maximum number of iterations reached [{maxiter}]",
+                errormsg = errormsg,
             )
         
         dtokens_d, dtokens_t = dtknfromp_f(p, asdct=True, islog10=False)
-- 
2.43.0


From 76779b79ad2cde2583cfa04d692745cb151a7ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:53 +0000
Subject: [PATCH 41/95] fix: margp_optimizer reports convergence at prices that
 leave token flows unbalanced

---
 carbon/tools/optimizer.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 21c3b56..3ac6e51 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1320,6 +1320,20 @@ class CPCArbOptimizer(OptimizerBase):
         
         NOMR = lambda f: f if not result==self.MO_MINIMAL else None
         
+        if criterium < eps:
+            # the prices no longer move, but that can also be because no price balances the flows (eg everything that
+            # a bounded curve has on offer is sold already); the flow of a token falls with its price, so around the
+            # solution it changes sign
+            open_t = []
+            for ix, t in enumerate(tokens_t):
+                noise = 1e-10 * sum((c.x if c.tknx==t else 0) + (c.y if c.tkny==t else 0) for c in curves_t)
+                step = np.where(np.arange(len(tokens_t)) == ix, 1 + 10*eps, 1)
+                if dtknfromp_f(p/step, islog10=False)[ix] < -noise or dtknfromp_f(p*step, islog10=False)[ix] > noise:
+                    open_t.append(t)
+            if open_t:
+                errormsg = f"no prices found that balance the flows of all tokens {open_t}"
+                criterium = np.inf
+
         if not criterium < eps:
             return self.MargpOptimizerResult(
                 optimizer=NOMR(self),
-- 
2.43.0


From 6ddc65f99c13127ae969197948769f53dccb519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 42/95] fix: dx_max and dy_max of bounded curves are sometimes
 None (rounding put the bound out of bounds)

---
 carbon/tools/cpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/cpc.py b/carbon/tools/cpc.py
index 9a4a64f..b63726c 100644
--- a/carbon/tools/cpc.py
+++ b/carbon/tools/cpc.py
@@ -824,7 +824,7 @@ class ConstantProductCurve():
     def dy_max(self):
         """maximum dy value of this pool (=dy(dx_min))"""
         if self.x_act < self.x:
-            return self.dyfromdx_f(self.dx_min)
+            return self.dyfromdx_f(self.dx_min, ignorebounds=True)
         else:
             return None
     
@@ -832,7 +832,7 @@ class ConstantProductCurve():
     def dx_max(self):
         """maximum dx value of this pool (=dx(dy_min))"""
         if self.y_act < self.y:
-            return self.dxfromdy_f(self.dy_min)
+            return self.dxfromdy_f(self.dy_min, ignorebounds=True)
         else:
             return None
     
-- 
2.43.0


From 5ce113f0da04ce0e124b23ae447d4d77f1ff138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 43/95] fix: margp_optimizer reports convergence at prices that
 leave flows unbalanced (orders with huge virtual amounts)

---
 carbon/tools/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index 3ac6e51..cbcdabd 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -1326,7 +1326,7 @@ class CPCArbOptimizer(OptimizerBase):
             # solution it changes sign
             open_t = []
             for ix, t in enumerate(tokens_t):
-                noise = 1e-10 * sum((c.x if c.tknx==t else 0) + (c.y if c.tkny==t else 0) for c in curves_t)
+                noise = 1e-13 * sum((c.x if c.tknx==t else 0) + (c.y if c.tkny==t else 0) for c in curves_t)
                 step = np.where(np.arange(len(tokens_t)) == ix, 1 + 10*eps, 1)
                 if dtknfromp_f(p/step, islog10=False)[ix] < -noise or dtknfromp_f(p*step, islog10=False)[ix] > noise:
                     open_t.append(t)
-- 
2.43.0


From e7849f58f87613e249220517e836e1db12251c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 44/95] Revert "fix: matchBest keeps every order within one
 step of the common rate when it settles the remainder"

This reverts commit 38a850ad7d687c5f1fe88fd5c3795bb69404ecb1.
---
 benchmark/core/match/impl.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/benchmark/core/match/impl.py b/benchmark/core/match/impl.py
index eea685d..e801295 100644
--- a/benchmark/core/match/impl.py
+++ b/benchmark/core/match/impl.py
@@ -145,18 +145,15 @@ def matchBest(amount, orders, quotes, filter, trade, equalize):
                 break
 
     if delta > 0:
-        limit = min(limit + 1, getLimit(orders[n - 1]))
-        least = [equalize(order, limit) if getLimit(order) > limit else 0 for order in orders[:n]]
         for i in reversed(range(len(rates))):
-            rate = trade(max(rates[i].input - delta, least[i]), orders[i])
+            rate = trade(rates[i].input - delta, orders[i])
             delta += rate.input - rates[i].input
             rates[i] = rate
             if delta <= 0:
                 break
     elif delta < 0:
         for i in range(len(rates)):
-            most = equalize(orders[i], limit - 1)
-            rate = trade(min(rates[i].input - delta, most), orders[i])
+            rate = trade(rates[i].input - delta, orders[i])
             delta += rate.input - rates[i].input
             if delta > 0:
                 break
-- 
2.43.0


From 4544b4c5012246bc26b7108a46dd745de34161cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:46 +0000
Subject: [PATCH 45/95] Revert the repairs of matchBest: benchmark/ holds the
 reference code of the test suite

---
 benchmark/core/match/impl.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/benchmark/core/match/impl.py b/benchmark/core/match/impl.py
index e801295..1f182eb 100644
--- a/benchmark/core/match/impl.py
+++ b/benchmark/core/match/impl.py
@@ -107,7 +107,7 @@ def matchFast(amount, orders, quotes, filter, trade):
 
 '''
  * Compute a list of {order id, trade amount} tuples:
- * - Iterate the orders from best marginal rate to worst marginal rate:
+ * - Iterate the orders from best rate to worst rate:
  *   - Calculate a trade which brings orders `0` thru `n - 1` to the rate of order `n`
  *   - If the result is larger than or equal to the requested trade amount, then stop
  * - If the result is larger than the requested trade amount:
@@ -116,10 +116,7 @@ def matchFast(amount, orders, quotes, filter, trade):
  *   - If the result is equal to the requested trade amount, then stop
 '''
 def matchBest(amount, orders, quotes, filter, trade, equalize):
-    quotes = [quote for quote in quotes if orders[quote.id]['y'] > 0]
-    quotes = sorted(quotes, key=lambda quote: getLimit(orders[quote.id]), reverse=True)
     orders = [orders[quote.id] for quote in quotes] + [{k: 0 for k in 'yzAB'}]
-    rates, delta = [], 0
 
     for n in range(1, len(orders)):
         limit = getLimit(orders[n])
-- 
2.43.0


From 54d6182e65277ca9fbfe52f08e35484764124259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 46/95] fix: ArbGraph.duplicate(consolidate=False) loses the
 price convention of the edges (inverse was passed as ix)

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 7bab36f..355dc17 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -911,7 +911,7 @@ class ArbGraph(_DCBase):
         nodes = {node.tkn: Node(node.tkn) for node in self.nodes}
         if not consolidate:
             edges = (Edge(edge.node_in, edge.amount_in, edge.node_out, edge.amount_out, 
-                                        edge.inverse, uid=edge.uid) for edge in self.edges)
+                                        inverse=edge.inverse, uid=edge.uid) for edge in self.edges)
         else:
             edges = ( self.filter_edges(nin, nout)
                             for nin in self.nodes for nout in self.nodes if nin != nout)
-- 
2.43.0


From 6bb55c9277af85ff7751695172020b9cb6440888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:19 +0000
Subject: [PATCH 47/95] fix: nodes and edges of a duplicated ArbGraph are no
 lists, so that it cannot be extended or asked for nodes by index

---
 carbon/tools/arbgraphs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 355dc17..d3130f0 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -919,8 +919,7 @@ class ArbGraph(_DCBase):
             edges = ( r for r in edges if not r == 0)    
         
         edges = ( r._replace_nodes(nodes) for r in edges)        
-        edges = tuple(edges)
-        return self.__class__(nodes=nodes.values(), edges=edges)
+        return self.__class__(nodes=list(nodes.values()), edges=list(edges))
 
     def reset_state(self):
         """
-- 
2.43.0


From bba1a2c9d2ba4cf601da8e6fcb79388fd7fcf0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 48/95] fix: Edge.duplicate loses the uid

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index d3130f0..2dba8ff 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -498,7 +498,7 @@ class Edge(_DCBase):
         """
         duplicate an edge with all values the same except ix
         """
-        return self.__class__(self.node_in, self.amount_in, self.node_out, self.amount_out, None, self.inverse)
+        return self.__class__(self.node_in, self.amount_in, self.node_out, self.amount_out, None, self.inverse, self.uid)
 
     def reverse(self):
         """
-- 
2.43.0


From 03266f7e72f9b8fc68f7de2b83f75558fb0d90a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 49/95] fix: run_arbitrage_cycles fails with all formats but
 tuple and gen

---
 carbon/tools/arbgraphs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 2dba8ff..21f94c3 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1482,7 +1482,7 @@ class ArbGraph(_DCBase):
             return super().asdict(dct=dct, exclude=exclude, include=include)
         
         def astuple(self, include_cycle=True):
-            return tuple(self.asdict(include_cycle).values())
+            return tuple(self.asdict(include_cycle=include_cycle).values())
         
         def tokens(self):
             return ", ".join(str(t.tkn) for t in self.cycle.data)
@@ -1651,12 +1651,12 @@ class ArbGraph(_DCBase):
         :format:       same as in `run_arbitrage_cycles`
         """
         if format is None:
-            format = self.ACREF_DF
+            format = self.ACRET_DF
 
         arbcycles = rawresults
         if format == self.ACRET_GEN or format == self.ACRET_TUPLE:
             return rawresults
-        arbcycles_dcts = tuple(r.asdict(False) for r in arbcycles)
+        arbcycles_dcts = tuple(r.asdict(include_cycle=False) for r in arbcycles)
         if format == self.ACRET_DICTS:
             return arbcycles_dcts
         df0 = pd.DataFrame.from_dict(arbcycles_dcts)
-- 
2.43.0


From a35eb56760fce200ecc3e3142f8f9abd234b316b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 50/95] fix: ArbGraph.transport fails if the amount is an
 Amount

---
 carbon/tools/arbgraphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 21f94c3..5a200c8 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1708,8 +1708,8 @@ class ArbGraph(_DCBase):
 
         # if amount_in is a Amount, ensure the token is correct
         if isinstance(amount_in, Amount):
-            if amount_in.token != node_in.token:
-                raise ValueError(f"amount_in token {amount_in.token} does not match node_in token {node_in.token}")
+            if amount_in.tkn is not node_in:
+                raise ValueError(f"amount_in token {amount_in.tkn} does not match node_in token {node_in}")
             amount_in = amount_in.amount
 
         # get the edges
-- 
2.43.0


From 3c18889de96aa7e4f054c6073b93b881ce9c863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 51/95] fix: ArbGraph.price fails with units if both tokens are
 the same

---
 carbon/tools/arbgraphs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 5a200c8..14d8abe 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1312,9 +1312,9 @@ class ArbGraph(_DCBase):
         get the price (estimate) expressed in units of end per start [only on connection-type graphs]
         """
         assert not self.is_amounttype, "cannot get price on amount-type graphs"
+        node_tknb = self.node_by_tkn(node_tknb)
+        node_tknq = self.node_by_tkn(node_tknq)
         if node_tknb != node_tknq:
-            node_tknb = self.node_by_tkn(node_tknb)
-            node_tknq = self.node_by_tkn(node_tknq)
             price = self.ptransport(self.shortest_path(node_tknb, node_tknq)).multiplier
         else:
             price = 1
-- 
2.43.0


From 0d9703f103b1898bbc84ba9752a5587dacfb9a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 52/95] fix: ArbGraph.degree fails as a matrix

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 14d8abe..ef0a4a9 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1399,7 +1399,7 @@ class ArbGraph(_DCBase):
         degree = dict(degree)
         if not as_matrix:
             return degree
-        matrix = np.diag([degree.get(node, 0) for node in G.nodes()])
+        matrix = np.diag([degree.get(node.ix, 0) for node in self.nodes])
         return matrix
     
     def in_degree(self, as_matrix=False):
-- 
2.43.0


From 291dc420c0ac58e737a0913575836dc8b839d49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 53/95] fix: Node.reset_state ignores the amount

---
 carbon/tools/arbgraphs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index ef0a4a9..fbb2b8f 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -165,7 +165,8 @@ class Node(_DCBase):
         """
         if amount is None:
             amount = 0
-        self._state = self.State(amount=amount)
+        self._state = self.State()
+        self._state.amount_.reset(amount)
 
     @property
     def tkn_p(self):
-- 
2.43.0


From 0533ed68448de38801b02dccdc4b2a4722552819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 54/95] fix: transports that are refused in an ArbGraph have
 already changed capacities and balances

---
 carbon/tools/arbgraphs.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index fbb2b8f..81708c8 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -603,15 +603,15 @@ class Edge(_DCBase):
         amount_out = amount_in * self.amount_out / self.amount_in
         
         if record:
-            self.state.amount_in_remaining -= amount_in
-            if self.state.amount_in_remaining < -EPS:
-                if raiseonerror:
+            if raiseonerror:
+                # nothing must be recorded if it is not possible
+                if self.state.amount_in_remaining - amount_in < -EPS:
                     raise ValueError(f"amount {amount_in} exceeds remaining edge capacity {self.state.amount_in_remaining}")
+                if self.node_in.state.amount - amount_in < -EPS:
+                    raise ValueError(f"amount {amount_in} exceeds node capacity {self.node_in.state.amount}")
+            self.state.amount_in_remaining -= amount_in
             self.node_out.state.amount += amount_out
             self.node_in.state.amount -= amount_in
-            if self.node_in.state.amount < -EPS:
-                if raiseonerror:
-                    raise ValueError(f"amount {amount_in} exceeds node capacity {self.node_in.state.amount}")
         return Amount(amount_out, self.node_out)
 
     def __str__(self):
@@ -1728,6 +1728,14 @@ class ArbGraph(_DCBase):
         amounts_in = [amt_in * routing_factor for amt_in in capacities_in]
         print(f"routing_factor: {routing_factor}; amounts_in: {amounts_in} {amount_in} {capacity_in}")
 
+        # nothing must be recorded if not all of it is possible
+        for edge, amt_in in zip(edges, amounts_in):
+            edge.transport(amt_in, record=False)
+            if record and raiseonerror and edge.state.amount_in_remaining - amt_in < -EPS:
+                raise ValueError(f"amount {amt_in} exceeds remaining edge capacity {edge.state.amount_in_remaining}")
+        if record and raiseonerror and node_in.state.amount - amount_in < -EPS:
+            raise ValueError(f"amount {amount_in} exceeds node capacity {node_in.state.amount}")
+
         # transport the amounts through the edges
         amounts_out = []
         for edge, amt_in in zip(edges, amounts_in):
-- 
2.43.0


From 302a60e47b689e44aa1308f9641007d2d1a052ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 55/95] fix: consolidated edgedf of a connection graph puts
 forward and reverse edges of different pairs in one row

---
 carbon/tools/arbgraphs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index 81708c8..ef9e679 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1838,7 +1838,8 @@ class ArbGraph(_DCBase):
                 ).reset_index()
             dff = df[df["is_reverse"]==False]
             dft = df[df["is_reverse"]==True]
-            df = pd.concat([dff.reset_index(drop=True), dft[["n"]].rename(columns={"n":"n_rev"}).reset_index(drop=True)], axis=1)
+            df = pd.merge(dff, dft.rename(columns={"n":"n_rev", "price":"price_rev"})[["pair", "n_rev", "price_rev"]], on="pair", how="outer", sort=True)
+            df["price"] = df["price"].fillna(df["price_rev"])
             df = df[["pair", "n", "n_rev", "price"]]
         
             if not resetindex:
-- 
2.43.0


From 76c211911349a73b4c692dd2f261b21905633498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 56/95] fix: run_arbitrage_cycle reports start_ix 0 whatever
 the token

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index ef9e679..cf29274 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -1608,7 +1608,7 @@ class ArbGraph(_DCBase):
         
         result = self.RunArbCycleResult(
             cycle = cycle,
-            start_ix = 0,
+            start_ix = cycle.data.index(e.node_out),
             token = e.tkn_out,
             profit = profit_amount,
             amount_in = effective_amount_in,
-- 
2.43.0


From 189126ede28c20ceaec4cf48b19c6344d37724c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:20 +0000
Subject: [PATCH 57/95] fix: Cycle.pairs_s ignores where to start

---
 carbon/tools/arbgraphs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/tools/arbgraphs.py b/carbon/tools/arbgraphs.py
index cf29274..02b9d1d 100644
--- a/carbon/tools/arbgraphs.py
+++ b/carbon/tools/arbgraphs.py
@@ -796,7 +796,7 @@ class Cycle(_DCBase):
         """
         runs pairs and returns the results as slashpairs
         """
-        return [f"{p[0].tkn}/{p[1].tkn}" for p in self.pairs()]
+        return [f"{p[0].tkn}/{p[1].tkn}" for p in self.pairs(start_ix=start_ix, start_val=start_val)]
     
     def run_arbitrage_cycle(self, token=None, **params):
         """
-- 
2.43.0


From 0e56c309b810c3d6d1da43368982fffa4343a976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:16 +0000
Subject: [PATCH 58/95] fix: trades that expand the curve took place on the
 expanded curve only when executed, and left it expanded when refused

---
 carbon/carbon_order_ui.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index f2f1c3e..de963f5 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -981,8 +981,7 @@ class CarbonOrderUI:
             else:
                 yintold = self.yint
                 yint = ynew
-                if execute:
-                    self.yint = ynew
+                pnew = self.p_marg_f(0, fullcurve=True)  # the expanded curve is full
                 curve_expanded = True
         else:
             curve_expanded = False
@@ -997,6 +996,7 @@ class CarbonOrderUI:
 
         if execute:
             self.y = ynew
+            self.yint = yint
 
         result = {
             "action":       "bysource[selly]",
@@ -1007,7 +1007,7 @@ class CarbonOrderUI:
             "yint_old":     yintold if curve_expanded else None,
             "y_int":        yint,
             "expanded":     curve_expanded,
-            "x":            self.xfromy_f(ynew),
+            "x":            self.xfromy_f(ynew) if not curve_expanded else 0,
             "dx":           dx,
             "tkny":         self.tkny,
             "tknx":         self.tknx,
-- 
2.43.0


From d665eda8a63336bdd5b27828d05abe6b87cf53b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:37 +0000
Subject: [PATCH 59/95] fix: selling an amount far beyond capacity could divide
 by zero instead of being refused

---
 carbon/carbon_order_ui.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index de963f5..dca714b 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -966,7 +966,6 @@ class CarbonOrderUI:
         yold = self.y
         pold = self.p_marg
         ynew = self.y - dy
-        pnew = self.p_marg_f(dy, checkbounds=False)
 
         if ynew < -self.EPSILON:
                 if raiseonerror:
@@ -981,13 +980,14 @@ class CarbonOrderUI:
             else:
                 yintold = self.yint
                 yint = ynew
-                pnew = self.p_marg_f(0, fullcurve=True)  # the expanded curve is full
                 curve_expanded = True
         else:
             curve_expanded = False
             yint = self.yint
             if ynew<0: ynew = 0  # see if ynew < -self.EPSILON
 
+        # an expanded curve is full
+        pnew = self.p_marg_f(0, fullcurve=True) if curve_expanded else self.p_marg_f(dy, checkbounds=False)
         dx = self.dxfromdy_f(dy, checkbounds=False, raiseonerror=True)
         if self.linked and execute:
             result_linked = self.linked.addliqy(dx)
-- 
2.43.0


From 1c589e7216f9705806a9d501df046b9f66deb1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:41 +0000
Subject: [PATCH 60/95] fix: p_eff_f raised TypeError beyond the curve's bounds
 when checkbounds=False

---
 carbon/carbon_order_ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index dca714b..bcc3a9b 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -589,7 +589,7 @@ class CarbonOrderUI:
         else:
             if dy==0:
                 return self.p_marg_f(self.yint-y, checkbounds=False, fullcurve=True)
-            dydx = dy / (self.xfromy_f(y) - self.xfromy_f(y0))
+            dydx = dy / (self.xfromy_f(y, checkbounds=False) - self.xfromy_f(y0, checkbounds=False))
         
         result = dydx if self.pair.has_quotetoken(self.tkn) else 1/dydx
         return result
-- 
2.43.0


From 1911cda6f09dcbc6a2926b04a7d10f702eaa6828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:02 +0000
Subject: [PATCH 61/95] fix: CarbonFloatInt packed numbers just above a power
 of two into a mantissa of 41 bits

---
 carbon/helpers/floatint.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/helpers/floatint.py b/carbon/helpers/floatint.py
index 287f271..459db49 100644
--- a/carbon/helpers/floatint.py
+++ b/carbon/helpers/floatint.py
@@ -47,7 +47,7 @@ class CarbonFloatInt64():
     @staticmethod
     def bindig(num):
         """binary digits for num >0 [_ceil(_log2(rawint+1))]"""
-        return _ceil(_log2(num+1))
+        return num.bit_length()
 
     @classmethod
     def from_int(cls, rawint):
@@ -63,7 +63,7 @@ class CarbonFloatInt64():
         
         bindig = cls.bindig(rawint)
         exponent = bindig - cls.BITS_SIGNIFICANT
-        assert exponent <= 2**cls.BITS_EXPONENT, f"exponent must be <= {2**cls.BITS_EXPONENT}, is {exponent} [{intval}]"
+        assert exponent <= 2**cls.BITS_EXPONENT, f"exponent must be <= {2**cls.BITS_EXPONENT}, is {exponent} [{rawint}]"
         if exponent <= 0:
             return cls(rawint, 0)
         return cls(rawint >> exponent, exponent)
-- 
2.43.0


From 38933c17c69d8ca54c5624f30dac810dc8c421a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:02 +0000
Subject: [PATCH 62/95] fix: Params.set_default dropped the defaults of the
 first call

---
 carbon/tools/params.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/carbon/tools/params.py b/carbon/tools/params.py
index 330e392..6b22277 100644
--- a/carbon/tools/params.py
+++ b/carbon/tools/params.py
@@ -97,9 +97,8 @@ class Params():
         """
         if self._defaults is None:
             self._defaults = dict()
-        else:
-            for k, v in kwargs.items():
-                self._defaults[k] = v
+        for k, v in kwargs.items():
+            self._defaults[k] = v
         return self
     
     @property
-- 
2.43.0


From 4efbd533debe3ac90749c3b6a5655bbf0a59f190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:02 +0000
Subject: [PATCH 63/95] fix: Params.construct dropped the defaults of the
 object it replicates

---
 carbon/tools/params.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/tools/params.py b/carbon/tools/params.py
index 6b22277..c43290a 100644
--- a/carbon/tools/params.py
+++ b/carbon/tools/params.py
@@ -61,6 +61,8 @@ class Params():
             result = cls(**dct._params)
             if not dct._defaults is None and not defaults is None:
                 raise ValueError("Must not provide default in both constructor and dct", dct, defaults)
+            if dct._defaults:
+                result._defaults = {**dct._defaults}
         else:
             result = cls(**dct)
 
-- 
2.43.0


From 2603d1c82280f49ce1266079b4934192daa010a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:02 +0000
Subject: [PATCH 64/95] fix: Univ3Calculator reserves were wrong by powers of
 ten unless the tokens have 6 and 18 decimals

---
 carbon/tools/univ3calc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/carbon/tools/univ3calc.py b/carbon/tools/univ3calc.py
index 94d7164..fe2ba30 100644
--- a/carbon/tools/univ3calc.py
+++ b/carbon/tools/univ3calc.py
@@ -186,8 +186,7 @@ class Univ3Calculator():
         _, pb = self.papb
         sqrtPb = sqrt(pb)
         sqrtP = sqrt(self.p)
-        tkn0reserve = self.liquidity * (sqrtPb - sqrtP) / (sqrtP * sqrtPb)
-        tkn0reserve *= self.decf
+        tkn0reserve = self.L * (sqrtPb - sqrtP) / (sqrtP * sqrtPb)
         if not incltoken:
             return tkn0reserve
         return (tkn0reserve, self.tkn0)
@@ -197,8 +196,7 @@ class Univ3Calculator():
         pa, _ = self.papb
         sqrtPa = sqrt(pa)
         sqrtP = sqrt(self.p)
-        tkn1reserve = self.liquidity * (sqrtP - sqrtPa)
-        tkn1reserve *= self.decf
+        tkn1reserve = self.L * (sqrtP - sqrtPa)
         if not incltoken:
             return tkn1reserve
         return (tkn1reserve, self.tkn1)
-- 
2.43.0


From c1ef512900c21db3c554045081ecb7e2569fa1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:02 +0000
Subject: [PATCH 65/95] fix: +x shared its value with x after an operation with
 another SharedVar

---
 carbon/helpers/sharedvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/sharedvar.py b/carbon/helpers/sharedvar.py
index 5d13848..8ed8f0d 100644
--- a/carbon/helpers/sharedvar.py
+++ b/carbon/helpers/sharedvar.py
@@ -77,7 +77,7 @@ class SharedVar:
         return self.__class__(val)
 
     def __pos__(self):
-        return self._wrap(self._value)
+        return self._wrap(+self._value)
 
     def __neg__(self):
         return self._wrap(-self._value)
-- 
2.43.0


From d2176e1c2d2e87a616016d15f9af2bebb5c6a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 66/95] fix: the SDK client ignored the url it was given

---
 carbon/sdk/sdkbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/sdkbase.py b/carbon/sdk/sdkbase.py
index 6818cf3..ee81526 100644
--- a/carbon/sdk/sdkbase.py
+++ b/carbon/sdk/sdkbase.py
@@ -99,7 +99,7 @@ class SDKBase:
         if method == self.GET and params:
             raise self.CarbonSDKValueError("Must not provide params for GET request", params, method)
 
-        url = self.join(self.URL, path)
+        url = self.join(self.url, path)
         if self.verbose:
             print(f"[req0] method={method}, url={url}, params={params}")
         if method == self.GET:
-- 
2.43.0


From 6122a4dd280749c2613deb19b090ca2e5ac7f861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:20 +0000
Subject: [PATCH 67/95] fix: calls of a synchronous SDK client were sent as
 such, but read as asynchronous

---
 carbon/sdk/sdkbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/sdk/sdkbase.py b/carbon/sdk/sdkbase.py
index ee81526..9cb5cc9 100644
--- a/carbon/sdk/sdkbase.py
+++ b/carbon/sdk/sdkbase.py
@@ -139,6 +139,8 @@ class SDKBase:
         :sync:      whether to call sync or async
         """
         #print("\n\n[call]", ep, params, method, sync)
+        if sync is None:
+            sync = self.syncdefault
         url = self.join(self.callapi0(sync), ep)
         if sync: 
             #print("\n\n[call] calling req", ep, params, method, sync)
-- 
2.43.0


From ef540d49661a93780f61077813b487ab339db2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 68/95] fix: signsubmittx sent the flag to sign under the name
 of its value

---
 carbon/sdk/carbonsdk0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 049a3e9..5e33c8a 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -575,7 +575,7 @@ class CarbonSDK0(SDKBase):
         :sign:      whether to sign the transaction (True=sign)
         :returns:   the transaction receipt
         """
-        r = self.req(n("signsubmittx"), params={"tx": tx, sign: bool(sign)})
+        r = self.req(n("signsubmittx"), params={"tx": tx, "sign": bool(sign)})
         return self._checkresult(r)
     
     ########################################
-- 
2.43.0


From a174291844fde83c5537dbcbae528f4968906d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 69/95] fix: pairs of the SDK client used the list of all
 tokens instead of the client's

---
 carbon/sdk/carbonsdk0.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 5e33c8a..7f95e52 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -150,9 +150,9 @@ class CarbonSDK0(SDKBase):
         T = self.Tokens
         r = self.call(n("pairs"), params={}, sync=True)
         pairs_raw = self._checkresult(r)
-        if Tokens is None:
+        if T is None:
             return pairs_raw
-        pairs = [ [Tokens(p[0]), Tokens(p[1])] for p in pairs_raw]
+        pairs = [ [T(p[0]), T(p[1])] for p in pairs_raw]
         if not inclstr:
             return pairs
         pairs_s = ", ".join([f"{p[0].T}/{p[1].T}" for p in pairs])
-- 
2.43.0


From 3ec4dc1796f4ad7081cc68a36806d3e481b7daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 70/95] fix: an answer of the SDK server that is not json was
 reported as AttributeError

---
 carbon/sdk/carbonsdk0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk0.py b/carbon/sdk/carbonsdk0.py
index 7f95e52..8ef952a 100644
--- a/carbon/sdk/carbonsdk0.py
+++ b/carbon/sdk/carbonsdk0.py
@@ -591,7 +591,7 @@ class CarbonSDK0(SDKBase):
         try:
             rj = r.json()
         except:
-            raise RuntimeError(f"ERROR: can't convert to json {r.body}")
+            raise RuntimeError(f"ERROR: can't convert to json {r.text}")
         try:
             return rj["data"]
         except:
-- 
2.43.0


From 411352f5df8cecb9c30d52cf82eb5b5048fd82a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 71/95] fix: mCreateStrategy created an ETH/USDC strategy for
 every pair

---
 carbon/sdk/carbonsdk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 65f53a6..4c83183 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -693,8 +693,8 @@ class CarbonSDK(CarbonSDK0):
             raise ValueError("sellRangeStart <= buyRangeStart", sellRangeStart, buyRangeStart)
         
         data = self.createBuySellStrategy(
-            baseToken = T.ETH.a, 
-            quoteToken = T.USDC.a, 
+            baseToken = T[pair.tknb].a, 
+            quoteToken = T[pair.tknq].a, 
             buyPriceLow = buyRangeEnd, 
             buyPriceHigh = buyRangeStart, 
             buyBudget = buyAmountTknQ,
-- 
2.43.0


From a457485cf847f532b35d6d96fdf1c64e08a9fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 72/95] fix: mPrepareTrade refused tokens of the client that
 are not on the list of all tokens

---
 carbon/sdk/carbonsdk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 4c83183..2434f63 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -731,8 +731,8 @@ class CarbonSDK(CarbonSDK0):
         sourceTokenO = T[sourceToken]
         targetTokenO = T[targetToken]
         tradeByTargetAmount = (tkn == targetToken)
-        if not Tokens.containsall({sourceToken, targetToken}):
-            raise ValueError("not all token addresses are availabe", pair, Tokens)
+        if not T.containsall({sourceToken, targetToken}):
+            raise ValueError("not all token addresses are availabe", pair, T)
         data = self.getTradeData(
             sourceToken=sourceTokenO.a, 
             targetToken=targetTokenO.a, 
-- 
2.43.0


From 93faf514d29bf2584ad262f26144db0dd57c6f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 73/95] fix: RangeByPair.inverted was set when the rates are
 not inverted

---
 carbon/sdk/carbonsdk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 2434f63..e3cdc07 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -577,7 +577,7 @@ class CarbonSDK(CarbonSDK0):
             AMMsells  = targetTokenO.T,
             bidAsk    = "ask" if pair.has_basetoken(AMMsells) else "bid",
             pair      = pair, 
-            inverted  = pair.has_quotetoken(targetTokenO.T), 
+            inverted  = pair.has_basetoken(targetTokenO.T), 
         )
 
     def mGetRateLiquidityDepthByPair(self, rate, pair, AMMsells):
-- 
2.43.0


From c8215a44b6acd13d3386ae2d2a67f0027ef3c0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 74/95] fix: EncodedOrder.encode: capacity implied by the
 marginal price

---
 carbon/sdk/carbonsdk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index e3cdc07..37d297f 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -294,7 +294,7 @@ class EncodedOrder():
                 if p_marg >= p_start_hi:
                     z = y
                 else:
-                    z = y * (p_start_hi - p_end_lo) // (p_marg - p_start_hi)
+                    z = y * (sqrt(p_start_hi) - sqrt(p_end_lo)) / (sqrt(p_marg) - sqrt(p_end_lo))
         return cls(
             y=int(y), 
             z=int(z), 
-- 
2.43.0


From b57879c9412003c5eeb2442bb0e20b4dfef25efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 75/95] fix: EncodedStrategy.raw_json turned the numbers of the
 strategy it shows into texts

---
 carbon/sdk/carbonsdk.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/carbon/sdk/carbonsdk.py b/carbon/sdk/carbonsdk.py
index 37d297f..038155a 100644
--- a/carbon/sdk/carbonsdk.py
+++ b/carbon/sdk/carbonsdk.py
@@ -398,12 +398,11 @@ class EncodedStrategy():
     @property
     def raw_json(self):
         """returns the raw field as a json string"""
-        raw = self.raw
+        raw = dict(self.raw)
         raw["id"] = str(raw["id"])
         for dk in ["order0", "order1"]:
-            for k in raw[dk]:
-                raw[dk][k] = str(raw[dk][k])
-        return json.dumps(self.raw, indent=4)
+            raw[dk] = {k: str(v) for k, v in raw[dk].items()}
+        return json.dumps(raw, indent=4)
     
     @property
     def descr(self):
-- 
2.43.0


From b4f8b7784aa0b65833619fed95bdb90e6335e2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 76/95] fix: TokenContainer.restore found no token at all

---
 carbon/sdk/sdktoken.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index cfdd06a..2c64b57 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -100,16 +100,15 @@ class TokenContainer():
         """creates a TokenContainer from a csv string"""
         return cls.fromlist([t.split(",") for t in csv.strip().splitlines()], raiseonerror)
     
-    @classmethod
-    def restore(cls, ticker_or_addr_or_tkn, raiseonerror=None):
+    def restore(self, ticker_or_addr_or_tkn, raiseonerror=None):
         """converts a ticker or address to an SDKToken from the TokenContainer (SDKToken not touched)"""
         if isinstance(ticker_or_addr_or_tkn, SDKToken):
             return ticker_or_addr_or_tkn
         try:
-            tkn = cls.byaddr(ticker_or_addr_or_tkn, raiseonerror=True)
+            tkn = self.byaddr(ticker_or_addr_or_tkn, raiseonerror=True)
         except:
             try:
-                tkn = cls.byticker(ticker_or_addr_or_tkn, raiseonerror=True)
+                tkn = self.byticker(ticker_or_addr_or_tkn, raiseonerror=True)
             except:
                 if raiseonerror:
                     raise ValueError(f"ticker or address {ticker_or_addr_or_tkn} not found in container")
-- 
2.43.0


From 2c7d2735d9c5c19a37906ce24c260da934e35dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 77/95] fix: TokenContainer accepted duplicates if there were
 as many of tickers as of addresses

---
 carbon/sdk/sdktoken.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/carbon/sdk/sdktoken.py b/carbon/sdk/sdktoken.py
index 2c64b57..c47a87c 100644
--- a/carbon/sdk/sdktoken.py
+++ b/carbon/sdk/sdktoken.py
@@ -84,11 +84,12 @@ class TokenContainer():
     def __init__(self, tokens, raiseonerror=None):
         if raiseonerror is None: raiseonerror = True
         self.raiseonerror = raiseonerror
+        tokens = list(tokens)
         self._byticker = {t.token: t for t in tokens}
         self._byaddr   = {t.address: t for t in tokens}
         self._tickers  = set(self._byticker.keys())
-        if not len(self._tickers) == len(self._byaddr):
-            raise ValueError(f"{len(self._tickers) - len(self._byaddr)} duplicate token tickers found", self._tickers, self._byaddr)
+        if not len(tokens) == len(self._tickers) == len(self._byaddr):
+            raise ValueError(f"{len(tokens) - min(len(self._tickers), len(self._byaddr))} duplicate token tickers found", self._tickers, self._byaddr)
 
     @classmethod
     def fromlist(cls, tokens, raiseonerror=None):
-- 
2.43.0


From f8a48efda97369b19afc62e52cdaae7d070b3eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:57 +0000
Subject: [PATCH 78/95] fix: strategies from the SDK without capacity on one
 side could not be read

---
 carbon/carbon_order_ui.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/carbon_order_ui.py b/carbon/carbon_order_ui.py
index bcc3a9b..918184e 100644
--- a/carbon/carbon_order_ui.py
+++ b/carbon/carbon_order_ui.py
@@ -310,11 +310,11 @@ class CarbonOrderUI:
         tknqa = sdkStrategy["quoteToken"]
         tknqo = Tokens.byticker(tknqa, raiseonerror=False, returnnultkn=False)
         tknq = tknqo.T if not tknqo is None else "TKNQ"
-        tknql = cls.bn2int(tknqe["y"]) / cls.bn2int(tknqe["z"])
+        tknql = cls.bn2int(tknqe["y"]) / cls.bn2int(tknqe["z"]) if cls.bn2int(tknqe["z"]) else 0
         tknba = sdkStrategy["baseToken"]
         tknbo = Tokens.byticker(tknba, raiseonerror=False, returnnultkn=False)
         tknb = tknbo.T if not tknbo is None else "TKNB"
-        tknbl = cls.bn2int(tknbe["y"]) / cls.bn2int(tknbe["z"])
+        tknbl = cls.bn2int(tknbe["y"]) / cls.bn2int(tknbe["z"]) if cls.bn2int(tknbe["z"]) else 0
         
         pair = CarbonPair(tknq=tknq, tknb=tknb)
         # the tkn in the constructor is the one that is being sold
-- 
2.43.0


From f6999291309bf8b66661d1392ed8ad2a8b6b7e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:09 +0000
Subject: [PATCH 79/95] fix: goalseek never returned when looking for large
 numbers (eg prices of expensive tokens)

---
 carbon/tools/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/carbon/tools/optimizer.py b/carbon/tools/optimizer.py
index cbcdabd..45b80c7 100644
--- a/carbon/tools/optimizer.py
+++ b/carbon/tools/optimizer.py
@@ -295,6 +295,8 @@ class OptimizerBase:
         # the precision is relative if the numbers are small (eg prices of cheap tokens)
         while (b - a) > cls.GOALSEEKEPS * min(1, max(abs(a), abs(b))):
             c = (a + b) / 2
+            if c in (a, b):
+                break # there is no number between a and b (prices of expensive tokens)
             if func(c) == 0:
                 return cls.SimpleResult(result=c, method="findminmax_nr")
             elif func(a) * func(c) < 0:
-- 
2.43.0


From d261029e48e6782f02a882616670ecdd51362359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:25 +0000
Subject: [PATCH 80/95] fix: truncating a table of trades paired sizes with
 amounts of other sizes if an amount in between was absent

---
 carbon/simulators/sim_analytics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index 37744c9..ca809b0 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -139,9 +139,12 @@ class Analytics:
         :s2:                truncated of NaN / None at the end
         :returns:           truncated (s1, s2)
         """
-        s2r = cls.vec(x for x in s2 if not cls.isnonenan(x))
+        n = min(len(s1), len(s2))
+        s2r = list(s2)[:n]
+        while s2r and cls.isnonenan(s2r[-1]):
+            s2r.pop()
         s1r = s1[:len(s2r)]
-        return s1r, s2r
+        return s1r, cls.vec(s2r)
 
     BID_BOOK = "amm_buys"
     BID = BID_BOOK
-- 
2.43.0


From 260897488770f050b5667e423d9669b3a8fe188d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:25 +0000
Subject: [PATCH 81/95] fix: simulate_trades ignored the sim passed if no pair
 was given

---
 carbon/simulators/sim_analytics.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index ca809b0..e31c265 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -214,9 +214,8 @@ class Analytics:
         """
         if sim is None: sim = self.sim
         if carbon_pair is None:
-            if self.sim is None:
+            if sim is None:
                 raise ValueError("The `sim` object must be provided and have a default carbon pair if `carbon_pair` is not given.")
-            sim = self.sim
             if sim.carbon_pair is None:
                 raise ValueError("The `sim` object must have a default carbon pair if `carbon_pair` is not given.")
             carbon_pair = sim.carbon_pair
-- 
2.43.0


From 58a398b6dc5514b3c2b3aef7165f7b52bae3b5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:25 +0000
Subject: [PATCH 82/95] fix: effective_price refused the constants BID and ASK

---
 carbon/simulators/sim_analytics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index e31c265..51faa18 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -179,10 +179,10 @@ class Analytics:
             if sim is None:
                 raise ValueError("If pair is None then sim must be provided in arguments or class defaults")
             pair = sim.pair 
-        if bidask == self.BID_BOOK: 
+        if bidask in (self.BID_BOOK, self.BID): 
             price_f = sim.amm_buys
             fail_value = self.MAXPRICE
-        elif bidask == self.ASK_BOOK: 
+        elif bidask in (self.ASK_BOOK, self.ASK): 
             price_f = sim.amm_sells
             fail_value = 0.
         else:
-- 
2.43.0


From 8606f7620cde05e7a0760a8b6b8315d558c6ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:25 +0000
Subject: [PATCH 83/95] fix: effective_price failed if no pair was given

---
 carbon/simulators/sim_analytics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/simulators/sim_analytics.py b/carbon/simulators/sim_analytics.py
index 51faa18..84d69bc 100644
--- a/carbon/simulators/sim_analytics.py
+++ b/carbon/simulators/sim_analytics.py
@@ -178,7 +178,7 @@ class Analytics:
         if pair is None: 
             if sim is None:
                 raise ValueError("If pair is None then sim must be provided in arguments or class defaults")
-            pair = sim.pair 
+            pair = sim.slashpair
         if bidask in (self.BID_BOOK, self.BID): 
             price_f = sim.amm_buys
             fail_value = self.MAXPRICE
-- 
2.43.0


From 5311dbbb5adb5025803acc3fcb23c71dcac33a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:25 +0000
Subject: [PATCH 84/95] fix: reporting a failed query of CryptoCompare failed

---
 carbon/helpers/cryptocompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 51467b2..09a2364 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -125,7 +125,7 @@ class CryptoCompare():
         
         if not r:
             if self.raiseonerror:
-                raise RuntimeError(f"API query not successfull (status={r.status})", r)
+                raise RuntimeError(f"API query not successfull (status={r.status_code})", r)
             else:
                 return None
         return r
-- 
2.43.0


From 0a8030a4bc33cb21f5578ba43943b221e3b10ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:25 +0000
Subject: [PATCH 85/95] fix: query_freqlypair failed if not asked for pandas

---
 carbon/helpers/cryptocompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 09a2364..4be154a 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -287,7 +287,7 @@ class CryptoCompare():
             else:
                 return None
         if not aspandas:
-            return r_json().get("Data")
+            return r_json.get("Data")
         try:   
             # print("[query_freqlypair]", endpoint, params, r)
             # print("[query_freqlypair] r", r_json())
-- 
2.43.0


From 7f7c40eabb71ab47ca557506fe465b4ec5598ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:25 +0000
Subject: [PATCH 86/95] fix: the cached queries of CryptoCompare ignored
 readonfail and updateonfail

---
 carbon/helpers/cryptocompare.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 4be154a..501c64b 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -176,7 +176,9 @@ class CryptoCompare():
         """cached access to query_allexchanges"""
         return self._cache_xxx(
             item="query_allexchanges", 
-            updatemethod=self.query_allexchanges
+            updatemethod=self.query_allexchanges,
+            readonfail=readonfail,
+            updateonfail=updateonfail,
         )
     
     def query_ratelimit(self):
@@ -207,7 +209,9 @@ class CryptoCompare():
         """cached access to query_coinlist"""
         return self._cache_xxx(
             item="query_coinlist", 
-            updatemethod=self.query_coinlist
+            updatemethod=self.query_coinlist,
+            readonfail=readonfail,
+            updateonfail=updateonfail,
         )
         
     def query_indexlist(self):
@@ -226,7 +230,9 @@ class CryptoCompare():
         """cached access to query_indexlist"""
         return self._cache_xxx(
             item="query_indexlist", 
-            updatemethod=self.query_indexlist
+            updatemethod=self.query_indexlist,
+            readonfail=readonfail,
+            updateonfail=updateonfail,
         )
     
     @staticmethod
-- 
2.43.0


From f19365637a4cbd401df944498e6956b5d049f291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:25 +0000
Subject: [PATCH 87/95] fix: cached queries never asked the API if raiseonerror
 was False

---
 carbon/helpers/cryptocompare.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 501c64b..4867537 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -156,7 +156,10 @@ class CryptoCompare():
         if updateonfail:
             readonfail = True
         try:
-            return self.cache(item)
+            data = self.cache(item)
+            if data is None:
+                raise FileNotFoundError(f"Item {item} not in cache")
+            return data
         except:
             print(f"[_cache_xxx] cache miss for item {item}")
             if readonfail:
-- 
2.43.0


From ae99cac785154bbf97413846285786d03890c524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:25 +0000
Subject: [PATCH 88/95] fix: query_freqlypair did not convert the timestamp

---
 carbon/helpers/cryptocompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 4867537..7839392 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -285,7 +285,7 @@ class CryptoCompare():
                 "tsym":     tsym if not tsym is None else self.DEFAULT_TSYM,
                 "e":        e,
                 "limit":    limit if not limit is False else self.DEFAULT_LIMIT,
-                "toTs":     toTs,
+                "toTs":     self.ts_tocc(toTs) if isinstance(toTs, str) else toTs,
         }
         r = self.query(endpoint=endpoint, params=params)
         if r is None: return r
-- 
2.43.0


From 2fdcec4d3df497d535035d62b6e6e09d1cb1931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:25 +0000
Subject: [PATCH 89/95] fix: aggr_query did not pass its keyword arguments
 through

---
 carbon/helpers/cryptocompare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/carbon/helpers/cryptocompare.py b/carbon/helpers/cryptocompare.py
index 7839392..6f6d612 100644
--- a/carbon/helpers/cryptocompare.py
+++ b/carbon/helpers/cryptocompare.py
@@ -441,7 +441,7 @@ class CryptoCompare():
             
         print("[aggr_query] Querying for raw table", len(pairs))
         raw_tables = {
-            (fsym, tsym): self.query_freqlypair(freq, fsym=fsym, tsym=tsym)
+            (fsym, tsym): self.query_freqlypair(freq, fsym=fsym, tsym=tsym, **kwargs)
             for fsym, tsym in pairs
         }
         df_raw = _pd.concat(raw_tables, axis=1)
-- 
2.43.0


From bbae104dd41fad3b59c46eda8396688f2511d8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:47 +0000
Subject: [PATCH 90/95] fix: PcSliderManager keeps its ranges and takes one
 negative value for plus-minus sliders

---
 carbon/helpers/widgets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/helpers/widgets.py b/carbon/helpers/widgets.py
index 93612c6..7f98c14 100644
--- a/carbon/helpers/widgets.py
+++ b/carbon/helpers/widgets.py
@@ -154,10 +154,10 @@ class PcSliderManager():
             values = (0.,)*len(self.choice_ids)
         else:
             try:
-                if values >= 0 and values <= 1:
+                if values >= (-1 if pm is True else 0) and values <= 1:
                     values = (float(values),)*len(self.choice_ids)
                 else:
-                    raise ValueError("Value must be between 0..1", values)
+                    raise ValueError("Value must be between 0..1 [-1..1 for pm sliders]", values)
             except TypeError:
                 if len(values) == len(self.choice_ids):
                     values = tuple(float(v) for v in values)
@@ -191,7 +191,7 @@ class PcSliderManager():
             except:
                 self.range = (range,)*len(self.choice_ids)
         else:
-            self.range = ( (-1, 1) if pmv else (0,1) for pmv in self.pm)
+            self.range = tuple( (-1, 1) if pmv else (0,1) for pmv in self.pm)
 
         self._sliders = tuple(
             _ipw.FloatSlider(
-- 
2.43.0


From 99e2475b5fcbb8a08443399d9b704eef617f5f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:47 +0000
Subject: [PATCH 91/95] fix: soltest counts binary digits exactly

---
 carbon/helpers/soltest.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/carbon/helpers/soltest.py b/carbon/helpers/soltest.py
index e14c9e5..aebd5e1 100644
--- a/carbon/helpers/soltest.py
+++ b/carbon/helpers/soltest.py
@@ -4,7 +4,7 @@ Carbon helper module -- solidity tests
 __VERSION__ = "1.0"
 __DATE__ = "11/Feb/2023"
 
-from math import sqrt as _sqrt, ceil as _ceil, log2 as _log2
+from math import sqrt as _sqrt
 
 class SolTestBase():
     """
@@ -45,8 +45,8 @@ class SolTestBase():
 
     @staticmethod
     def bindig(num):
-        """binary digits for num >0 [_ceil(_log2(num+1))]"""
-        return _ceil(_log2(num+1))
+        """binary digits for num >0 [ceil(log2(num+1)), in integer arithmetic]"""
+        return int(num).bit_length()
     
     LVL_LOG     = 0
     LVL_WARN    = 1
-- 
2.43.0


From b1ce314326ca2d58a693fb829f945a3314485105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:40 +0000
Subject: [PATCH 92/95] fix: PcSliderManager refuses ranges that do not fit the
 choices instead of failing on them

---
 carbon/helpers/widgets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/carbon/helpers/widgets.py b/carbon/helpers/widgets.py
index 7f98c14..a0b4c7d 100644
--- a/carbon/helpers/widgets.py
+++ b/carbon/helpers/widgets.py
@@ -184,12 +184,13 @@ class PcSliderManager():
         if not range is None:
             try:
                 range[0][0]
+            except (TypeError, IndexError):
+                self.range = (range,)*len(self.choice_ids)
+            else:
                 # this must be a tuple of tuples
                 self.range = tuple(tuple(v) for v in range)
                 if len(self.range) != len(self.choice_ids):
                     raise ValueError(f"len(range) [{len(self.range)}] must be len(choices) [{len(self.choice_ids)}]", range, choices)
-            except:
-                self.range = (range,)*len(self.choice_ids)
         else:
             self.range = tuple( (-1, 1) if pmv else (0,1) for pmv in self.pm)
 
-- 
2.43.0


From cac7339de174f6eb63fd316ab3718f8928c325b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:34 +0000
Subject: [PATCH 93/95] fix: orders read from a csv file carry their balance

---
 carbon/routers/base_router.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/carbon/routers/base_router.py b/carbon/routers/base_router.py
index 133cb33..d9287e7 100644
--- a/carbon/routers/base_router.py
+++ b/carbon/routers/base_router.py
@@ -331,10 +331,12 @@ class BaseRouter:
 
             def unpack_row(indx):
                 row = curve_data.iloc[indx]
+                y_int = Decimal(float(row["y_int"]))
                 return {
                     "p_low": Decimal(float(row["p_low"])),
                     "p_high": Decimal(float(row["p_high"])),
-                    "y_int": Decimal(float(row["y_int"])),
+                    "y_int": y_int,
+                    "_y": y_int, # upon genesis, the balance is equal to y_int
                 }
 
             curve_data["index"] = [i for i in range(len(curve_data))]
-- 
2.43.0


From aca6b54af68514c69aaeca85528999eee13f0639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:34 +0000
Subject: [PATCH 94/95] fix: the source matcher works with the default number
 of threshold orders

---
 carbon/routers/alpha_router.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carbon/routers/alpha_router.py b/carbon/routers/alpha_router.py
index 8d33822..a037cd9 100644
--- a/carbon/routers/alpha_router.py
+++ b/carbon/routers/alpha_router.py
@@ -330,6 +330,9 @@ class AlphaRouter(BaseRouter):
              to return the optimal distribution for the full inputAmount
              evaluated within the threshold number of orders.
         """
+        if threshold_orders == None:
+            threshold_orders = 10
+
         # (step 1.)
         hypothetical_output_amts = {i: self.amt_by_src(dx=x, subject=i) for i in self.indexes}
 
-- 
2.43.0


From fa853bd0e48d211802f6f6d30d082b619d2c18b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:34 +0000
Subject: [PATCH 95/95] fix: an order takes its duration as any number

---
 carbon/order.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/carbon/order.py b/carbon/order.py
index 21a070d..863bb98 100644
--- a/carbon/order.py
+++ b/carbon/order.py
@@ -162,6 +162,9 @@ class Order:
         
         if self._y is not None:
             self._y = Decimal(self._y)
+
+        if self.D is not None:
+            self.D = Decimal(self.D)
         
         if self.auto_convert_variables:
 
-- 
2.43.0

