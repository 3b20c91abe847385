From 96edad0c26bd161e16067c81a858580e0bdd7f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 01/12] fix: gain_from_trade must not divide by zero when a
 category outside the recipe is empty

---
 trade.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trade.py b/trade.py
index b191868..642be07 100644
--- a/trade.py
+++ b/trade.py
@@ -124,6 +124,8 @@ class TradeWithSinglePrice (Trade):
         for i in range(self.num_categories):
             category = self.categories[i]
             agents_per_deal = self.ps_recipe[i]
+            if agents_per_deal==0:
+                continue   # this category does not participate in the trade (and it may even be empty).
             participating_agents_in_category = agents_per_deal*self.num_of_deals_cache
             probability_to_participate_in_trade = participating_agents_in_category/len(category.values)
             price_per_agent_per_deal = self.prices[i]
-- 
2.43.0


From 637285515faf233dbe69045edbf3a2eacf9f56e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 02/12] fix: RecipeTree.optimal_trade must support a tree with
 a single category

---
 recipetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipetree.py b/recipetree.py
index f235b68..585c21f 100644
--- a/recipetree.py
+++ b/recipetree.py
@@ -326,7 +326,7 @@ class RecipeTree (NodeMixin):
         * third is the optimal GFT.
         """
         values = self.combined_values_detailed()
-        optimal_trade_values = [t for t in values if sum(t)>=0]
+        optimal_trade_values = [t for t in values if sum(flatten([t]))>=0]
         optimal_trade_count = len(optimal_trade_values)
         optimal_trade_values_GFT = sum(flatten(optimal_trade_values))
         return (optimal_trade_values, optimal_trade_count, optimal_trade_values_GFT)
-- 
2.43.0


From bafefe9485ac008accbae1ff591a45b9c759837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 03/12] fix: recipe-tree auctions must terminate when the price
 of an empty category rises above MAX_VALUE

---
 ascending_auction_recipetree_integer_protocol.py | 2 +-
 ascending_auction_recipetree_protocol.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ascending_auction_recipetree_integer_protocol.py b/ascending_auction_recipetree_integer_protocol.py
index 2ec3382..e0bee4b 100644
--- a/ascending_auction_recipetree_integer_protocol.py
+++ b/ascending_auction_recipetree_integer_protocol.py
@@ -173,7 +173,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
         increases = []
         for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
-            target_price = category.lowest_agent_value() if category.size()>0 else MAX_VALUE
+            target_price = category.lowest_agent_value() if category.size()>0 else math.inf
             increases.append((category_index, target_price, category.name))
 
         logger.info("Planned price-increases: %s", increases)
diff --git a/ascending_auction_recipetree_protocol.py b/ascending_auction_recipetree_protocol.py
index 8db1487..62fa5b4 100644
--- a/ascending_auction_recipetree_protocol.py
+++ b/ascending_auction_recipetree_protocol.py
@@ -169,7 +169,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
         increases = []
         for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
-            target_price = category.lowest_agent_value() if category.size()>0 else MAX_VALUE
+            target_price = category.lowest_agent_value() if category.size()>0 else math.inf
             increases.append((category_index, target_price, category.name))
 
         logger.info("Planned price-increases: %s", increases)
-- 
2.43.0


From abcf3609bb9e3e313176d79844143f6076b3ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 04/12] fix: recipe-tree auctions must not remove tied traders
 from categories whose price was not increased

---
 ascending_auction_recipetree_integer_protocol.py | 2 +-
 ascending_auction_recipetree_protocol.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ascending_auction_recipetree_integer_protocol.py b/ascending_auction_recipetree_integer_protocol.py
index e0bee4b..87d356d 100644
--- a/ascending_auction_recipetree_integer_protocol.py
+++ b/ascending_auction_recipetree_integer_protocol.py
@@ -186,7 +186,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
             logger.info(remaining_market)
             return TradeWithMultipleRecipes(remaining_market.categories, recipe_tree, map_category_index_to_price)
 
-        for category_index in range(market.num_categories):
+        for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
             if map_category_index_to_price[category_index] is not None \
                 and category.size()>0 \
diff --git a/ascending_auction_recipetree_protocol.py b/ascending_auction_recipetree_protocol.py
index 62fa5b4..e805c17 100644
--- a/ascending_auction_recipetree_protocol.py
+++ b/ascending_auction_recipetree_protocol.py
@@ -182,7 +182,7 @@ def budget_balanced_ascending_auction(market:Market, ps_recipe_struct: List[Any]
             logger.info(remaining_market)
             return TradeWithMultipleRecipes(remaining_market.categories, recipe_tree, map_category_index_to_price)
 
-        for category_index in range(market.num_categories):
+        for category_index in indices_of_prices_to_increase:
             category = remaining_market.categories[category_index]
             if map_category_index_to_price[category_index] is not None \
                 and category.size()>0 \
-- 
2.43.0


From 6473bedc5338309e28d483dc6c931a1367f6ab8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 05/12] fix: recipetree_integer.optimal_trade_with_counters
 must support trees with more than one category

---
 recipetree_integer.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/recipetree_integer.py b/recipetree_integer.py
index aab26aa..df86cbf 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -396,21 +396,21 @@ class RecipeTree (NodeMixin):
         for value in self_values:
             current_set.append(value)
             if len(current_set) == self.agent_count:
-                value_sets.append((current_set, {'counter': 0}))
+                value_sets.append(current_set)
                 current_set = []
 
-        if len(self.children) > 0:
-            children_values = [child.combined_values_detailed_with_counters() for child in self.children]
-            #children_values.sort(key=lambda x: sum(x[0]), reverse=True)
-            #Get the min size
-            min_len = min(len(value_sets), len(children_values))
+        if len(self.children) == 0:
+            #All the deals of a path share a single counter, to count the k for each path
+            deals_counter = {'counter': 0}
+            value_sets = [(value_set, deals_counter) for value_set in value_sets]
+        else:
+            #the sum of lists of lists opens the lists to one list.
+            children_values = sum([child.combined_values_detailed_with_counters() for child in self.children], [])
+            children_values.sort(key=lambda x: sum(x[0]), reverse=True)
             #zip the parent with its child value
-            for i in range(min_len):
-                children_values[i] = ([*children_values[i][0], *self_values[i]], children_values[i][1])
-            value_sets = children_values
+            value_sets = [([*value_set, *child_set], counter) for (value_set, (child_set, counter)) in zip(value_sets, children_values)]
 
             logger.debug("children_values: %s", value_sets)
-        value_sets.sort(key=lambda x: sum(x[0]), reverse=True)
         return value_sets
 
     def combined_values_detailed(self) -> list:
-- 
2.43.0


From cd2370bfe96096104c90eca578341e5fa8022406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:04 +0000
Subject: [PATCH 06/12] fix: prices_integer.calculate_initial_prices must
 balance each recipe on a category that no other recipe uses

---
 prices_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prices_integer.py b/prices_integer.py
index a75f326..a2c20c4 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -280,7 +280,7 @@ def calculate_initial_prices(ps_recipes:List[List[int]], max_price_per_category:
     for i in range(len(ps_recipes)):
         recipe = ps_recipes[i]
         for j in range(num_categories - 1, -1, -1):
-            if recipe[j] > 0:
+            if recipe[j] > 0 and all(other[j] == 0 for other in ps_recipes[:i] + ps_recipes[i+1:]):
                 if price_vector[j] != max_price_per_category:
                     raise ValueError("Cannot determine initial prices: "+str(price_vector))
                 price_vector[j] = float(max_price_per_category * (max_weighted_depth - weighted_depths[i] + recipe[j])/recipe[j])
-- 
2.43.0


From 1b2979ea5da6c775bb223b47ae5f8a72e5f84872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 07/12] fix: prices_integer.increase_prices must keep the
 price-sums of all recipes equal and bounded for integer recipes

---
 prices_integer.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/prices_integer.py b/prices_integer.py
index a2c20c4..af4b42d 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -219,22 +219,26 @@ class SimultaneousAscendingPriceVectors:
         #if any([ipr!=1 for ipr in increases_per_recipe]):
         #    raise ValueError("There must be exactly one increase per recipe!")
 
+        # Raising the price of a category by x raises the price-sum of each recipe that contains it by x times
+        # the number of agents of this category in the recipe, so the increases are compared in units of price-sum.
+        units_per_category = [max([recipe[category_index] for recipe in self.ps_recipes]) * self.agent_counts[category_index]
+                              for category_index in range(self.num_categories)]
         increase_to_upper_bound = sum_upper_bound - self.price_sum()
-        increases_to_new_prices = [new_price - self.vector[category_index]
+        increases_to_new_prices = [(new_price - self.vector[category_index]) * units_per_category[category_index]
                                    for (category_index,new_price,_) in increases]
         min_increase_to_new_price = min(increases_to_new_prices)
         min_increase = min(min_increase_to_new_price, increase_to_upper_bound)
         if min_increase == increase_to_upper_bound:
             self.status = PriceStatus.STOPPED_AT_ZERO_SUM
             for (category_index, new_price, description) in increases:
-                fixed_new_price = self.vector[category_index] + min_increase * self.agent_counts[category_index]
+                fixed_new_price = self.vector[category_index] + min_increase / units_per_category[category_index]
                 logger.info("{}: while increasing price towards {}, stopped at {} where the price-sum crossed {}".format(description, new_price, fixed_new_price, sum_upper_bound))
                 self.vector[category_index] = fixed_new_price
 
         else: # min_increase == min_increase_to_new_price:
             self.status = PriceStatus.STOPPED_AT_AGENT_VALUE
             for (category_index, new_price, description) in increases:
-                fixed_new_price = self.vector[category_index] + min_increase * self.agent_counts[category_index]
+                fixed_new_price = self.vector[category_index] + min_increase / units_per_category[category_index]
                 if fixed_new_price == new_price:
                     logger.info("{}: price increases to {}".format(description, new_price))
                 else:
-- 
2.43.0


From 6c34e317f2e6f02c5326329d6491c63a3992f022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 08/12] fix: prices_integer.increase_price_up_to_balance must
 take the agent counts into account

---
 prices_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prices_integer.py b/prices_integer.py
index af4b42d..0f956d1 100644
--- a/prices_integer.py
+++ b/prices_integer.py
@@ -113,7 +113,7 @@ class AscendingPriceVector:
         ('PriceStatus.STOPPED_AT_ZERO_SUM', 0.0, 50.0)
 
         """
-        category_count_in_recipe = self.ps_recipe[category_index]
+        category_count_in_recipe = self.ps_recipe[category_index] * self.agent_counts[category_index]
         sum_without_category = self.price_sum_without_category(category_index)
         new_sum = sum_without_category + category_count_in_recipe*new_price
         if new_sum >= sum_upper_bound:
-- 
2.43.0


From dcb117547ba27c0de28749e33f238e1fb2168f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 09/12] fix: the smallest number of deals per recipe of an
 empty optimal trade is 0, not 99999

---
 recipetree.py         | 2 +-
 recipetree_integer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/recipetree.py b/recipetree.py
index 585c21f..0cb3336 100644
--- a/recipetree.py
+++ b/recipetree.py
@@ -304,7 +304,7 @@ class RecipeTree (NodeMixin):
         optimal_trade_values = [t for t in values if t[0]>=0]
         for value in optimal_trade_values:
             value[1]['counter'] += 1
-        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 99999
+        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 0
         kmax = 0
         optimal_trade_count = 0
         optimal_trade_values_GFT = 0
diff --git a/recipetree_integer.py b/recipetree_integer.py
index df86cbf..d86181e 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -455,7 +455,7 @@ class RecipeTree (NodeMixin):
         optimal_trade_values = [t for t in values if sum(t[0])>=0]
         for value in optimal_trade_values:
             value[1]['counter'] += 1
-        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 99999
+        kmin = optimal_trade_values[0][1]['counter'] if len(optimal_trade_values) > 0 else 0
         kmax = 0
         optimal_trade_count = 0
         optimal_trade_values_GFT = 0
-- 
2.43.0


From 5aa7aac72fe41c665bfffdb920905150ec4105c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 10/12] fix: the report of an integer recipe tree must count
 the traders of a lottery, not only the deals

---
 recipetree_integer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipetree_integer.py b/recipetree_integer.py
index d86181e..a3be6d3 100644
--- a/recipetree_integer.py
+++ b/recipetree_integer.py
@@ -676,7 +676,7 @@ class RecipeTree (NodeMixin):
             sum_children_names = " + ".join(children_names)
             num_of_deals = min(sum_children_num_of_deals,self_num_of_deals)
             explanation = "".join(children_explanations)
-            if num_of_deals==self_num_of_deals:
+            if num_of_deals * self.agent_count == self.category.size():
                 explanation += "{}: all {} traders selected, price={}\n".format(self.name, self.category.size(), self_price)
             else:
                 explanation += "{}: {} out of {} traders selected, price={}\n".format(self.name, num_of_deals * self.agent_count, self.category.size(), self_price)
-- 
2.43.0


From 676d3f769e95c418224f2cbf1028eec0049f7c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:00 +0000
Subject: [PATCH 11/12] fix: means in the comparison table no longer cut from
 exponent notation

padding_zeroes cut str(result), which is '2.5e-05' for small numbers
(shown as '2.5e-') and '1e+16' for large ones.
---
 stock/experiment_compare_iterations_autions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stock/experiment_compare_iterations_autions.py b/stock/experiment_compare_iterations_autions.py
index 50b4618..a119901 100644
--- a/stock/experiment_compare_iterations_autions.py
+++ b/stock/experiment_compare_iterations_autions.py
@@ -231,6 +231,6 @@ def experiment(results_csv_file:str, auction_functions:list, auction_names:str,
 
 
 def padding_zeroes(result, num_digits:int):
-    str_result = str(result)
+    str_result = format(result, '.10f')  # not str(), which writes small and large numbers with an exponent
     str_result += ("0" * num_digits) if '.' in str_result else '.' + ("0" * num_digits)
     return str_result[0 : str_result.index('.') + num_digits + 1]
-- 
2.43.0


From 619f2a63a8f8233cd1e05c03541bdb8c4900a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:45 +0000
Subject: [PATCH 12/12] fix: the shuffled stock experiment takes the name of
 the mechanism before it uses it

---
 stock/experiment_compare_sbb_shufled_stock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stock/experiment_compare_sbb_shufled_stock.py b/stock/experiment_compare_sbb_shufled_stock.py
index 7298e10..22dfa55 100644
--- a/stock/experiment_compare_sbb_shufled_stock.py
+++ b/stock/experiment_compare_sbb_shufled_stock.py
@@ -109,6 +109,7 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
                            ("optimalcountwithgftzero", optimal_count_with_gft_zero),
                            ("optimalgft", optimal_gft)]
                 for auction_index in range(len(auction_functions)):
+                    auction_name = auction_names[auction_index]
                     if 'mcafee' in auction_names[auction_index]:
                         results.append((auction_name + "auctioncount", 0))
                         results.append((auction_name + "countratio", 0))
@@ -127,7 +128,6 @@ def experiment(results_csv_file: str, auction_functions: list, auction_names: st
                         print("Auction num of deals: ", auction_trade.num_of_deals())
                         print("Auction name: ", auction_names[auction_index])
                     gft = auction_trade.gain_from_trade(including_auctioneer=False)
-                    auction_name = auction_names[auction_index]
                     results.append((auction_name + "auctioncount", auction_trade.num_of_deals()))
                     results.append((auction_name + "countratio",
                                     0 if optimal_count_with_gft_zero==0 else (auction_count / optimal_count_with_gft_zero) * 100))
-- 
2.43.0

