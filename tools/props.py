"""The properties: one entry each. tools/mkmeta.py turns this list into properties.jsonl, MANIFEST.json and the table in DESIGN.md.

fields: id, title, statement, over, quant (text), why (tests can't), files, mech [(name, where)], observe [..], note (what the check decides and trusts)
"""
ASC = "ascending_auction_protocol.py: budget_balanced_ascending_auction"
EXT = "trade_reduction_protocol.py: budget_balanced_trade_reduction"
MCA = "mcafee_protocol.py: mcafee_trade_reduction"
TWS = "trade.py: TradeWithSinglePrice"
CLK = "prices.py: AscendingPriceVector.increase_price_up_to_balance"
TREE = "ascending_auction_recipetree_protocol.py: budget_balanced_ascending_auction"
ITREE = "ascending_auction_recipetree_integer_protocol.py: budget_balanced_ascending_auction"
SINGLE = ["ascending_auction_protocol.py", "trade_reduction_protocol.py", "mcafee_protocol.py", "markets.py", "agents.py", "prices.py", "trade.py"]
TREES = ["ascending_auction_recipetree_protocol.py", "recipetree.py", "prices.py", "ascending_auction_recipetree_integer_protocol.py",
         "recipetree_integer.py", "prices_integer.py", "markets.py", "agents.py"]

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, note, anchors_state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, note=note,
                  state=anchors_state or []))


prop("P01", "Strong budget balance of the single-recipe mechanisms",
     "Whenever the ascending auction or the external-competition mechanism announces at least one deal, the announced prices, weighted by how many traders of each category a deal needs, sum exactly to zero. So the payments inside every deal cancel out, the gain from trade is the same with and without the auctioneer, and the auctioneer neither gains nor pays.",
     ["inputs", "configurations"], "all trader values (buyers, sellers, mixed signs, ties), all category sizes and recipes within the bounds",
     "The test-suite only checks a dozen hand-picked markets with integer values; balance must hold at every stopping point of the clock, for every tie and every mix of category sizes.",
     ["ascending_auction_protocol.py", "trade_reduction_protocol.py", "prices.py", "trade.py", "markets.py"],
     [("the clock stops exactly where the price sum crosses zero", CLK), ("the pivot trader's price closes the balance", "markets.py: Market.calculate_prices_by_external_competition"), (ASC, ASC), (EXT, EXT)],
     ["prices and gain_from_trade of the returned trade"], "all values within +-10^7, listed sizes and recipes")

prop("P02", "Individual rationality of all single-recipe mechanisms",
     "In every trade that a single-recipe mechanism (ascending auction, external competition, McAfee) announces, every trader who remains in a participating category values the trade at least at the price of that category. So no trader, whether selected for certain or by lottery, loses by trading.",
     ["inputs", "configurations"], "all trader values, category sizes and recipes within the bounds; all mechanism options",
     "Tests compare a few complete outcomes; a trader that is kept although the price passed its value appears only for particular ties or clock stops.",
     SINGLE, [("traders whose value the price reaches leave the market", ASC), ("the price of a category is the value of an excluded competitor", EXT), ("the price lies between the accepted and the rejected pair", MCA)],
     ["categories and prices of the returned trade"], "all values within +-10^7, listed sizes and recipes")

prop("P03", "McAfee's mechanism never runs a deficit",
     "When McAfee's mechanism announces a trade, the sum of the two prices is not negative, with or without the price heuristic (without it, this holds for any number of categories). The gain that the traders keep is the total gain minus exactly this surplus for every deal.",
     ["inputs", "configurations"], "all trader values and sizes of a two-sided market within the bounds, with and without the price heuristic; markets of one to four categories without it",
     "Tests look at a few markets; the two price rules and their boundary (equal values, exhausted sides) are reached only by specific values.",
     ["mcafee_protocol.py", "trade.py", "markets.py"], [("price rule", MCA), ("surplus accounting", TWS)], ["prices, gain_from_trade of the returned trade"],
     "two categories, recipe of ones, all values within +-10^7")

prop("P04", "At most one deal is lost, none is invented",
     "If the optimal trade has K deals, the ascending auction, the external-competition mechanism and McAfee's mechanism announce K or K-1 deals (zero-gain deals count in the optimum, unless external competition is told to leave them out). They never announce more deals than the traders allow.",
     ["inputs", "configurations"], "all trader values, category sizes and recipes within the bounds",
     "Tests fix a few outcomes; losing a second deal needs a particular interplay of ties, exhausted categories and integer recipes.",
     SINGLE, [("the auction stops as soon as the prices balance", ASC), ("only the worst deal is given up", EXT), (MCA, MCA)], ["num_of_deals of the returned trade"],
     "all values within +-10^7, listed sizes and recipes")

prop("P05", "Asymptotic efficiency: at least 1-1/K of the optimal gain",
     "If the optimal trade has K deals (without zero-gain deals, if external competition is told to leave them out), the gain from trade that the ascending auction, the external-competition mechanism or McAfee's mechanism reports is at least 1-1/K of the optimal gain. It is never negative and never above the optimal gain.",
     ["inputs", "configurations"], "all trader values, category sizes and recipes within the bounds",
     "The bound relates the outcome to an optimum over all matchings; tests compare no outcome with the optimum.",
     SINGLE, [("which deal is lost", ASC), (EXT, EXT), (MCA, MCA), ("expected gain under a lottery", "trade.py: TradeWithSinglePrice.gain_from_trade")], ["gain_from_trade of the returned trade"],
     "all values within +-10^7, listed sizes and recipes")

prop("P06", "Winners are the top traders; nobody outside wants in",
     "The traders that take part in an announced trade are exactly the highest-valued ones of each category, and there are enough of them for the announced deals. No trader that is left out values the trade strictly above the price of its category (for external competition and McAfee: in markets where every deal takes one trader per category).",
     ["inputs", "configurations"], "all trader values, category sizes and recipes within the bounds",
     "Excluding the wrong trader is invisible unless its value lies in a narrow window around the price; tests use a few fixed vectors.",
     SINGLE, [("the lowest trader is removed when the price reaches it", ASC), (EXT, EXT), (MCA, MCA), ("sorted categories", "agents.py: AgentCategory")], ["categories and prices of the returned trade"],
     "all values within +-10^7; McAfee's heuristic price with buyers positive and sellers negative")

prop("P07", "Truthfulness of the ascending auction",
     "In the ascending auction no trader of a participating category can get a higher expected gain (value minus price, times its chance of being selected) by reporting a value other than its own, whatever the others report. The price and the number of deals that a participating trader faces do not depend on its own report.",
     ["inputs", "configurations"], "all values of the trader, all its misreports, all values of the others, each category of the trader, sizes and recipes within the bounds",
     "It quantifies over pairs of markets that differ in one report; no test runs such a pair.",
     ["ascending_auction_protocol.py", "prices.py", "trade.py", "markets.py", "agents.py"], [("the price moves past a trader without looking at the others' future", ASC), (CLK, CLK)], ["prices, categories and num_of_deals of two runs"],
     "all values within +-10^7, listed sizes and recipes")

prop("P08", "Truthfulness of the external-competition mechanism",
     "In the external-competition mechanism, in a market where every deal takes one trader of each category, no trader can get a higher expected gain by reporting a value other than its own. The price and the number of deals that a participating trader faces do not depend on its own report.",
     ["inputs", "configurations"], "all values of the trader, all its misreports, all values of the others, each category, sizes within the bounds",
     "It quantifies over pairs of markets that differ in one report; no test runs such a pair.",
     ["trade_reduction_protocol.py", "markets.py", "trade.py"], [("a participant's price comes from the external competition only", EXT)], ["prices, categories and num_of_deals of two runs"],
     "all values within +-10^7, recipes of ones of 2-4 categories, listed sizes")

prop("P09", "Truthfulness of McAfee's mechanism",
     "In McAfee's mechanism no trader can get a higher expected gain by reporting a value other than its own (with the price heuristic: in two-sided markets and among reports with the sign of its side). The price and the number of deals that a participating trader faces do not depend on its own report.",
     ["inputs", "configurations"], "all values of the trader, all its misreports, all values of the others, both sides, sizes within the bounds",
     "It quantifies over pairs of markets that differ in one report; no test runs such a pair.",
     ["mcafee_protocol.py", "markets.py", "trade.py"], [("price rule", MCA)], ["prices, categories and num_of_deals of two runs"], "all values within +-10^7, listed sizes")

prop("P10", "The optimal trade of a single recipe is optimal",
     "The optimal trade of a market for a single recipe has the largest gain from trade that any number of deals can have, and it consists of the best traders of each category. No deal in it loses (or, when zero-gain deals are excluded, gains nothing), and no profitable deal is left in the remaining market.",
     ["inputs", "configurations"], "all trader values, category sizes and recipes within the bounds, zero-gain deals included and excluded",
     "Optimality is relative to all possible trades; tests compare a few outcomes with literals.",
     ["markets.py", "trade.py", "agents.py"], [("greedy choice of the highest traders until the gain is negative", "markets.py: Market.optimal_trade")], ["num_of_deals, gain_from_trade, remaining market"], "all values within +-10^7, listed sizes and recipes")

prop("P11", "The optimal trade and the remaining market partition the traders",
     "After computing an optimal trade, with or without a limit on the number of deals, every trader is either in exactly one deal or in the remaining market, and the market itself is unchanged. Every deal has exactly the traders the recipe asks for, deals are listed from the least to the most profitable, the remaining traders are the lowest ones, and the limit is respected.",
     ["inputs", "configurations"], "all trader values, sizes, recipes, limits within the bounds",
     "Losing or duplicating a trader shows only for some combination of recipe and category sizes; tests print a few markets.",
     ["markets.py", "agents.py", "trade.py"], [("clone, take, remove", "markets.py: Market.optimal_trade, get_highest_agents, remove_highest_agents")], ["procurement sets, remaining market, original market"], "all values within +-10^7, listed sizes, recipes and limits")

prop("P12", "Mechanisms leave the market untouched and are repeatable",
     "Running any mechanism or computing an optimal trade leaves the traders in the given market, the given recipe, and the results of earlier runs as they were. Running it again on the same market gives the same result.",
     ["inputs", "histories", "configurations"], "all trader values; every sequence of two runs on one market, for single recipes and recipe trees",
     "Tests build a new market for every call, so aliasing between runs is never exercised.",
     SINGLE + TREES[:6], [("mechanisms work on a clone", "markets.py: Market.clone, agents.py: AgentCategory.clone"), (ASC, ASC), (EXT, EXT), (MCA, MCA), (TREE, TREE), (ITREE, ITREE)], ["market before and after; two results"], "all values within +-10^7, listed sizes, recipes and trees")

prop("P13", "The order in which traders arrive does not matter",
     "Two markets that contain the same traders, listed in different orders or added in different ways (one by one, in groups, at creation), give the same deals, prices, gain and remaining traders in every single-recipe mechanism and in the optimal trade.",
     ["inputs", "histories", "configurations"], "all trader values in arbitrary order, including ties; each way of building the market",
     "Tests list values already sorted or in one fixed order.",
     ["agents.py", "markets.py"] + SINGLE[:3], [("categories are kept sorted", "agents.py: AgentCategory.__init__, append"), ("adding traders", "markets.py: Market.append_trader, append_PS")], ["results of the two runs"], "all values within +-10^7, listed sizes")

prop("P14", "Accounting of a trade",
     "For every trade with one price per category the number of deals is what the scarcest category allows, the gain from trade is the expected total value of the randomly selected traders, and the gain without the auctioneer is smaller by exactly the payments collected. A list of deals has the sum of all its values as gain and as many deals as it has members.",
     ["inputs", "configurations"], "all trader values, all prices (balanced or not), category sizes and recipes within the bounds",
     "Lotteries, unbalanced prices and categories outside the recipe occur in few tests, always with balanced outcomes.",
     ["trade.py"], [("number of deals and expected gain", TWS), ("deal list", "trade.py: TradeWithMaterialBalance")], ["num_of_deals, gain_from_trade"], "all values and prices within +-10^7, listed sizes and recipes")

prop("P15", "The printed reports say what happened",
     "The printed form of a trade names exactly the participating categories with their traders, their price, and either that all of them trade (exactly when all of them do) or how many out of how many are selected at random; an empty trade prints as no trade. The printed forms of a market and of a list of deals contain exactly its traders and deals.",
     ["inputs", "configurations"], "all trader values and prices, sizes and recipes within the bounds; constructed trades and mechanism outcomes",
     "Tests parse no report; demos and experiments rely on it.",
     ["trade.py", "markets.py", "agents.py"], [("report", "trade.py: TradeWithSinglePrice.__repr__"), ("market", "markets.py: Market.__str__")], ["str() of trades and markets"], "all values within +-10^7, listed sizes and recipes; numbers as they are printed for an arbitrary value")

prop("P16", "A category always lists its traders from high to low",
     "After creating a category from any list and after any sequence of additions (single or several), removals (highest, several highest, lowest) and cloning, the category contains exactly the right traders, sorted from high to low, and reports its size, highest and lowest traders accordingly. Changing a clone or the list it was created from does not change the category.",
     ["inputs", "histories"], "all values, all sequences of up to three (thorough: four) operations from any state of the listed sizes",
     "Every mechanism relies on sortedness; tests never mutate a category.",
     ["agents.py"], [("sorting on creation and on append", "agents.py: AgentCategory"), ("copy on clone", "agents.py: AgentCategory.clone")], ["values, size, highest/lowest accessors"], "all values within +-10^7, listed sizes and operation sequences")

prop("P17", "A single clock stops at its target or exactly at the balance",
     "Raising one price of a price vector towards a target never lets the weighted price sum exceed its bound. The price reaches the target if the bound allows it; otherwise it stops where the sum equals the bound exactly. No other price changes, and the recorded status tells which of the two happened. The sums that are announced before an increase are the ones reached after it.",
     ["inputs", "states", "histories"], "every state of the prices, every target and bound, recipes and units per agent within the bounds, two steps",
     "Tests fix a few integer states; an increase that overshoots the balance needs a particular weight and target.",
     ["prices.py", "prices_integer.py"], [("clock step", CLK), ("clock step with units", "prices_integer.py: AscendingPriceVector.increase_price_up_to_balance"), ("announced sums", "prices.py: AscendingPriceVector.price_sum_after_increase")],
     ["prices, price sum and status of the vector"], "prices, targets and bounds within +-10^7, recipes of 1-5 categories", ["AscendingPriceVector.vector"])

prop("P18", "Simultaneous clocks keep all recipes at the same price sum",
     "While several clocks rise together, one per recipe, every recipe of the tree always has the same price sum (with its units per deal), and it never exceeds the bound. Each price stays between its old value and its target, the clocks stop when one of them reaches its target or when the sum equals the bound exactly, and the recorded status tells which.",
     ["inputs", "states", "histories"], "arbitrary targets and bounds, every choice of one clock per recipe, one to three steps, trees and units within the bounds",
     "Tests follow a handful of fixed increases; the recipes drift apart only for some trees, units and targets.",
     ["prices.py", "prices_integer.py"], [("simultaneous increase", "prices.py: SimultaneousAscendingPriceVectors.increase_prices"), ("simultaneous increase with units", "prices_integer.py: SimultaneousAscendingPriceVectors.increase_prices")],
     ["prices per category, price sum and status"], "targets and bounds within +-10^7, trees of up to 5 categories, up to three steps", ["SimultaneousAscendingPriceVectors.vectors"])

prop("P19", "Initial prices start every recipe at the same sum",
     "The initial prices that are computed for a set of recipes contain one price per category, none above the given highest price, and give every recipe exactly the same price sum. The given recipes are not changed.",
     ["inputs", "configurations"], "every highest initial price and every set of recipes of the listed trees and units; every solution the linear-programming library may return",
     "Tests compare one solution for a few recipes; which solution the library returns is not specified.",
     ["prices.py", "prices_integer.py"], [("initial prices", "prices.py: SimultaneousAscendingPriceVectors.calculate_initial_prices"), ("initial prices with units", "prices_integer.py: SimultaneousAscendingPriceVectors.calculate_initial_prices")],
     ["initial price per category"], "trees of up to 6 categories, units 1-3; scipy's linprog is represented by its contract in the symbolic runs")

prop("P20", "The optimal trade of a recipe tree is optimal",
     "The optimal trade of a recipe tree, with or without units per deal, has the largest gain from trade of all ways to divide the traders among the recipes, and the largest number of deals with this gain. Its deals have the traders that one recipe asks for, none loses, their values add up to the announced gain, and the traders of the market stay as they were.",
     ["inputs", "configurations"], "all trader values, tree shapes, category sizes and units per deal within the bounds",
     "The optimum is over all ways to combine recipes that compete for the same traders; tests compare a few outcomes.",
     ["recipetree.py", "recipetree_integer.py"], [("optimal trade", "recipetree.py: RecipeTree.optimal_trade"), ("optimal trade with units", "recipetree_integer.py: RecipeTree.optimal_trade")],
     ["deals, number of deals, gain"], "all values within +-10^7, trees of up to 6 categories, listed sizes and units")

prop("P21", "Recipes, clocks and the number of deals of a recipe tree",
     "A recipe tree lists exactly one recipe per path from a root to a leaf, with the units of each category. The number of possible deals is the largest number that the category sizes allow. The set of clocks chosen for the next increase has exactly one category on every recipe, and the auction is given up only when no deal is possible.",
     ["inputs", "configurations"], "all category sizes up to the bounds, tree shapes and units per deal within the bounds",
     "Which clock is chosen depends on the relation of many category sizes; tests try few of them.",
     ["recipetree.py", "recipetree_integer.py"], [("paths", "recipetree.py: RecipeTree.paths_to_leaf, recipes"), ("clock set", "recipetree.py: RecipeTree.largest_categories"), ("capacity", "recipetree.py: RecipeTree.num_of_deals"), ("with units", "recipetree_integer.py: RecipeTree.largest_categories, num_of_deals")],
     ["paths, recipes, clocks, number of deals"], "14 tree shapes of up to 6 categories, category sizes up to 6, units 1-3")

prop("P22", "Strong budget balance of the recipe-tree auctions",
     "Whenever a recipe-tree auction announces a deal, the announced prices of every recipe of the tree, weighted by the units that a deal of this recipe needs, sum exactly to zero.",
     ["inputs", "configurations"], "all trader values, tree shapes, category sizes and units per deal within the bounds",
     "Every recipe must be balanced at every stopping point of the simultaneous clocks; tests check complete outcomes of a few markets.",
     TREES, [("clocks rise together", "prices.py: SimultaneousAscendingPriceVectors.increase_prices"), (TREE, TREE), (ITREE, ITREE)], ["prices of the returned trade"],
     "all values within +-10^7, trees of up to 6 categories, listed sizes and units")

prop("P23", "Individual rationality and top traders in the recipe-tree auctions",
     "In a recipe-tree auction the traders that stay are the highest-valued ones of their category. When a deal is announced, no trader that stays values the trade below the price of its category, and no trader that left values it above. A category outside the tree is left alone.",
     ["inputs", "configurations"], "all trader values, tree shapes, category sizes and units per deal within the bounds",
     "A trader that leaves too late or too early shows only for particular orders of values and clocks.",
     TREES, [("a trader leaves when the price reaches its value", TREE), ("with units", ITREE)], ["categories and prices of the returned trade"],
     "all values within +-10^7, trees of up to 6 categories, listed sizes and units")

prop("P24", "Efficiency of the recipe-tree auctions",
     "A recipe-tree auction announces as many deals as the remaining traders support, never more than the optimal trade and at most one fewer per recipe. The reported gain is the best that the remaining traders can reach, between zero and the optimum; when every category gives one trader per deal and the optimal trade uses every used recipe at least k times, it is at least 1-1/k of the optimum.",
     ["inputs", "configurations"], "all trader values, tree shapes, category sizes and units per deal within the bounds",
     "The outcome is compared with the optimum over all ways to combine the recipes; tests compare with literals.",
     TREES, [("deals of the remaining market", TREE), ("with units", ITREE), ("gain", "recipetree.py: RecipeTree.optimal_trade_GFT")], ["num_of_deals, gain_from_trade"],
     "all values within +-10^7, trees of up to 6 categories, listed sizes and units")

prop("P25", "Truthfulness of the recipe-tree auctions",
     "In a recipe-tree auction, a trader that stays with a false report, at a price below its true value, meets the same prices and the same remaining competitors as with its true report, and stays with the true report too. So no trader can turn a loss or a worse price into a better one by misreporting.",
     ["inputs", "configurations"], "all values of the trader, all its misreports, all values of the others, each category, trees, sizes and units within the bounds",
     "It quantifies over pairs of markets that differ in one report; no test runs such a pair.",
     TREES, [("clocks do not look at the values of traders that stay", TREE), ("with units", ITREE), ("clock set depends on sizes only", "recipetree.py: RecipeTree.largest_categories")], ["prices and categories of two runs"],
     "all values within +-10^7, trees of up to 4 categories, listed sizes and units")

prop("P26", "Numbering of categories and order of branches do not matter",
     "A recipe-tree auction gives the same number of deals, gain, prices and remaining traders when the categories are numbered or named differently (with the tree adapted) or when the branches of the tree are listed in the opposite order.",
     ["inputs", "configurations"], "all trader values, trees, sizes, units, reversals and rotations of the numbering within the bounds",
     "Tests number the categories in the order in which the tree visits them.",
     TREES, [("indices of the tree", "recipetree.py: RecipeTree"), (TREE, TREE), (ITREE, ITREE)], ["results of the two runs"], "all values within +-10^7, trees of up to 6 categories, listed sizes and units")

prop("P27", "The auction with units agrees with the one without",
     "The recipe-tree auction with units per deal, when every category gives one trader per deal (whether this is said or left out), announces the same deals, gain, prices and remaining traders as the recipe-tree auction without units.",
     ["inputs", "configurations"], "all trader values, trees and sizes within the bounds",
     "They are two separate implementations; no test compares them.",
     TREES, [(TREE, TREE), (ITREE, ITREE)], ["results of both auctions"], "all values within +-10^7, trees of up to 6 categories, listed sizes")

prop("P28", "Deals per recipe of the optimal trade are counted right",
     "The optimal trade with counters has the same deals and gain as the optimal trade, and the smallest and largest number of deals per used recipe that it announces are those of an optimal way to divide the deals among the recipes (both zero if there is no deal).",
     ["inputs", "configurations"], "all trader values, trees, sizes and units within the bounds",
     "Experiments rely on the counters; no test checks them.",
     ["recipetree.py", "recipetree_integer.py"], [("counters", "recipetree.py: RecipeTree.optimal_trade_with_counters"), ("with units", "recipetree_integer.py: RecipeTree.optimal_trade_with_counters")],
     ["number of deals, gain, smallest and largest count"], "all values within +-10^7, trees of up to 6 categories, listed sizes and units")

prop("P29", "Input that does not fit is refused and changes nothing",
     "A recipe or group of traders with the wrong number of entries, a McAfee recipe that is not all ones, a recipe tree with an incomplete list, recipes of different lengths, and increases (without units) that do not raise exactly one clock per recipe are refused with a ValueError, and the market and prices stay as they were. Input that fits is not refused.",
     ["inputs", "configurations"], "all recipe lengths and category sizes within the bounds, all sets of increases, listed malformed trees",
     "Tests never pass wrong input.",
     SINGLE + TREES[:3] + ["recipetree_integer.py", "prices_integer.py"], [("length of the recipe", "markets.py: Market.optimal_trade"), ("one increase per recipe", "prices.py: SimultaneousAscendingPriceVectors.increase_prices"), ("tree list", "recipetree.py: RecipeTree.__init__")],
     ["ValueError or not; market and prices afterwards"], "markets of 1-4 categories, recipes of length 0-5, McAfee recipes with entries 0-3")

prop("P30", "Every mechanism ends with a result on every market",
     "Every mechanism, optimal trade and recipe-tree auction ends with a printable result on every market, also when categories are empty or too small for a single deal. It announces no deal for which there are no traders, and without a deal the gain is zero.",
     ["inputs", "configurations"], "all category sizes (including zero) and all trader values within the bounds",
     "Which categories run empty first depends on the values; a crash or an endless loop shows only for some of them.",
     SINGLE + TREES[:5], [(ASC, ASC), (EXT, EXT), (MCA, MCA), (TREE, TREE), (ITREE, ITREE)], ["the returned trade"], "all values within +-10^7, category sizes up to 4, trees of up to 6 categories")

prop("P31", "The table of a single-recipe experiment is faithful",
     "An experiment writes one row for each number of agents to the given file. Each row shows (up to the displayed decimals) the means over all iterations of the optimal number of deals and gain, and of the number of deals, total gain and traders' gain of the auction on the same markets, and their ratios in percent of the optimum (zero if the optimum is zero). The markets have the asked numbers of agents with values in the asked ranges.",
     ["inputs", "configurations"], "all random draws, all results an auction can return, recipes, numbers of agents and iterations within the bounds",
     "Experiments draw random markets and write files; no test runs them.",
     ["experiment.py", "markets.py", "agents.py"], [("sums and ratios", "experiment.py: experiment"), ("random traders", "agents.py: AgentCategory.uniformly_random"), ("optimum", "markets.py: Market.optimal_trade")],
     ["rows given to the results table"], "arbitrary auctions, up to 3 iterations, up to 3 agents per recipe entry; shown numbers within 0.01")

prop("P32", "The comparison of the balanced mechanisms counts right",
     "The experiment that compares external competition with the ascending auction runs both on the same markets, and for each recipe it shows the share (in whole percent of the numbers of agents) in which the one, the other or neither reached more deals, and likewise more gain, summed over the iterations; the three win counts of the gain are shown as well.",
     ["inputs", "configurations"], "all random draws, all results of both mechanisms, recipes, numbers of agents and iterations within the bounds",
     "Experiments draw random markets and write files; no test runs them.",
     ["experiment_comparing_sbb.py"], [("wins and ties", "experiment_comparing_sbb.py: experiment"), (EXT, EXT), (ASC, ASC)], ["rows given to the results table"], "up to 3 numbers of agents, up to 2 iterations, up to 3 recipes")

prop("P33", "The tables of the recipe-tree experiments are faithful",
     "A recipe-tree experiment, on random or given stock prices, runs the auction and the optimal trade on the same markets of the asked sizes and writes one row for each number of agents, with the means over iterations (and stocks) of the deals, gains and smallest and largest deals per recipe, the guaranteed part of the gain computed from the mean smallest number, and the ratios to the optimum in percent (zero if the optimum is zero).",
     ["inputs", "configurations"], "all random draws and stock prices, all results of auction and optimal trade, trees, sizes and iterations within the bounds",
     "Experiments draw random markets and write files; no test runs them.",
     ["experiment_ascending_auction_recipetree_random.py", "experiment_ascending_auction_recipetree_integer_random.py", "experiment_ascending_auction_recipetree_stock.py", "experiment_ascending_auction_recipetree_integer_stock.py"],
     [("with random traders", "experiment_ascending_auction_recipetree_random.py: experiment"), ("with units", "experiment_ascending_auction_recipetree_integer_random.py: experiment"), ("with stock prices", "experiment_ascending_auction_recipetree_stock.py: experiment"), ("stocks, tree with units", "experiment_ascending_auction_recipetree_integer_stock.py: experiment")],
     ["rows given to the results table"], "trees of up to 4 categories, up to 3 numbers of agents, 2 iterations, 3 stocks; shown numbers within 0.0001")

prop("P34", "The printed report of a recipe-tree auction says what happened",
     "The report of a recipe-tree trade names every category of the tree with its price. For every leaf it gives the deals its traders could support, and for every inner category and its branches how many traders and deals are selected: all of them exactly when all are needed for the deals that this part of the tree supports, otherwise how many out of how many. It ends with the overall number of deals. An empty trade prints as no trade.",
     ["inputs", "configurations"], "all trader values and prices, trees, sizes and units within the bounds; constructed trades and auction outcomes",
     "Tests compare the report of a few markets whose categories divide evenly.",
     ["recipetree.py", "recipetree_integer.py", "ascending_auction_recipetree_protocol.py", "ascending_auction_recipetree_integer_protocol.py"],
     [("explanation", "recipetree.py: RecipeTree.num_of_deals_explained"), ("with units", "recipetree_integer.py: RecipeTree.num_of_deals_explained")], ["str() of the trade"], "all values and prices within +-10^7, trees of up to 6 categories, listed sizes and units")

prop("P35", "Stock prices become traders of the right number, sign and value",
     "For every recipe the traders made from a stock file are in the ratio of the recipe, buyers have positive and sellers negative values. Values are prices of the file in thousandths (high and closing prices for buyers, low and opening prices for sellers); for the recipes (1,1), (2,1), (1,2), (2,1,1) and three equal numbers every price of the file belongs to exactly one trader (two prices added where a category has half as many traders). For a recipe tree the shuffled prices are dealt out in the ratio of the counts, none twice, times the units, negative for sellers. The pool of all prices contains each price once and stays the same when asked again. Every file of the folder is used, none else.",
     ["inputs", "configurations"], "all prices, all orders of shuffling, recipes, counts and numbers of days within the bounds",
     "No test reads stock data.",
     ["get_stocks_data.py"], [("single recipes", "get_stocks_data.py: getPrices"), ("trees", "get_stocks_data.py: get_prices_tree"), ("pool", "get_stocks_data.py: getAllPricesShuffled"), ("folder", "get_stocks_data.py: getStocksPrices, getStocksTreePrices, getStocksPricesShuffled")], ["returned lists"], "prices up to 10^4, up to 3 days per file, recipes of up to 5 categories")

prop("P36", "The building blocks of a market do what they say",
     "After any sequence of adding a trader or a group, taking out the highest traders, cloning and filling the empty market, a market contains exactly the right traders, finds the highest ones for any request (none if there are not enough), and notices an empty category. Changing a market, a clone of it, or an empty market made from it changes nothing else: not the lists it was made of, nor another market made of them. The best group for a trader joins it with the highest traders of the other categories, and the prices from external competition keep the competitors' values and balance the deal at the pivot.",
     ["inputs", "histories", "configurations"], "all values, all sequences of up to three (thorough: four) operations, sizes and recipes within the bounds",
     "Tests never change a market.",
     ["markets.py", "agents.py"], [("additions", "markets.py: Market.append_trader, append_PS"), ("highest traders", "markets.py: Market.get_highest_agents, remove_highest_agents"), ("copies", "markets.py: Market.clone, empty_agent_categories"), ("prices", "markets.py: Market.best_containing_PS, calculate_prices_by_external_competition")], ["market after each operation"], "all values within +-10^7, listed sizes and recipes")

prop("P37", "Currency and zero points do not matter",
     "Multiplying all values by a positive constant gives the same deals with the same traders, and prices and gain multiplied by the constant, in every mechanism, in the optimal trade and in the recipe-tree auctions (whose prices count for categories that can still trade). Moving the values of each category by an amount, such that the amounts of one deal sum to zero, gives the same deals, traders and gain, and prices moved by these amounts, in the ascending auction, external competition, McAfee without heuristic and the optimal trade.",
     ["inputs", "configurations"], "all trader values, all movements, constants 1/3, 2 and 1000, sizes, recipes and trees within the bounds",
     "It compares pairs of markets; no test runs such a pair.",
     SINGLE + TREES[:3], [(ASC, ASC), (EXT, EXT), (MCA, MCA), (TREE, TREE), (ITREE, ITREE)], ["results of the two runs"], "all values within +-10^7, listed sizes, recipes and trees")

prop("P38", "Stating the same task differently gives the same result",
     "The optimal trade of a recipe and of the recipe tree that is one chain of the same categories (in any order, with the same units) have the same number of deals with the same gains. A category that no deal needs, empty or not, wherever it stands, changes nothing in the ascending auction, external competition, the optimal trade and the recipe-tree auctions.",
     ["inputs", "configurations"], "all trader values including the outsiders', all places of the outside category, recipes, sizes and trees within the bounds",
     "It compares separate implementations and pairs of markets; no test does.",
     ["markets.py", "recipetree.py", "recipetree_integer.py"] + SINGLE[:2] + [TREES[0], TREES[3]], [("recipe", "markets.py: Market.optimal_trade"), ("chain", "recipetree.py: RecipeTree.optimal_trade"), ("chain with units", "recipetree_integer.py: RecipeTree.optimal_trade"), (ASC, ASC), (EXT, EXT)], ["results of both ways"], "all values within +-10^7, up to 4 categories, listed sizes and units")

prop("P39", "Random categories have the traders that were asked for",
     "A random category (uniform, normal, gamma, Pareto) has the asked name and number of traders, listed from high to low. Their values are the drawn numbers rounded, inside the asked range (uniform) or with the asked sign and scale (the others, drawn with the asked parameters).",
     ["inputs", "configurations"], "everything the random number generator can return, sizes, ranges and signs within the bounds",
     "Tests do not use random categories.",
     ["agents.py"], [("random categories", "agents.py: AgentCategory.uniformly_random, normalvariate_random, gammavariate_random, paretovariate_random")], ["values of the category"], "up to 5 traders, listed ranges and signs")

prop("P40", "Tracing changes nothing",
     "Switching on the loggers of the code gives the same deals, traders, prices and gain in every mechanism, in the optimal trade and in the recipe-tree auctions, and every message can be printed.",
     ["inputs", "configurations"], "all trader values, sizes, recipes and trees within the bounds",
     "Tests trace a few markets and do not compare with the silent run.",
     SINGLE + TREES[:6], [(ASC, ASC), (EXT, EXT), (MCA, MCA), (TREE, TREE), (ITREE, ITREE)], ["results of the two runs, log records"], "all values within +-10^7, listed sizes, recipes and trees")

prop("P41", "The earlier protocols in old/ do right what they still do",
     "The earlier auction for several recipes, used with one recipe of zeros and ones, announces balanced prices, keeps the top traders, none of whom loses, announces no more deals than the optimal trade has and, if no two traders of a category are equal, at most one less. It sorts categories into those of one recipe, those of all recipes and those that no recipe needs, and refuses others. The earlier buyers' recipes become the right numbers of sellers or are refused. The earlier simultaneous clocks keep the price sums of all recipes equal (up to 10^-9), stop at a target or at the balance, and never pass either. The earlier recipe tree finds an optimal trade without zero-gain deals.",
     ["inputs", "histories", "configurations"], "all trader values, recipe entries and targets within the bounds",
     "Most tests of these files no longer pass; the others fix single examples.",
     ["old/ascending_auction_multirecipe_protocol.py", "old/ascending_auction_multibuyer_protocol.py", "old/SimultaneousAscendingPriceVector.py", "recipetree.old.py", "prices.py", "markets.py", "agents.py"],
     [("auction and kinds of categories", "old/ascending_auction_multirecipe_protocol.py: budget_balanced_ascending_auction, _analyze_recipes"), ("buyers' recipes", "old/ascending_auction_multibuyer_protocol.py: _convert_recipes_to_seller_counts"),
      ("clocks", "old/SimultaneousAscendingPriceVector.py: SimultaneousAscendingPriceVectors.increase_prices"), ("optimal trade", "recipetree.old.py: RecipeTree.optimal_trade")],
     ["results of the functions"], "all values within +-10^7, up to 4 categories (clocks and trees: 5), up to 3 recipes; the earlier auction with several recipes and the earlier auction with several kinds of buyers no longer fit the price vectors of today and are left out")

prop("P42", "Tables of the stock experiments say what the mechanisms did",
     "In the experiments that run mechanisms on stock prices, one row is written per stock (and per asked number of agents, or of agents in the shuffled pool), in order; every mechanism gets the traders that the stock and the number of agents prescribe (the first ones of each category times the recipe; or buyers and sellers made of the pool's prices), and the recipe. The row names its experiment and shows the optimal number of deals and gain, the mechanism's number of deals and gain, and their ratios in percent (0 without an optimal gain), up to the displayed digits. Given prices are used as they are; a stock with too few traders is used whole, once.",
     ["inputs", "configurations"], "all prices and results of mechanisms within the bounds",
     "No test runs these experiments.",
     ["stock/experiment_stock.py", "stock/experiment_compare_iterations_autions_without_mcafee.py", "stock/experiment_compare_sbb_shufled_stock.py", "markets.py", "trade.py", "agents.py"],
     [("one mechanism", "stock/experiment_stock.py: experiment"), ("parts of stocks", "stock/experiment_compare_iterations_autions_without_mcafee.py: experiment"), ("pool of prices", "stock/experiment_compare_sbb_shufled_stock.py: experiment")],
     ["rows written to the results table, calls of the mechanisms"], "recipes, numbers of prices and of agents, stocks and iterations as listed in the harness; not claimed: pools with too few prices in the first stock, mechanisms with \"mcafee\" in the name, num_possible_trades of the experiment on parts if the recipe does not start with 1")

prop("P43", "The comparison over many markets shows means of what the mechanisms did",
     "The comparison of mechanisms on stock or random prices runs every mechanism once on each market (each stock, number of agents and iteration), all with the same traders and the recipe. The markets have the asked number of traders per category; every trader is made of a price of its stock (reused if there are too few) or is a random value of its side's range. The table has one row per number of agents with the means, over stocks and iterations, of the optimal numbers of deals (with and without zero-gain deals), of gains, of each mechanism's deals and gains and of their ratios in percent, cut to two or three digits. The files of differences are written exactly if a balanced mechanism does worse than the first one.",
     ["inputs", "schedules", "configurations"], "all prices, random draws and results of mechanisms within the bounds",
     "No test runs this experiment; its random prices cannot be sampled exhaustively.",
     ["stock/experiment_compare_iterations_autions.py", "markets.py", "trade.py", "agents.py"],
     [("experiment", "stock/experiment_compare_iterations_autions.py: experiment"), ("digits", "stock/experiment_compare_iterations_autions.py: padding_zeroes")],
     ["rows written to the results table, calls of the mechanisms, files written"], "recipes, numbers of prices and of agents, stocks and iterations as listed in the harness")

prop("P44", "A result depends on the market and the recipe, not on what was run before",
     "What a mechanism, an optimal trade or a recipe-tree auction returns depends on the traders that are in the market at that time, on the recipe (or tree and units) and on the options, and on nothing else: not on auctions of other markets, recipes, trees or units in the same process, and not on results computed for the same market before its traders were changed (added, taken out, exchanged).",
     ["inputs", "histories", "configurations"], "all trader values before and after each change; the listed changes and histories of other auctions",
     "Every test looks at one fresh computation; what is kept between computations shows only in particular sequences of different ones.",
     ["markets.py", "agents.py", "trade.py", "ascending_auction_protocol.py", "trade_reduction_protocol.py", "mcafee_protocol.py", "prices.py", "prices_integer.py", "recipetree.py", "recipetree_integer.py", "ascending_auction_recipetree_protocol.py", "ascending_auction_recipetree_integer_protocol.py"],
     [("optimal trade", "markets.py: Market.optimal_trade"), (ASC, ASC), (EXT, EXT), (MCA, MCA), (TREE, TREE), (ITREE, ITREE), ("trees", "recipetree.py, recipetree_integer.py: RecipeTree.optimal_trade")],
     ["results of the same computation in newly loaded modules, after other computations, and after changes of the market"], "all values within +-10^7, listed sizes, recipes, trees, changes; the histories of other auctions have fixed values")

# how each property is decided: what is symbolic, and against what oracle
DECIDES = {
 "P01": "prices weighted by the recipe: the linear expression that the clock left must be identically 0; gain with and without auctioneer the same expression",
 "P02": "every remaining trader's value >= price of its category, on every path, for all seven options of the mechanisms",
 "P03": "sum of the two prices >= 0; gain of the traders = total gain minus deals times that sum, as equal expressions",
 "P04": "deals announced against the sums of the k-th deals of the sorted symbolic values (an oracle in the harness): k is at most the optimal number and at least one less",
 "P05": "gain of the announced trade x K >= (K-1) x optimal gain, decided per path as a linear inequality over the values",
 "P06": "the winners of a category are its first ones; whoever was left out values the trade at most at the price",
 "P07": "two runs of the real code in one path, the second with one trader's value replaced by a second symbolic value; utility of the trader at its true value compared",
 "P08": "as P07; the utility of a trader counts the lottery (deals times recipe entry over the remaining traders)",
 "P09": "as P07, utility with the price of the trader's side",
 "P10": "against an oracle written in the harness: the gain of k deals is a sum of sorted symbolic values; no k has a higher gain; contents, number and report compared",
 "P11": "union of the two results per category = the traders of the market, for every limit",
 "P12": "the traders before and after the run are the same expressions; a second run on the same market, and a run on a clone, give the same outputs",
 "P13": "two markets from the same symbolic values in two orders, or built in different steps; the outputs must be equal expressions",
 "P14": "symbolic prices and values; each accounting quantity against its definition",
 "P15": "the text printed with marked symbolic numbers is parsed back and compared with the object it describes",
 "P16": "after each operation of each sequence the category is sorted and its multiset is the one expected",
 "P17": "symbolic price, target, bound and units; the three possible outcomes are characterised exactly and compared",
 "P18": "symbolic targets and bounds; the state after each step is compared with the one that the three possible events (target, bound, both) prescribe",
 "P19": "linprog replaced by its contract (fresh variables satisfying the constraints), so the claim holds for every solution that it could return",
 "P20": "against an oracle that enumerates all plans (deals per recipe); the gain of a plan is a sum of sorted symbolic values, and no plan gains more",
 "P21": "category sizes are symbolic choices up to a limit; number of deals, paths, recipes and clocks against recursions written in the harness",
 "P22": "price sum of every recipe that trades, weighted by units, is identically 0; gain with and without auctioneer agree",
 "P23": "as P02 and P06 for trees",
 "P24": "the remaining traders and the gain against all plans of the whole and of the remaining market: at most one deal per recipe is lost, nothing is invented",
 "P25": "two runs in one path, truth and misreport: whoever stays with a misreport at a price below the true value meets the same prices and the same competition with the truth, and stays with it (with P23 this is truthfulness)",
 "P26": "two runs with the categories renumbered or the branches reordered; results equal up to the renumbering",
 "P27": "the integer implementation with units 1 against the plain one: same prices, traders, deals and report",
 "P28": "smallest and largest numbers of deals per used recipe against the optimal plans of the oracle of P20",
 "P29": "every kind of ill-fitting input must raise, and the objects must hold the same expressions afterwards",
 "P30": "every path of every configuration ends with a result; unexpected exceptions and endless paths are violations",
 "P31": "the auction is replaced by an arbitrary one (fresh symbolic results), the table writer by a recorder; columns against averages computed by the harness",
 "P32": "as P31 for the comparison of mechanisms: shares and numbers of wins over symbolic gains",
 "P33": "as P31 for trees and stock data",
 "P34": "as P15 for trees",
 "P35": "symbolic price files read through stand-ins of the libraries; the traders made of them against the definition",
 "P36": "each operation of MarketCategory / Market against a model kept in the harness, over sequences of operations",
 "P37": "two runs, the second with all values multiplied by a constant or with the categories shifted against each other by symbolic amounts; results scale and shift alike",
 "P38": "the same task stated twice (recipe as a chain, a category that takes no part, at every place); results equal",
 "P39": "numpy's random functions replaced by arbitrary symbolic draws; number, sign and range of the traders made of them",
 "P40": "two runs, the loggers at DEBUG with a handler that formats every message and at WARNING; the results are equal expressions",
 "P41": "as P01, P02, P04 for the auction with one recipe; the entries of the recipes themselves are symbolic integers for the classification; the clocks as P18, the tree against the plans of P20", "P42": "mechanisms replaced by arbitrary ones (fresh symbolic results), the table writer by a recorder; traders handed over, optimum and ratios against the harness",
 "P44": "the same computation twice in one path: in newly loaded modules and after other auctions, or on a changed market and on a new one of the same traders; the results must be equal expressions",
 "P43": "as P42, random draws arbitrary within the range asked for and any order of shuffled prices; means against averages computed by the harness, parsed from the text of the cells",
}

NOT_APPLICABLE = []
