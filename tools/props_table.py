NA = {}
SIMF = ["carbon/simulators/carbon_simulator.py", "carbon/order.py", "carbon/routers/base_router.py",
        "carbon/routers/exact_base_router.py", "carbon/routers/exact_router_x0y0n.py", "carbon/routers/fast_router.py",
        "carbon/routers/alpha_router.py"]
SIM = SIMF[0]
TESTS = "The tests run a few fixed books and trades and compare a handful of printed results; "

prop("C01", "Tokens are conserved over every history of the simulator",
     "After any sequence of creating and deleting strategies, quoting and trading, the balance all orders hold in a token equals what was "
     "deposited minus what was withdrawn plus what traders paid minus what traders received in executed trades. Every order that sells in a trade "
     "loses exactly the amount of its route, and its linked order gains exactly the amount the trader paid on that route.",
     ["histories", "inputs"], "All histories of add_strategy/add_order/delete/trade calls, all amounts, pairs and matching methods.",
     TESTS + "none sums balances over a history with several strategies, deletions, partial fills and both trade directions.",
     SIMF, [("executing a route: selling order reduced, linked order credited", SIM + ":_trade"),
            ("deletion of linked pairs", SIM + ":delete_strategy")],
     state=[("orders", "the order book, by id", SIM), ("trades", "the trade log", SIM)], observe=["state()", "result of the trading calls"])

prop("C02", "A trade changes nothing but the balances of its orders and their links",
     "An executed trade changes only the balances of the orders it routes through and of the orders linked to them; every other order, and every "
     "order's pair, token, price range, link and external id, stays exactly as it was. The balance of an order is never negative and never exceeds "
     "its capacity, and the capacity changes only by growing to the balance when a linked order receives more than it could hold.",
     ["histories", "inputs"], "All histories and all trades, in both directions, for one- and two-sided strategies.",
     TESTS + "they do not compare the rest of the book before and after a trade.",
     SIMF, [("capacity expansion of linked orders", SIM + ":_trade"), ("balance setter", "carbon/order.py")], observe=["state()"])

prop("C03", "Every fill lies on the bonding curve of its order",
     "Whatever the matching method, the amounts bought and sold on each route of a trade satisfy the order's bonding curve exactly (up to the reported "
     "precision), given its price range, capacity and balance before the trade. The effective price of the route therefore lies between the marginal "
     "prices reported before and after the trade, hence within the price range of the order, and after the trade the reported marginal price belongs to the new balance.",
     ["inputs", "histories"], "All orders (flat and ranged, full and partly filled), amounts, directions and matching methods.",
     TESTS + "curve formulas are exercised on a few parameters with full orders.",
     SIMF, [("curve formulas by target and by source", "carbon/routers/base_router.py"), ("geometric parameters of a curve", "carbon/order.py")],
     observe=["trades in the result", "state()"])

prop("C04", "A trade is filled completely, or refused; partial fills take what there is",
     "A trade that the eligible orders can absorb is matched for exactly the requested amount, and one that exceeds their liquidity is refused, unless partial "
     "fulfilment was requested, in which case it is matched for all the available liquidity (with alpha matching restricted to fewer orders than are eligible: for at most the requested amount). "
     "No order ever sells more than its balance.",
     ["inputs", "histories"], "All books and amounts, including amounts at and just beyond the liquidity, for all matching methods.",
     TESTS + "they try one or two oversized amounts for single books.",
     SIMF, [("liquidity checks", "carbon/routers/*.py"), ("support_partial", SIM + ":_trade")], observe=["trades in the result", "success"])

prop("C05", "Exact matching finds the optimal split",
     "With exact matching, the split of a trade over the eligible orders is the one that gives the trader the best possible total: all orders used end at one common marginal "
     "price, and no unused (or not emptied) order offers a better one. No other distribution of the same amount gives the trader more, or costs less.",
     ["inputs", "histories"], "All sets of orders, overlapping or disjoint, flat or ranged, any balances; by source and by target.",
     TESTS + "optimality is not asserted at all; expected numbers are pinned for a few books.",
     ["carbon/routers/exact_router_x0y0n.py", "carbon/routers/exact_base_router.py", "carbon/routers/base_router.py"],
     [("goal seek over the common marginal price", "carbon/routers/exact_base_router.py")], observe=["trades in the result"])

prop("C06", "Fast matching takes the best-priced orders greedily",
     "With fast matching, orders are used in the order of the rate each offers for the whole requested amount (as far as its liquidity goes), best first; each order used but the last "
     "is taken to the full extent of its offer, and no order is skipped that offers a better rate than the last one used.",
     ["inputs", "histories"], "All books and amounts, by source and by target.",
     TESTS + "the ranking is tested for a handful of amounts on one book.",
     ["carbon/routers/fast_router.py"], [("ranking and filling", "carbon/routers/fast_router.py:match")], observe=["trades in the result"])

prop("C07", "Alpha matching is optimal within its threshold number of orders",
     "With alpha matching a trade uses at most the threshold number of orders and splits the amount optimally over the orders used: none of them is left with a better marginal price than another one "
     "was pushed to. If there are no more eligible orders than the threshold, the result is that of exact matching, and a trade that the best-stocked threshold orders can absorb is not refused.",
     ["inputs", "histories"], "All books, amounts and thresholds; by source and by target; with and without partial fulfilment.",
     TESTS + "two books with pinned results.",
     ["carbon/routers/alpha_router.py", "carbon/routers/exact_base_router.py"], [("selection of the orders", "carbon/routers/alpha_router.py:gen_one_order_selector")],
     observe=["trades in the result"])

prop("C08", "Refused calls and quotes change nothing, and quotes are honoured",
     "A refused trade or strategy creation, a quote (execution not requested or prevented by a limit) and every report leave the order book exactly as it was; refused calls leave no trace in the trade log either, and report an error (or raise it, if so configured). "
     "Executing a trade right after quoting it gives exactly the amounts and prices of the quote.",
     ["histories", "inputs"], "All histories and all arguments, valid or not, for all matching methods.",
     TESTS + "hardly any test checks the state after a refused call.",
     SIMF, [("execute flag", SIM + ":_trade"), ("validation before creation", SIM + ":add_strategy")], observe=["state()"])

prop("C09", "Limits are honoured exactly",
     "A trade with a limit price or limit amount is executed if and only if its average price is at the limit or better for the trader; otherwise it is only quoted and marked as failed on its limit. "
     "A limit amount means the same as the limit price it implies for the requested amount, and giving both is refused.",
     ["inputs", "histories"], "Both tokens of the pair, both quotations of the pair, both directions, by source and by target, all matching methods.",
     TESTS + "limits are tested for one pair at two prices.",
     [SIM, "carbon/pair.py"], [("limit check", SIM + ":_trade"), ("limit_is_met", "carbon/pair.py")], observe=["limitfail and exec columns", "state()"])

prop("C10", "Trades only touch eligible orders",
     "A trade is routed only through orders that sell the wanted token of exactly the given pair (whichever way round it is quoted), are enabled, have a positive balance and, if positions were selected, are among them. "
     "If there is none, or the token is not in the pair, the trade is refused.",
     ["inputs", "histories"], "All books mixing pairs, quotations, disabled and empty orders, all selections of positions, pairs whose names coincide when concatenated.",
     TESTS + "selection of positions is tested on two books with one pair.",
     [SIM], [("choice of the applicable orders", SIM + ":_trade")], observe=["routeix of the trades"])

prop("C11", "The trade log records every trade faithfully and only ever grows",
     "Every quote or trade appends one record per route and one aggregate record with the next consecutive id to the log, in the call's result and the log alike, and earlier records never change. "
     "The aggregate amounts are the sums over the routes, prices are those amounts' ratio in the pair's price convention, and tokens, routes, execution and limit flags are those of the trade.",
     ["histories", "inputs"], "All histories of quotes, trades, refusals and other calls.",
     TESTS + "individual columns are compared for single trades.",
     [SIM], [("log entries", SIM + ":_trade")], observe=["state()['trades']", "result of the trading calls"])

prop("C12", "Creating a strategy creates exactly the two linked orders described",
     "A valid strategy creates exactly two new orders with fresh ids that are linked to each other and carry the given tokens, balances, price ranges (in the price convention of the pair, start price first), capacities or "
     "marginal prices and external id; a side without prices is created disabled. Invalid arguments are refused without effect, and no other order changes.",
     ["inputs", "histories"], "All combinations of one- and two-sided strategies, price orders, capacities, marginal prices, pairs and quotations, valid or not.",
     TESTS + "only a few combinations are created.",
     [SIM, "carbon/order.py"], [("add_strategy, add_order", SIM)], observe=["orders in the result", "state()"])

prop("C13", "Deleting removes exactly one strategy",
     "Deleting an order or strategy by the id of either of its orders removes exactly the two orders linked to each other, reports their ids, and leaves all other orders and the log as they are; an unknown id removes nothing. "
     "Ids are not given out again, and what is left can be traded as before.",
     ["histories"], "All interleavings of creations, deletions and trades.",
     TESTS + "deletion is not tested on books with several strategies.",
     [SIM], [("delete_order, delete_strategy", SIM)], observe=["state()", "result"])

prop("C14", "Reports agree with the order book",
     "The order table, the liquidity summary, the per-pair view, the curve objects and the reported marginal prices all describe the same book: liquidity is the sum of balances by pair and token, "
     "the view of a pair shows exactly its orders, and marginal prices and curve objects belong to the current balances.",
     ["histories", "inputs"], "All books reached by any history.",
     TESTS + "reports are compared for single freshly created books.",
     [SIM, "carbon/carbon_order_ui.py"], [("state, liquidity", SIM)], observe=["state()", "liquidity()"])

UI = "carbon/carbon_order_ui.py"
prop("C15", "The curve functions of an order all describe one and the same curve",
     "For a curve object, the marginal and effective price of a trade, the amount received for an amount sold and conversely, the balance and the amount at which a price is reached, and the "
     "mapping between the x and y coordinates are all functions of one invariant curve (given by price range, capacity and balance), hence inverse to each other where they should be; with bounds checking, "
     "arguments outside the curve are refused (None, or an exception if asked for). Evaluating them changes nothing.",
     ["inputs"], "All curves (narrow, wide, flat, full, partly filled, empty, either token of either quotation) and all arguments inside and outside the range.",
     "Tests evaluate the functions for two curves at a few arguments.",
     [UI], [("curve functions", UI + ":p_marg_f ... yfromx_f")], observe=["return values"])

prop("C16", "Trading a curve object is exact, and pays exactly its linked curve",
     "Selling from, or buying into, a curve object moves its balance along the curve by exactly the reported amounts, with the reported old and new balance and marginal price; the balance stays within 0 and the capacity; "
     "the linked curve receives exactly what the trade brought in (its capacity grows if it must), and nothing else changes. Trades beyond balance or capacity, negative amounts when not allowed and quotes leave both curves unchanged.",
     ["histories", "inputs"], "All sequences of sales, purchases, price targets and top-ups on linked and single curves, executed or quoted.",
     "Tests trade one linked pair a few times and never check refused trades or quotes.",
     [UI], [("trading", UI + ":selly, buyx"), ("payment to the linked order", UI + ":addliqy")],
     state=[("y, yint", "balance and capacity", UI), ("linked", "the curve that receives the payment", UI)], observe=["result dict", "y, yint, p_marg of all curves"])

prop("C17", "Trading to a price reaches that price, or the end of the range",
     "Trading a curve object to a target price leaves it with that marginal price if the price lies between the present marginal price and the end of its range, empties it if the price is beyond the end, and "
     "does nothing if the present price is already at the target or past it; it never trades backwards and does not fail on flat, empty or disabled sides.",
     ["inputs", "histories"], "All curves, balances and target prices, in both price conventions.",
     "Tests trade one order to a handful of prices.",
     [UI], [("price targets", UI + ":tradeto, dyfromp_f")], observe=["result dict", "p_marg"])

prop("C18", "All parameterisations of a curve describe the same curve",
     "A curve built from prices, from the encoded parameters (B, S), from (Q, x intercept) or from an order of the simulator has the price range, capacity and balance it was given; the derived parameters (Q, Gamma, x0, y0, "
     "asymptotes, kappa, leverage, width, middle price), the equivalent constant product curve, the contract encoding and the liquidity within a price range agree with each other. Balances outside the capacity are refused.",
     ["inputs"], "All parameters, token decimals and quotations.",
     "Tests convert two curves.",
     [UI, "carbon/order.py"], [("constructors", UI + ":from_prices, from_Qxy, from_BSy, from_order"), ("derived parameters", UI)], observe=["attributes of the curve"])

PAIR = "carbon/pair.py"
prop("C19", "Pairs convert amounts, prices and limits consistently in either quotation",
     "A price is the number of quote tokens per base token. Converting an amount from one token of a pair to the other multiplies or divides by the price accordingly, a price quoted the other way round or in the other numeraire "
     "is inverted, and tokens that are not in the pair yield no result. A limit is met exactly if the current price is at the limit or better for the party concerned: the placer of the order, or the counterparty when reversed; buying one token is selling the other.",
     ["inputs"], "All pairs, tokens in and outside the pair, sides, reversals, prices below, at and above the limit.",
     "Tests check one pair at a few prices, and never a reversed limit.",
     [PAIR], [("conversion", PAIR + ":convert, price, convert_price"), ("limits", PAIR + ":limit_is_met")], observe=["return values"])

prop("C20", "However a pair is written, it is the same pair",
     "A pair built from a slash pair, from two tokens, from another pair, through create, from an iso name (with or without one of its tokens) or with decimals has exactly the given base and quote token in upper case, the original "
     "spelling where it is to be displayed, and exactly the given decimals (looked up in the table if asked for); names that are no pair, and contradictory arguments, are refused.",
     ["inputs"], "All spellings, tokens that are prefixes or suffixes of each other, decimals given or not, for all constructors.",
     "Tests build a few pairs from well-formed names.",
     [PAIR], [("constructors", PAIR + ":from_slashpair, from_isopair_and_tkn, create, __post_init__"), ("decimals", PAIR + ":set_decimals")], observe=["attributes of the pair"])

BT = "benchmark/core/trade/impl.py"
BM = "benchmark/core/match/impl.py"
prop("C21", "Fixed-width quotes never favour the trader and are as exact as the words allow",
     "The integer quote of an order for an amount sold to it is never more than the exact amount of its curve, and the quote for an amount bought from it never less. The quotes are the exact amounts rounded down (up) to a unit whenever "
     "the intermediate results fit the words, and within the stated bound of them otherwise; quotes that cannot be represented are 0 when selling and the greatest amount when buying. Quoting changes nothing.",
     ["inputs"], "All orders (rates 1e-18 to 1e18, liquidity up to 128 bits, flat and partly filled) and amounts up to 2^128-1.",
     "Tests compare a few recorded orders against the reference with a tolerance on either side, so that rounding in the trader's favour passes.",
     [BT], [("by source", BT + ":tradeBySourceAmountFunc"), ("by target", BT + ":tradeByTargetAmountFunc"), ("refusals", BT + ":tradeFunc")], observe=["return values"])

prop("C22", "Encoded orders and the reference describe the same curve",
     "Encoding an order keeps its liquidity, and its rates up to 48 significant bits, always rounding roots down; the encoded capacity is not less than the balance, equals it when the marginal rate is the highest, and puts the marginal rate where it was. "
     "Decoding returns exactly what the encoded order represents. Compact numbers are exact below 2^48, never round up, and encoding them again changes nothing. The reference implementation quotes the exact curve.",
     ["inputs"], "All orders and numbers within 110 bits, rates 1e-24 to 1e24.",
     "Tests never decode.",
     [BT, "benchmark/core/trade/spec.py"], [("encoding", BT + ":encodeOrder, encodeRate, encodeFloat"), ("decoding", BT + ":decodeOrder, decodeRate, decodeFloat"),
      ("reference", "benchmark/core/trade/spec.py:tradeBySourceAmountFunc, tradeByTargetAmountFunc")], observe=["return values"])

prop("C23", "Fast matching takes whole orders by quoted price until the amount is used up",
     "Fast matching uses every order at most once, each for what it was quoted (at most its balance), in the order of the quoted prices, all but the last completely; it skips no better usable order, never exceeds the amount, and stops "
     "only when the amount is used up or no order is left that can use the rest.",
     ["inputs"], "All lists of up to 5 orders (flat, narrow, wide, empty, partly filled, with ties) and amounts (0, dust, at and beyond the capacity), by source and by target.",
     "Tests match recorded lists and check sums of inputs only.",
     [BM], [("quotes", BM + ":rateBySourceAmount, rateByTargetAmount, sortedQuotes"), ("matching", BM + ":matchFast")], observe=["list of actions"])

prop("C24", "Best matching is the exact optimum up to rounding",
     "Best matching uses every order at most once, within its balance, at its own quote, never exceeds the amount and leaves nothing over that could be matched; the total bought (or paid) differs from that of the exact optimal allocation by no more than "
     "a few units per order and one part in 1e9.",
     ["inputs"], "All lists of up to 5 orders (flat, narrow, wide, empty, partly filled, with ties) and amounts (0, dust, at price levels, at and beyond the capacity), by source and by target.",
     "Tests only require the best matching not to be worse than the fast one on recorded lists.",
     [BM], [("levels", BM + ":getLimit, equalizeByTargetAmount, equalizeBySourceAmount"), ("matching", BM + ":matchBest")], observe=["list of actions"])

STR = "carbon/helpers/strategym.py"
SIMU = "carbon/helpers/simulation.py"
PINT = "carbon/helpers/pathinterpolation.py"
PGEN = "carbon/helpers/pathgenerator.py"
PDR = "carbon/helpers/pdread.py"
prop("C25", "A run along a price path trades every order to every price, exactly once",
     "Running strategies along a path starts from the strategies rescaled to the first (positive) spot price and the shift, and at every later price lets every order trade along its curve until its marginal price is the spot price or it is "
     "empty, its linked order receiving the proceeds. The reported amounts, marginal prices, portfolio values and hold values are those of this evolution, one per price; a move never makes the portfolio worth more at the new price than it was, "
     "amounts are never negative, and the strategies passed in are not changed. Strategies in different pairs are refused.",
     ["inputs", "histories"], "All portfolios of up to 3 strategies (disjoint, overlapping, flat, partly used, empty, not rescalable), paths of up to 14 prices including range edges, shifts, leading zeros.",
     "Tests run one or two example strategies and look at the plots.",
     [SIMU, "carbon/carbon_order_ui.py"], [("run", SIMU + ":run_sim"), ("trading to a price", "carbon/carbon_order_ui.py:tradeto")], observe=["simresults"])

prop("C26", "Strategies have exactly the ranges, prices and amounts they were described with",
     "A strategy made from middle, gap, widths and utilizations, from two ranges, from a Uniswap v3 position, from a scenario record or from start conditions has the ranges, marginal prices, capacities, amounts and tokens which these describe, "
     "refusing what makes no sense. Rescaling multiplies all prices by the ratio of the spot prices, once; setting the value fills in amounts only where none are given; both return new objects and leave the original alone. "
     "The arguments passed on to the simulator are those of the strategy.",
     ["inputs", "histories"], "All constructors, scalar and paired arguments, zero gaps and widths, utilizations 0 to 1 and beyond, fees, forced and repeated rescaling.",
     "Tests build a few strategies with non-zero arguments.",
     [STR, SIMU], [("constructors", STR + ":from_mgw, from_sb, from_u3, from_dct"), ("changes", STR + ":rescale_strat, set_tvl")], observe=["attributes", "dct"])

prop("C27", "Price series keep their points: interpolation, generation and reading",
     "Interpolating a series keeps every original point, in order, and divides every interval into equal steps of about the period (or leaves it alone if it is shorter); without volatility it is linear. Generated paths start at the spot price, "
     "are positive, have one value per date at equal intervals, and are named as asked. Reading a frame returns exactly the rows of the requested window, inverted and labelled as asked; contradictory arguments are refused. Estimated volatilities "
     "are the standard deviations of the (log) differences per root of a year.",
     ["inputs"], "All spacings relative to the period, windows by date, length or share, with or without earliest date; randomness is checked for what holds on every draw.",
     "Tests interpolate a regular series once.",
     [PINT, PGEN, PDR], [("interpolation", PINT + ":interpolate, interpolate_segment, gaussian_bridge, estimate_vol"), ("generation", PGEN + ":path, pathdf, _datetime_r"), ("reading", PDR + ":pdread")],
     observe=["returned series"])

CPC = "carbon/tools/cpc.py"
GRAPH = "carbon/tools/arbgraphs.py"
OPT = "carbon/tools/optimizer.py"
prop("C28", "A constant product curve has the invariant, bounds and prices described",
     "A curve made from invariant, amounts, price, price range, Uniswap v2 or v3 data or a Carbon order has the invariant, amounts and tokens these describe; what is incomplete or contradictory is refused. Its bounds are where one of the "
     "tokens has run out (or there are none), and price, price bounds, value and the primary direction of the pair follow. An inverted curve is the same curve with the tokens exchanged, in every attribute.",
     ["inputs"], "All constructors, full, bounded, one-sided and empty curves, both directions, fees, all tokens of the generator (with and without numeraires).",
     "Tests construct some curves and mostly compare a constructor with another one.",
     [CPC], [("constructors", CPC + ":ConstantProductCurve.from_kx, from_pkpp, from_univ2, from_univ3, from_carbon"), ("bounds", CPC + ":x_max, p_min, dx_max, at_boundary"),
             ("mirror", CPC + ":CPCInverter"), ("pairs", CPC + ":Pair")], observe=["attributes"])

prop("C29", "Trades with a curve keep its invariant and stay within its bounds",
     "Executing a trade, given in either token, on a curve or its mirror image, moves the curve along its invariant by exactly that amount and gives a new curve, or is refused because a token would run out; the old curve stays as it is. "
     "The functions of a curve (amounts from price, one amount from the other, changes from changes) are those of the invariant, clipped to the bounds (prices) or None (amounts) outside of them.",
     ["inputs", "histories"], "Sequences of trades and questions on all kinds of curves, inside, at and beyond the bounds, with bounds ignored.",
     "Tests execute single trades on full curves.",
     [CPC], [("trades", CPC + ":execute, _execute_dxdy"), ("functions", CPC + ":xyfromp_f, dxdyfromp_f, yfromx_f, xfromy_f, dyfromdx_f, dxfromdy_f")], observe=["curves", "return values"])

prop("C30", "A container returns exactly the curves, pairs and prices that are asked for",
     "A container keeps its curves in order, gives unnamed ones an id, and is returned unchanged by conversion to dicts or a data frame and back. Filters by pair, token or id and pair conditions return exactly the curves that satisfy them. "
     "The price of a pair is the mean in its primary direction, whichever way it is asked; price estimates weigh by liquidity and omit curves at a bound. Aggregates (tables, pivots, volumes) cover every curve once.",
     ["inputs", "histories"], "Containers of up to 10 curves of up to 8 tokens, built in all ways, all filters with combinations of conditions.",
     "Tests use one container and check numbers of results.",
     [CPC], [("filters", CPC + ":bypairs, bycids, bytknx, filter_pairs"), ("prices", CPC + ":price, price_estimate, price_estimates"), ("conversion", CPC + ":asdicts, from_df"),
             ("aggregates", CPC + ":pairs_analysis, tokentable, xystats")], observe=["return values"])

prop("C31", "Arbitrage finds the prices at which only the target token is left over",
     "On connected markets of unbounded curves with comparable prices the marginal price optimizer converges. Whenever it reports success the trades are those of all curves moving to the reported prices, the net flow of every token but the target is zero, and the "
     "target token gained is the most that any set of trades could give (by weak duality). If the prices cannot balance the flows it reports an error. The simple optimizer does the same for one pair. The adjusted curves are the old ones after their trades.",
     ["inputs", "histories"], "Markets of 2 to 4 tokens and up to 7 curves: full, levered, Carbon orders; repeated arbitrage on its own result; given or estimated starting prices; few iterations.",
     "Tests check a handful of markets with two or three curves against stored numbers.",
     [OPT, CPC], [("Newton", OPT + ":margp_optimizer"), ("one pair", OPT + ":simple_optimizer, goalseek"), ("new curves", OPT + ":adjust_curves")], observe=["results", "curves_new"])

prop("C32", "Instructions restate the trades; the convex optimizer stays feasible",
     "The instructions of a result are one per curve that trades, in its tokens, with the amount going in positive and the amount coming out negative, and their totals per token are the sums; rounding never makes them fail. The convex optimizer, "
     "to the precision of its solver, leaves no token but the target over, keeps every curve on or above its invariant and within its bounds, and gains as much as the prices of the marginal price optimizer allow.",
     ["inputs", "histories"], "The results of both optimizers on the markets of C31, including those with nothing to trade and tokens in huge amounts.",
     "Tests look at instructions of one result.",
     [OPT], [("instructions", OPT + ":TradeInstruction.new, to_format, to_df"), ("convex", OPT + ":convex_optimizer, nofees_optimizer")], observe=["instructions", "results"])

prop("C33", "A graph holds exactly the tokens and offers put into it",
     "A graph has one node per token and one edge per offer, in the order they were added, found by name, index or filter; amount and connection edges are never mixed, and what does not fit is refused. Edges made from signed amounts, prices in either "
     "convention, curves or the trades of an arbitrage offer the same exchange. Edges add up, scale and reverse as the exchanges they stand for; copies are equal and independent; matrices, tables and the "
     "networkx graph show the same graph; cycles and amounts are iterated, compared and added up by their definition.",
     ["inputs", "histories"], "Sequences of additions of all kinds with questions in between, up to 5 tokens, amounts over six orders of magnitude, edges both ways and several of the same pair.",
     "Tests build a few graphs and compare some attributes.",
     [GRAPH], [("construction", GRAPH + ":add_edge, add_edge_dxdy, add_edge_connectiontype, add_edges_cpc, from_ccdxdy"), ("algebra", GRAPH + ":Edge, Amount, Cycle"),
               ("copies", GRAPH + ":duplicate"), ("views", GRAPH + ":filter_edges, as_graph, Laplacian, degree, edgedf")], observe=["return values", "nodes and edges"])

prop("C34", "Transports through a graph use capacity and balances exactly, or change nothing",
     "Transporting an amount through an edge yields its pro rata output; recorded, it takes the amount from what the edge has left and from the balance of the one node, and adds the output to that of the other. Through several edges the "
     "amount is split in proportion to what they have left, all of it or nothing. A transport that exceeds the offer, what is left of it, or the balance is refused without any trace, unless errors are switched off. "
     "Capacity and statistics always show the sums over the edges as they are now, history lists every balance, and a reset restores the start.",
     ["inputs", "histories"], "Sequences of funding, transports (edges and routes, quoted and recorded, as numbers and Amounts, within and beyond what is left), resets and questions.",
     "Tests record three transports in one graph.",
     [GRAPH], [("edges", GRAPH + ":Edge.transport"), ("routes", GRAPH + ":ArbGraph.transport"), ("statistics", GRAPH + ":edge_statistics, node_statistics, has_capacity")],
     observe=["balances", "remaining capacity", "return values"])

prop("C35", "Cycles of a graph are complete, and running one yields the most that goes round",
     "The cycles of a graph are all its simple cycles, each once. Running a cycle from one of its tokens puts in the most that all its legs can carry and reports what comes out, the profit and the returns, for a single cycle or all of them in every format; it uses "
     "nothing up. The price of one token in another is the product, along a shortest path, of the mean prices of its steps; paths, price tables and refusals when there is no path agree with it.",
     ["inputs", "histories"], "Graphs of up to 5 tokens with several edges per pair; every cycle, every start token, all formats; prices of all pairs of connection graphs.",
     "Tests run cycles of two graphs and compare with stored numbers.",
     [GRAPH], [("cycles", GRAPH + ":cycles, is_weakly_connected"), ("runs", GRAPH + ":run_arbitrage_cycle, run_arbitrage_cycles"), ("prices", GRAPH + ":ptransport, price, pricetable, shortest_path")],
     observe=["return values"])

FI, SV, PA, TS, U3, SPR, VER, FLS = ("carbon/helpers/floatint.py", "carbon/helpers/sharedvar.py", "carbon/tools/params.py", "carbon/tools/tokenscale.py",
    "carbon/tools/univ3calc.py", "carbon/tools/simplepair.py", "carbon/helpers/version.py", "carbon/helpers/fls.py")

prop("C36", "Packed floats round down to 40 significant bits, never more",
     "A natural number packed into the contracts' floating point format has a significant of at most 40 bits and the least exponent that allows it; its value never exceeds the number and is off by less "
     "than one unit in the last place, so packing is idempotent. Numbers that do not fit, and negative ones, are refused; the largest and smallest representable numbers and the conversions to int, hex and float agree with it.",
     ["inputs"], "All naturals up to 2^360 (random, next to powers of two, full mantissas), floats with units from 2^32 to 2^128.",
     "Tests pack some dozen small numbers and powers of two below 2^53.",
     [FI], [("packing", FI + ":from_int, from_float, bindig"), ("values", FI + ":asint, asfloat, max, min")], observe=["return values", "refusals"])

prop("C37", "Shared variables behave as numbers, with changes seen through every alias",
     "An arithmetic operation on shared variables yields a new variable with the value the numbers would give and changes none of its operands; an in-place operation and setval change exactly the one object, as seen by "
     "all its aliases and by nobody else, whatever the history of operations that led to it. Comparisons and conversions are those of the numbers, and an operation the numbers refuse changes nothing.",
     ["inputs", "histories"], "All histories of creating, aliasing, rebinding, binary, reflected, in-place and unary operations on ints and floats over several variables.",
     "Tests apply each operator once to fresh variables; aliasing after a sequence of mixed operations is not sampled.",
     [SV], [("operators", SV)], state=[("heap", "the numbers, by identity of their object", SV)], observe=["values and identities of all variables"])

prop("C38", "Parameter objects keep values over defaults, and are independent copies",
     "A parameter is looked up among the values, then among the defaults; missing items are None by index and an error by attribute. Values are set once unless updating is asked for; refused changes change nothing. "
     "Defaults set later override earlier ones, a replica keeps the values and defaults of its original but shares neither, and the representation builds an equal object. Token scales return the scale set last, and the default for tokens without.",
     ["inputs", "histories"], "All histories of constructing, replicating, setting, defaulting and reading several objects.",
     "Tests set and read one object.", [PA, TS], [("lookup", PA + ":__getitem__, __getattr__, get_default"), ("replication", PA + ":construct"), ("scales", TS)],
     state=[("objects", "values and defaults of each object", PA)], observe=["return values", "contents of all objects"])

prop("C39", "Uniswap v3 positions: prices, range and reserves are consistent",
     "From square root price, tick, liquidity, fee tier and decimals follow the price in both directions, the range of the tick (a multiple of the fee tier's spacing), the liquidity in token units, and the reserves: "
     "what the position pays out of each token until the price leaves the range. Its value is the sum of the reserves at the price, in either token, and the curve made from its parameters has that price, range, invariant and holdings.",
     ["inputs"], "Positions at ticks from -350,000 to 300,000, on and next to tick boundaries, all fee tiers and several decimals, liquidity over 20 orders of magnitude.",
     "Tests compare one or two USDC/WETH pools with stored numbers.",
     [U3, "carbon/tools/cpc.py"], [("prices and range", U3 + ":papb, p, tickab"), ("reserves", U3 + ":tkn0reserve, tkn1reserve, tvl"), ("curve", U3 + ":cpc_params; carbon/tools/cpc.py:from_univ3")], observe=["return values"])

prop("C40", "Pairs are quoted in their main numeraire; version requirements are ordered",
     "Of the two ways to quote a pair, exactly one is primary: the one whose quote token is the stronger numeraire, or the later in the alphabet if neither or both are; prices convert between them by inversion. A pair reads the same from a string, "
     "two tokens, or another pair. A version meets a requirement iff it is not smaller, component by component, whatever suffix either has.",
     ["inputs"], "All pairs of 18 token names with and without suffixes in all notations; versions of up to 5 components.",
     "Tests look at a handful of pairs and versions.", [SPR, VER], [("primary", SPR + ":isprimary, primary_price"), ("versions", VER + ":_require_version, split_version_str")], observe=["return values"])

prop("C41", "Files saved load back what was saved last, in every format",
     "Loading a file returns exactly what was saved to that name last in the same format (text, json, binary, compressed, wrapped), in the given directory or the current one; names never saved are refused, and the listing "
     "shows exactly the names saved, in order, without the extension if one is asked for.",
     ["histories", "inputs"], "All histories of saving, loading and listing files over several names, extensions and formats.",
     "Tests save one file and load it back.", [FLS, "carbon/helpers/helpers.py"], [("save and load", FLS + ":fsave, fload"), ("listing", "carbon/helpers/helpers.py:listdir")],
     state=[("files", "name to format and content", FLS)], observe=["return values"])

SB, S0, SK, ST = "carbon/sdk/sdkbase.py", "carbon/sdk/carbonsdk0.py", "carbon/sdk/carbonsdk.py", "carbon/sdk/sdktoken.py"
prop("C42", "The SDK client asks what it is told to and reports jobs and faults faithfully",
     "Every call sends exactly one request: to the url and api base of the client, with its token, to the synchronous or asynchronous endpoint asked for (the client's default otherwise), with every parameter as given. "
     "An asynchronous call yields the id of a job; asking for its result yields True while it is pending and what the server computed once it is done, whatever was asked in between; an unknown id, a refusal, an "
     "answer that is not json or a server that is down is reported the way the client was configured to (an error or False), never as a result; answers of questions are converted (numbers, tokens, balances) without changing them.",
     ["histories", "inputs", "configurations", "fault_sequences"], "All configurations of a client, all its calls and questions with any parameters, all interleavings with the server finishing jobs, and faults of the server at any point.",
     "No test calls the client: it needs a server, which the tests do not have.",
     [SB, S0], [("requests", SB + ":req0, req, call"), ("jobs", S0 + ":result"), ("questions", S0 + ":_checkresult, pairs, getERC20Balance and others")],
     state=[("jobs", "job id to pending or done", "the server (a stand-in below the HTTP library)"), ("client", "url, api base, token, default, raiseonerror, tokens", SB + ":SDKBase.__init__")],
     observe=["requests on the wire", "return values", "exceptions"])
prop("C43", "The market of a pair is shown in the pair's own price convention",
     "Liquidity, depth, range and overview of a market equal what the server offers for that direction, converted to quote per base: what the AMM sells decides the direction asked for, ask is where it sells base, rates of "
     "that side are inverted, start is the best and end the worst price, depth is asked for at the given price and is None where there is none; mid, spread, units, sides and points in between follow from them.",
     ["inputs"], "All offers between five tokens, all pairs in both orders, both sides, rates from 1/30000 to 30000.",
     "No test reaches these functions: they need a server.",
     [SK], [("liquidity", SK + ":mGetLiquidityByPair, mGetRateLiquidityDepthByPair, mHasLiquidityByPairs"), ("prices", SK + ":mGetRangeByPair, mGetMarketByPair, MarketByPair")],
     observe=["requests on the wire", "return values"])
prop("C44", "Strategies and trades of the SDK go out and come back as they are",
     "Creating a strategy sends its ranges, the lower price first, and budgets for the tokens of the pair, and refuses a sell range that starts below the buy range. Preparing a trade asks for the direction and the side that is "
     "fixed as the trader means it (buy: target, sell: source), decodes the answer without loss and, composed, limits what it may cost or yield by the deviation allowed. Strategies of a user come back with their tokens, ids beyond "
     "64 bits and orders unchanged, the prices rounded as asked; impossible trades are refused before anything is sent.",
     ["inputs"], "All pairs of five tokens, ranges in any order, both kinds of trade, deviations, deadlines, ids up to 2^128, roundings from 0 to 9 digits.",
     "No test reaches these functions: they need a server.",
     [SK, S0], [("create", SK + ":mCreateStrategy"), ("trade", SK + ":mPrepareTrade, mComposeTradeTransaction"), ("strategies", S0 + ":reformatStrategy; " + SK + ":Strategy, EncodedStrategy")],
     observe=["requests on the wire", "return values", "refusals"])
prop("C45", "Encoded orders decode to the curve they were made from",
     "The packed rates of an order decode to its prices within the resolution of the format (48 bits), never above; packing a natural number drops only its lowest bits; amounts survive exactly and the capacity implied by a marginal price "
     "is the one at which the curve has that price, so at most one of the two may be given. Full and empty orders have their start and end price as marginal price.",
     ["inputs"], "All naturals up to 2^180, prices from 10^-12 to 10^12, ranges down to a part in a million, marginal prices all over the range, amounts up to 10^29.",
     "Tests encode and decode a single order.",
     [SK], [("encode", SK + ":EncodedOrder.encode, encodeRate, encodeFloat"), ("decode", SK + ":EncodedOrder.decode, p_start, p_end, p_marg")], observe=["return values", "refusals"])
prop("C46", "A token container finds each of its tokens by ticker and address, and no others",
     "A container holds the tokens it was made of, in order; ambiguous tickers or addresses are refused. Lookup by ticker or address, in any case, finds the token or fails the way asked for (error, null token or None; the container's default "
     "otherwise); addresses it does not know stay addresses; amounts in wei and tokens convert by the decimals of the token.",
     ["inputs", "histories"], "All containers of up to five tokens with and without duplicates, made in three ways, all lookups with all ways of failing.",
     "Tests look up a few tokens of the built-in list.",
     [ST], [("container", ST + ":TokenContainer.__init__, fromlist, fromcsv"), ("lookup", ST + ":byticker, byaddr, byaddr1, restore"), ("amounts", ST + ":SDKToken.t2w, w2t")],
     state=[("tokens", "sequence of token records", ST + ":TokenContainer._byticker, _byaddr")], observe=["return values", "refusals"])
prop("C47", "Strategies read from the contracts become the same strategies in the simulator",
     "A strategy from the SDK becomes two linked orders whose ranges are those of the strategy (rounded as asked), capacities its budgets and fill the share the encoded order has left, whichever way round the encoded orders are and however "
     "the numbers are given; strategies whose tokens do not match their encoding are refused.",
     ["inputs"], "All pairs of tokens, known or not, both orders of encoding, numbers as big numbers or ints, empty orders, roundings from 0 to 11 digits.",
     "One test reads one strategy.",
     ["carbon/carbon_order_ui.py", "carbon/simulators/carbon_simulator.py"], [("read", "carbon/carbon_order_ui.py:from_SDK"), ("add", "carbon/simulators/carbon_simulator.py:add_fromsdk")],
     observe=["return values", "state of the simulator", "refusals"])

AN = "carbon/simulators/sim_analytics.py"
prop("C48", "The numerical order book is the one its table of trades implies",
     "Prices, marginal prices, price steps, midpoints and liquidity are those of the table of sizes and amounts, element by element: liquidity times price step is the amount traded at that price, steps count away from the market on either "
     "side of the book. Amounts that are absent at the end are cut off and absent amounts elsewhere stay absent, so that no size is paired with the amount of another. Charts and data frames show exactly these series with their units.",
     ["inputs"], "All tables of up to twelve increasing sizes and amounts in any form (list, vector, array, None or NaN), with absent amounts at the end and in between, of either side; and tables of the quotes of a simulator.",
     "Tests check the shape of one book.",
     [AN], [("vectors", AN + ":midpoints, diff, truncate, linspace0, vecdot"), ("book", AN + ":OrderBook.prices, marg_prices, dmarg_prices, ob_liquidity, ob_prices"), ("charts", AN + ":OrderBook.data_price_chart, plot_orderbook_chart")],
     observe=["return values", "lines of the plots"])
prop("C49", "The analytics quote what the simulator given would trade, and change nothing",
     "The amount or price the analytics report for a size, side, token and pair is what the given simulator (or else the analytics' own) would trade it at: the best there is. It is absent, or the price the worst possible, exactly for "
     "sizes beyond the liquidity. Quoting leaves the book as it was, whatever simulator the analytics has of its own; missing simulators, pairs and unknown sides are refused.",
     ["histories", "inputs", "configurations"], "All books of up to ten orders, sizes around their capacity and price levels, both sides and tokens, own, passed or no simulator, default or explicit pair.",
     "Tests quote a few sizes on one book with the default simulator.",
     [AN, "carbon/simulators/carbon_simulator.py"], [("quote", AN + ":Analytics.simulate_trades, effective_price"), ("match", "carbon/simulators/carbon_simulator.py:amm_sells, amm_buys")],
     state=[("book", "order id to curve", "carbon/simulators/carbon_simulator.py:orders")], observe=["return values", "state of the simulator", "refusals"])
prop("C50", "The approximate order book spreads every order over its own price range",
     "Per price bucket, the approximate liquidity of a side is the sum over the orders of that pair selling that token of the part of their balance whose range lies in the bucket, in the token asked for, divided by the width of the bucket; "
     "so orders of other pairs and disabled orders count for nothing, nothing is counted twice, and over all prices it adds up to the balances. Empty buckets are absent if asked for.",
     ["inputs", "histories"], "All books of the simulator's orders, bucket boundaries anywhere around the market, both numeraires, pairs in either direction.",
     "Tests compute one order book of one pair.",
     [AN, "carbon/carbon_order_ui.py"], [("sum", AN + ":calc_liquidity_approx"), ("share", "carbon/carbon_order_ui.py:liquidity_approx")], observe=["return values", "lines of the plot"])

CC = "carbon/helpers/cryptocompare.py"
prop("C51", "Cached market data are what the server said, and need no server",
     "An item that is in the cache is returned as stored without a request. An item that is not is asked for exactly once if so told, and stored exactly if an update is asked for; a failure of the server or the disk is reported the "
     "way the client is configured to (an error or None) and never stored. Every request goes to the endpoint of its item with the parameters that have a value and the key of the client.",
     ["histories", "fault_sequences", "configurations"], "All histories of cached and direct queries, reads and writes of the cache, with server and disk failing at any point, for all keys and both ways of reporting failures.",
     "No test reaches the client: it needs a server.",
     [CC], [("cached access", CC + ":_cache_xxx, cache_coinlist"), ("cache", CC + ":cache, write_cache"), ("requests", CC + ":query")],
     state=[("cache", "item to content", CC + ":DATAPATH")], observe=["requests on the wire", "return values", "files"])
prop("C52", "Tables of market data hold what was asked for and served, under the right names",
     "A query for a pair asks for the frequency, symbols, exchange, number of points and time given (defaults otherwise; dates as Unix time) and yields the prices served at their times. Tables over several pairs ask for each pair once and "
     "hold exactly the columns asked for, each with the data of its own pair and field. Pairs made of coins are all combinations of different ones.",
     ["inputs", "fault_sequences"], "All frequencies, ways of calling, dates from 1971 to 2035, sets of five pairs, sets of fields and kinds of tables, failing servers; all lists of up to four coins.",
     "No test reaches these functions: they need a server.",
     [CC], [("history", CC + ":query_freqlypair"), ("tables", CC + ":aggr_query, reformat_raw_df"), ("time", CC + ":ts_tocc, ts_fromcc"), ("pairs", CC + ":create_pairs, pt_from_pair")], observe=["requests on the wire", "return values"])
FORM = "carbon/helpers/widgets.py"
SOL = "carbon/helpers/soltest.py"
prop("C53", "Form controls report exactly what the user chose",
     "After any sequence of a user's changes, a group of checkboxes, percentage sliders or a dropdown reports for each of its items exactly the value shown for it, under the item's own id and object, and changing one item changes no other. "
     "Groups are made with the values, ranges, labels and disabled flags given (per item or for all) and arguments that do not fit the items, contradict each other or are out of range are refused.",
     ["inputs", "histories"], "All sequences of changes to three coexisting groups of up to five items made in all documented ways, with boundary values of the sliders.",
     "The tests build a few groups; none checks sequences of changes, several groups, or combinations of arguments.",
     [FORM], [("checkboxes", FORM + ":CheckboxManager"), ("sliders", FORM + ":PcSliderManager"), ("dropdown", FORM + ":DropdownManager")],
     state=[("controls", "three groups", FORM)], observe=["values, ids and objects reported", "widgets shown", "exceptions"])
prop("C54", "The range guard of contract arithmetic classifies every number",
     "Every number given to the guard has one level: an overflow error below zero and from 2^256, an underflow error below 100, warnings below 10000 and from about 2^256/10000, and otherwise none. "
     "It is printed with its label and its exact number of binary digits from the level asked for, raised as the matching exception from the level asked for, and otherwise returned unchanged (zero if negative).",
     ["inputs"], "All levels of printing and raising and all numbers around thresholds and powers of two, up to 2^300.",
     "The tests try some numbers at one combination of levels; the bit counts and most thresholds and combinations are open.",
     [SOL], [("guard", SOL + ":SolTestBase.check_uint256"), ("levels", SOL + ":SolTestBase.raise_f, print_f")], observe=["returned number", "printed messages", "exceptions", "logged events"])
ORD = "carbon/order.py"
BR = "carbon/routers/base_router.py"
prop("C55", "An order is one and the same curve in whatever way it is described",
     "An order described by the roots of its range or by its prices (in either order), with its capacity given, under either name, implied by a marginal price or left out (then it is full), in any numeric type, is the same curve: "
     "the same range, capacity and balance. At every balance its shape (concentration, mean price, reference point, invariant) and the amount it has received satisfy the curve's hyperbola. "
     "A description without balance or range is refused.",
     ["inputs", "histories"], "All combinations of ways to describe an order (roots, prices, both, reversed; capacity, marginal price, neither) over curves from fixed price to very wide, at all balances, which change.",
     "The tests construct orders in one or two ways with friendly numbers, and do not compare them.",
     [ORD], [("ways to describe", ORD + ":Order.__post_init__"), ("shape and position", ORD + ":Order.n, p, x0, y0, k, a, x")], observe=["fields and properties of the order", "exceptions"])
prop("C56", "A book of orders read from a file is, and routes as, what the file says",
     "A json file (a list or a dict of records, numbers written as numbers or strings, other fields ignored) is read as exactly its first orders, up to the number asked for (ten if none is); a csv file of price ranges and capacities as all of its orders, full. "
     "The summary that comes with the orders shows the same ranges and capacities. "
     "An amount routed through such a book, by source or by target, with or without a limit on the number of orders, is the sum of its parts, each of which lies on the curve of its own order and does not exceed its balance, and running totals add up.",
     ["inputs"], "All files of up to thirteen orders in both formats and all forms, all limits; both routers, both directions, amounts up to nearly everything.",
     "No test reads a file or calls a router without a simulator.",
     [BR, "carbon/routers/alpha_router.py", "carbon/routers/fast_router.py"],
     [("reading", BR + ":BaseRouter.make_orders_from_file, from_json, from_csv"), ("routing", "carbon/routers/alpha_router.py:match_by_src, match_by_target"), ("fast routing", "carbon/routers/fast_router.py:match")],
     observe=["orders returned", "actions returned", "exceptions"])
