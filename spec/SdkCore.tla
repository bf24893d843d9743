------------------------------ MODULE SdkCore ------------------------------
(***************************************************************************)
(* The client of the SDK server.                                           *)
(*                                                                         *)
(*  - the protocol: which request a call sends, what it makes of the       *)
(*    answer, and the life of an asynchronous job                          *)
(*  - the market as seen in the price convention of a pair                 *)
(*  - orders as encoded by the contracts                                   *)
(*  - a container of tokens, looked up by ticker and by address            *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC

None == "None"
Two(n) == RPow("2", n)
Ten(n) == IF n >= 0 THEN RPow("10", n) ELSE RDiv("1", RPow("10", -n))
Range(s) == {s[i] : i \in DOMAIN s}
EmptyF == [k \in {} |-> "0"]
Near(a, b) == RIsNum(a) /\ RNear(a, b, "1/1000000000000", "0")

(* ------------------------------ tokens ----------------------------------*)
Tk == << [t |-> "ETH", a |-> "0xeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeeee", d |-> 18],
         [t |-> "USDC", a |-> "0xa0b86991c6218b36c1d19d4a2e9eb0ce3606eb48", d |-> 6],
         [t |-> "WBTC", a |-> "0x2260fac5e5542a773aa44fbcfedf7c193bc2c599", d |-> 8],
         [t |-> "LINK", a |-> "0x514910771af9ca656af840dff83e8264ecf986ca", d |-> 18],
         [t |-> "FOO", a |-> "0x00000000000000000000000000000000000f0000", d |-> 2] >>
Adr(i) == Tk[i].a
Tic(i) == Tk[i].t
ByAdr(a) == IF \E i \in DOMAIN Tk : Adr(i) = a THEN Tic(CHOOSE i \in DOMAIN Tk : Adr(i) = a) ELSE a

(* ------------------------------ the protocol ----------------------------*)
\* parameters of a request, flattened: path -> <<kind, value>>
SV(x) == <<"s", x>>          \* a text
NV(x) == <<"n", RCanon(x)>>  \* a number written as text
IV(x) == <<"i", RCanon(x)>>  \* a number
BV(b) == <<"b", IF b THEN "T" ELSE "F">>
Nil == <<"0", "">>
NoItems == <<"[]", "">>
NoFields == <<"{}", "">>
Gas(o) == "overrides/gasLimit" :> IV(IF o.opt = 3 THEN "5" ELSE "999999999")
Src(o) == ("sourceToken" :> SV(Adr(o.s))) @@ ("targetToken" :> SV(Adr(o.t)))
Actions(o) == IF o.opt = 1 THEN ("tradeActions" :> NoItems) ELSE ("tradeActions/0/id" :> NV("3")) @@ ("tradeActions/0/amount" :> NV(ToString(o.k))) @@ ("tradeActions/0/f" :> IV("3/2"))
Update(o) == LET a == IF o.opt \in {2, 4} THEN "update/buyPriceLow" :> NV(o.x) ELSE EmptyF
                 b == IF o.opt \in {3, 4} THEN "update/sellBudget" :> NV(o.y) ELSE EmptyF
             IN IF o.opt = 1 THEN "update" :> NoFields ELSE a @@ b

Async == {"mul", "plus", "qmul", "qplus", "getMatchActions", "getMatchParams", "getTradeDataFromActions", "updateStrategy"}
Name(fn) == CASE fn = "getMatchActions" -> "get_match_actions" [] fn = "getMatchParams" -> "get_match_params" [] fn = "getTradeDataFromActions" -> "get_trade_data_from_actions"
  [] fn = "updateStrategy" -> "update_strategy" [] fn = "hasLiquidityByPair" -> "has_liquidity_by_pair" [] fn = "getLiquidityByPair" -> "get_liquidity_by_pair"
  [] fn = "getMinRateByPair" -> "get_min_rate_by_pair" [] fn = "getMaxRateByPair" -> "get_max_rate_by_pair" [] fn = "getRateLiquidityDepthByPair" -> "get_rate_liquidity_depth_by_pair"
  [] fn = "getUserStrategies" -> "get_user_strategies" [] fn = "getTradeData" -> "get_trade_data" [] fn = "composeTradeByTargetTransaction" -> "compose_trade_by_target_transaction"
  [] fn = "composeTradeBySourceTransaction" -> "compose_trade_by_source_transaction" [] fn = "createBuySellStrategy" -> "create_buy_sell_strategy" [] fn = "deleteStrategy" -> "delete_strategy"
  [] OTHER -> fn
Params(o) ==
  CASE o.fn \in {"mul", "plus", "qmul", "qplus"} -> ("a" :> IV(o.x)) @@ ("b" :> IV(o.y))
    [] o.fn = "getMatchActions" -> ("amountWei" :> NV(o.x)) @@ ("tradeByTargetAmount" :> BV(o.flag))
                                   @@ (IF o.opt = 1 THEN "orders" :> NoItems ELSE ("orders/0/A" :> IV("5")) @@ ("orders/0/z" :> NV("7")))
    [] o.fn = "getMatchParams" -> Src(o) @@ ("amount" :> NV(o.x)) @@ ("tradeByTargetAmount" :> BV(o.flag))
    [] o.fn = "getTradeDataFromActions" -> Src(o) @@ ("tradeByTargetAmount" :> BV(o.flag))
         @@ (IF o.opt = 1 THEN "actionsWei" :> NoItems ELSE ("actionsWei/0/id" :> NV("3")) @@ ("actionsWei/0/amount" :> NV(ToString(o.k))) @@ ("actionsWei/0/f" :> IV("3/2")))
    [] o.fn = "updateStrategy" -> ("strategyId" :> NV(ToString(o.k))) @@ ("encoded/y" :> NV("5")) @@ ("baseToken" :> SV(Adr(o.s))) @@ ("quoteToken" :> SV(Adr(o.t)))
         @@ Update(o) @@ ("buyMarginalPrice" :> IF o.flag THEN NV(o.z) ELSE Nil) @@ ("sellMarginalPrice" :> IF o.flag THEN Nil ELSE NV(o.z)) @@ Gas(o)
    [] o.fn = "hasLiquidityByPair" -> IF o.opt = 3 THEN ("pairList/0/sourceToken" :> SV(Adr(o.s))) @@ ("pairList/0/targetToken" :> SV(Adr(o.t)))
                                                       @@ ("pairList/1/sourceToken" :> SV(Adr(o.t))) @@ ("pairList/1/targetToken" :> SV(Adr(o.s))) ELSE Src(o)
    [] o.fn \in {"getLiquidityByPair", "getMinRateByPair", "getMaxRateByPair"} -> Src(o)
    [] o.fn = "getRateLiquidityDepthByPair" -> Src(o) @@ (IF o.opt = 1 THEN "rate" :> NV(o.x) ELSE ("rate/0" :> NV(o.x)) @@ ("rate/1" :> NV(o.y)))
    [] o.fn = "getUserStrategies" -> "user" :> SV("0xabc")
    [] o.fn = "getTradeData" -> Src(o) @@ ("amount" :> NV(o.x)) @@ ("tradeByTargetAmount" :> BV(o.flag)) @@ (IF o.opt = 1 THEN "filter" :> NoItems ELSE "filter/0" :> IV("1"))
    [] o.fn = "composeTradeByTargetTransaction" -> Src(o) @@ Actions(o) @@ ("deadline" :> NV(IF o.flag THEN "4294967295" ELSE ToString(o.k)))
         @@ ("maxInput" :> NV(IF o.opt = 2 THEN RSub(Two(128), "1") ELSE o.x)) @@ Gas(o)
    [] o.fn = "composeTradeBySourceTransaction" -> Src(o) @@ Actions(o) @@ ("deadline" :> NV(IF o.flag THEN "4294967295" ELSE ToString(o.k)))
         @@ ("minReturn" :> NV(IF o.opt = 2 THEN "1" ELSE o.x)) @@ Gas(o)
    [] o.fn = "createBuySellStrategy" -> ("baseToken" :> SV(Adr(o.s))) @@ ("quoteToken" :> SV(Adr(o.t))) @@ ("buyPriceLow" :> NV(o.x)) @@ ("buyPriceHigh" :> NV(o.y)) @@ ("buyBudget" :> NV(o.z))
         @@ ("sellPriceLow" :> NV(RAdd(o.x, "1"))) @@ ("sellPriceHigh" :> NV(RAdd(o.y, "2"))) @@ ("sellBudget" :> NV(RAdd(o.z, "3"))) @@ Gas(o)
    [] o.fn = "deleteStrategy" -> ("strategyId" :> NV(ToString(o.k))) @@ Gas(o)
    [] o.fn \in {"balance", "decimals", "symbol"} -> ("tokens/0" :> SV(Adr(o.s))) @@ ("tokens/1" :> SV(Adr(o.t))) @@ (IF o.fn = "balance" THEN "address" :> SV("0xabc") ELSE EmptyF)
    [] o.fn = "signsubmittx" -> ("tx/to" :> SV("0x1")) @@ ("tx/value" :> IV(ToString(o.k))) @@ ("sign" :> BV(o.flag))
    [] OTHER -> "" :> NoFields
Same(got, want) == /\ DOMAIN got = DOMAIN want
                   /\ \A k \in DOMAIN want : got[k][1] = want[k][1] /\ (got[k][2] = want[k][2] \/ (want[k][1] \in {"n", "i"} /\ Near(got[k][2], want[k][2])))

\* a client: [url, token, base, sd, raise, tk]; IsSync: whether a call of it waits for the result
IsSync(c, o) == IF o.sync = "N" THEN c.sd ELSE o.sync = "T"
Path(c, o) == CASE o.fn \in {"balance", "decimals", "symbol"} -> "erc20/" \o (IF o.fn = "balance" THEN "balance_of" ELSE o.fn)
                [] o.fn \in {"addr", "signsubmittx"} -> o.fn
                [] OTHER -> (IF o.fn \in Async /\ ~IsSync(c, o) THEN "ascall/" ELSE "scall/") \o Name(o.fn)
Url(c, o) == IF o.fn = "version" THEN c.url \o "/" ELSE c.url \o "/" \o c.base \o "/" \o Path(c, o)
Method(o) == IF o.fn \in {"version", "addr"} THEN "get" ELSE "post"

\* the jobs of the server: a sequence of "pending" | "done"
NewJob(jobs) == Append(jobs, "pending")
Serve(jobs, k) == [jobs EXCEPT ![k] = "done"]
Answer(jobs, k) == IF k \notin DOMAIN jobs THEN "unknown" ELSE jobs[k]

(* ------------------------------ markets ---------------------------------*)
\* pair: [b, q] (tokens by number); mkt[s][t]: what is offered to those who bring s and want t: [has, liq, lo, hi] with rates in t per s
Other(p, t) == IF t = p.b THEN p.q ELSE p.b
Offer(mkt, p, sells) == mkt[Other(p, sells)][sells]
InPair(p, sells, r) == IF sells = p.q THEN r ELSE RDiv("1", r)      \* quote per base
Side(p, sells) == IF sells = p.b THEN "ask" ELSE "bid"
DepthAt(f, r) == IF RGt(r, f.hi) THEN None ELSE RMul(f.liq, r)       \* (any function of the rate would do)

(* ------------------------------ encoded orders --------------------------*)
ONE == Two(48)
BitsOver(v) == LET w == RFloor(RDiv(v, ONE)) IN IF REq(w, "0") THEN 0 ELSE RBits(w)
DropLow(v, n) == RMul(RFloor(RDiv(v, Two(n))), Two(n))
EncRate(p) == LET data == RFloor(RMul(RSqrt(p), ONE)) IN DropLow(data, BitsOver(data))
EncFloat(v) == RAdd(RFloor(RDiv(v, Two(BitsOver(v)))), RMul(ToString(BitsOver(v)), ONE))
DecFloat(e) == LET x == RFloor(RDiv(e, ONE)) IN RMul(RSub(e, RMul(x, ONE)), Two(RToInt(x)))
\* capacity of a curve from hi to lo that holds y at the marginal price m
CapacityAt(y, hi, lo, m) == RDiv(RMul(y, RSub(RSqrt(hi), RSqrt(lo))), RSub(RSqrt(m), RSqrt(lo)))

(* ------------------------------ rounding --------------------------------*)
RECURSIVE Mag(_)                \* floor of the decimal logarithm of x > 0
Mag(x) == IF RLt(x, "1/1000000000") THEN Mag(RMul(x, "1000000000")) - 9 ELSE IF RGe(x, "1000000000") THEN Mag(RDiv(x, "1000000000")) + 9
          ELSE IF RLt(x, "1") THEN Mag(RMul(x, "10")) - 1 ELSE IF RGe(x, "10") THEN Mag(RDiv(x, "10")) + 1 ELSE 0
\* r is x rounded to n significant digits (to n + 1 if x is that large)
Rounded(x, n, r) == IF RLe(x, "0") THEN REq(r, x)
                    ELSE LET m == Mag(x)  u == IF m <= n THEN Ten(m + 1 - n) ELSE Ten(m - n)
                         IN /\ RLe(RAbs(RSub(r, x)), RAdd(RMul(u, "5000000001/10000000000"), RMul(x, "1/1000000000000000")))
                            /\ RNear(RDiv(r, u), RFloor(RAdd(RDiv(r, u), "1/2")), "1/1000000000000", "1/1000000000")
=============================================================================
