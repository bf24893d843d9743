----------------------------- MODULE Trace_Sdk -----------------------------
(* Validates recorded uses of the SDK client against SdkCore. *)
EXTENDS SdkCore, Verdict

VARIABLES tid, l, s             \* s: [c: client, jobs, toks: tokens in the container, strict: whether it raises]
tvars == <<tid, l, s>>
Mkt == [a \in 1 .. 5 |-> [b \in 1 .. 5 |-> Traces[tid].mkt[(a - 1) * 5 + b]]]

(* ------------------------------ the protocol ----------------------------*)
Flat(got, want) == Same(got, want)
OneRequest(e, want, method, url, c) ==
  IF Len(e.reqs) # 1 THEN {"sdk-request-count"}
  ELSE LET q == e.reqs[1] IN Req(q.method = method /\ q.url = url, "sdk-request-url") \cup Req(q.tok = (IF c.token = "None" THEN "carbontoken" ELSE c.token), "sdk-request-token")
                             \cup Req(method = "get" \/ Same(q.params, want), "sdk-request-params")

Refused == {"refused", "500", "nodata"}
JobTxt(k) == ("job" :> NV(ToString(k))) @@ ("value" :> IV("42"))
JudgeCall(e) ==
  LET c == s.c IN
  OneRequest(e, Params(e), "post", Url(c, e), c) \cup
  IF IsSync(c, e) THEN Req(e.how = "response" /\ REq(ToString(e.status), CASE e.fault = "500" -> "500" [] e.fault = "down" -> "900" [] OTHER -> "200"), "sdk-sync-response")
  ELSE IF e.fault = "ok" THEN Req(e.how = "value" /\ Same(e.r, "" :> IV(ToString(Len(s.jobs) + 1))), "sdk-async-id")
  ELSE IF e.fault = "html" THEN Req(e.how = "unreachable", "sdk-async-fault")
  ELSE IF c.raise THEN Req(e.how \in {"refused", "unreachable"}, "sdk-async-fault")
  ELSE Req((e.how = "value" /\ e.r = ("" :> BV(FALSE))) \/ (e.fault \in {"down", "500"} /\ e.how = "unreachable"), "sdk-async-fault")

JudgeResult(e) ==
  LET c == s.c  a == Answer(s.jobs, e.k) IN
  OneRequest(e, EmptyF, "get", c.url \o "/" \o c.base \o "/result/" \o ToString(e.k), c) \cup
  CASE e.fault = "html" -> Req(e.how = "unreachable", "sdk-result-fault")
    [] e.fault = "down" -> Req(e.how \in {"unreachable", "exception", "failed"}, "sdk-result-fault")
    [] a = "pending" -> Req(e.how = "value" /\ e.r = ("" :> BV(TRUE)), "sdk-result-pending")
    [] a = "done" -> Req(e.how = "value" /\ Same(e.r, JobTxt(e.k)), "sdk-result-value")
    [] OTHER -> IF c.raise THEN Req(e.how = "unknown", "sdk-result-unknown") ELSE Req(e.how = "value" /\ e.r = ("" :> BV(FALSE)), "sdk-result-unknown")

TokTxt(a) == SV("token " \o a)
TokenOf(c, a) == IF c.tk /\ \E i \in DOMAIN Tk : Adr(i) = a THEN TokTxt(a) ELSE SV(a)
\* the value expected of a question to which the server has an answer
Value(c, e) ==
  LET o == e IN
  CASE e.fn \in {"getLiquidityByPair", "getMinRateByPair", "getMaxRateByPair"} -> "" :> IV(e.data[""][2])
    [] e.fn = "getRateLiquidityDepthByPair" -> IF e.opt = 1 THEN "" :> IV(e.data[""][2])
         ELSE ("0" :> IV(e.data["0"][2])) @@ ("1" :> IF e.flag THEN Nil ELSE IV(e.data["1"][2]))
    [] e.fn = "balance" -> LET A == ToString(e.k)  B == RMul(A, "1000") IN
         (Tic(e.t) :> IV(RDiv(B, Ten(Tk[e.t].d)))) @@ (Tic(e.s) :> IV(RDiv(A, Ten(Tk[e.s].d))))
    [] e.fn = "decimals" -> (Tic(e.t) :> IV("9")) @@ (Tic(e.s) :> IV("7"))
    [] e.fn = "symbol" -> LET N(i) == IF e.opt > 1 THEN Tic(i) ELSE Adr(i) IN (N(e.t) :> SV("BBB")) @@ (N(e.s) :> SV("AAA"))
    [] e.fn = "pairs" -> LET A == Adr(e.s)  B == Adr(e.t)  D == e.data["1/1"][2]  pre == IF c.tk /\ e.flag THEN "0/" ELSE "" IN
         (pre \o "0/0" :> TokenOf(c, A)) @@ (pre \o "0/1" :> TokenOf(c, B)) @@ (pre \o "1/0" :> TokenOf(c, B)) @@ (pre \o "1/1" :> TokenOf(c, D))
         @@ (IF c.tk /\ e.flag THEN "1" :> SV(Tic(e.s) \o "/" \o Tic(e.t) \o ", " \o Tic(e.t) \o "/" \o Tic(e.s)) ELSE EmptyF)
    [] e.fn = "version" -> [k \in {"success"} |-> BV(TRUE)] @@ ("data/version" :> NV("99/10"))
    [] OTHER -> e.data
JudgeAsk(e) ==
  LET c == s.c IN
  IF e.fn = "hasLiquidityByPair" /\ e.opt = 4 THEN Req(e.how = "exception" /\ e.reqs = <<>>, "sdk-ask-both")
  ELSE OneRequest(e, Params(e), Method(e), Url(c, e), c) \cup
  IF e.fault = "ok" THEN Req(e.how = "value" /\ ((e.s = e.t /\ e.fn \in {"balance", "decimals", "symbol"}) \/ Same(e.r, Value(c, e))), "sdk-answer")
  ELSE IF e.fn = "version" THEN {}
  ELSE IF e.fn = "addr" THEN (IF e.fault = "refused" THEN Req(e.how = "value" /\ e.r = ("" :> Nil), "sdk-ask-fault") ELSE {})
  ELSE Req(e.how = "failed", "sdk-ask-fault")

(* ------------------------------ markets ---------------------------------*)
Pair(e) == [b |-> e.b, q |-> e.q]
Dir(s1, t1) == ("sourceToken" :> SV(Adr(s1))) @@ ("targetToken" :> SV(Adr(t1)))
Asked(e, i, name, want) == Len(e.reqs) >= i /\ e.reqs[i].url = "http://one:3118/api/scall/" \o name /\ Same(e.reqs[i].params, want)
TxAnswer == "tx" :> SV("0xfeed")
Within(a, b) == RIsNum(a) /\ RNear(a, b, "1/10000000000", "1/1000000000000000000")
PairOK(e, r) == r.pair = <<e.b, e.q>>

JudgeRange(e, f, start, end) ==
  Req(Near(start, InPair(Pair(e), e.sells, f.hi)) /\ Near(end, InPair(Pair(e), e.sells, f.lo)), "sdk-range")
JudgePairLiq(e) == Req(e.unit = e.sells /\ e.ammsells = e.sells /\ e.side = Side(Pair(e), e.sells) /\ PairOK(e, e), "sdk-liquidity-labels")

JudgeCreate(e) ==
  LET slo == RMin(e.lo, e.hi)  shi == RMax(e.lo, e.hi)  bhi == RMax(e.z, e.w)  blo == RMin(e.z, e.w)
      gas == "overrides/gasLimit" :> IV(IF e.opt = 3 \/ e.opt = 4 THEN "5" ELSE "999999999")
      want == ("baseToken" :> SV(Adr(e.b))) @@ ("quoteToken" :> SV(Adr(e.q))) @@ ("buyPriceLow" :> NV(blo)) @@ ("buyPriceHigh" :> NV(bhi)) @@ ("buyBudget" :> NV("3"))
              @@ ("sellPriceLow" :> NV(slo)) @@ ("sellPriceHigh" :> NV(shi)) @@ ("sellBudget" :> NV(e.a)) @@ gas
  IN IF Near(slo, bhi) THEN {}
     ELSE IF RLt(slo, bhi) THEN Req(~e.ok /\ e.reqs = <<>>, "sdk-create-overlap")
     ELSE Req(e.ok /\ Len(e.reqs) = 1 /\ Asked(e, 1, "create_buy_sell_strategy", want) /\ e.r = TxAnswer, "sdk-create")

JudgePrepare(e) ==
  LET p == Pair(e)
      bad == e.bad \in {1, 2, 3} \/ RLe(e.a, "0")
      src == IF e.flag THEN Other(p, e.sells) ELSE e.sells     \* (sells: the token the trade is about)
      tgt == Other(p, src)
      trade == [totalSourceAmount |-> IV(e.x), totalTargetAmount |-> IV(e.y), effectiveRate |-> IV(e.z)]
      lim == IF e.flag THEN ("maxInput" :> NV(RMul(e.x, "11/10"))) ELSE ("minReturn" :> NV(RMul(e.y, "9/10")))
      acts == ("tradeActions/0/id" :> NV(e.id)) @@ ("tradeActions/0/amount" :> NV(e.zz))
  IN IF bad THEN Req(~e.ok /\ e.reqs = <<>>, "sdk-trade-accepted")
     ELSE IF ~e.ok THEN {"sdk-trade-refused"}
     ELSE Req(/\ PairOK(e, e) /\ e.tkn = e.sells /\ e.word = (IF e.flag THEN "BUY" ELSE "SELL") /\ REq(e.amount, e.a)
              /\ e.source = src /\ e.target = tgt /\ e.bytarget = e.flag, "sdk-trade-direction")
          \cup Req(Asked(e, 1, "get_trade_data", Dir(src, tgt) @@ ("amount" :> NV(e.a)) @@ ("tradeByTargetAmount" :> BV(e.flag)) @@ ("filter" :> NoItems)), "sdk-trade-request")
          \cup Req(Same(e.actions, ("0/id" :> IV(e.id)) @@ ("0/amount" :> IV(e.zz))) /\ Same(e.wei, ("0/id" :> IV(e.id)) @@ ("0/sourceAmount" :> IV(e.yy)) @@ ("0/targetAmount" :> IV("7")))
                    /\ Same(e.res, ("0/id" :> IV(e.id)) @@ ("0/sourceAmount" :> IV(e.x)) @@ ("0/targetAmount" :> IV("5/2"))) /\ Same(e.data, trade), "sdk-trade-data")
          \cup (IF e.how = 3 THEN Req(Len(e.reqs) = 1, "sdk-request-count")
                ELSE Req(Len(e.reqs) = 2 /\ Asked(e, 2, IF e.flag THEN "compose_trade_by_target_transaction" ELSE "compose_trade_by_source_transaction",
                         Dir(src, tgt) @@ acts @@ lim @@ ("deadline" :> NV("4294967295")) @@ ("overrides/gasLimit" :> IV("999999999"))), "sdk-compose"))

JudgeCompose(e) ==
  LET dev == CASE e.opt = 1 -> "1/10" [] e.opt = 2 -> "1/2" [] OTHER -> "0"
      lim == IF e.flag THEN ("maxInput" :> NV(RMul(e.x, RAdd("1", dev)))) ELSE ("minReturn" :> NV(RMul(e.y, RSub("1", dev))))
      want == Dir(e.b, e.q) @@ ("tradeActions/0/id" :> NV(e.id)) @@ ("tradeActions/0/amount" :> NV(e.zz)) @@ lim
              @@ ("deadline" :> NV(IF e.opt = 2 THEN ToString(e.k) ELSE "4294967295")) @@ ("overrides/gasLimit" :> IV(IF e.opt \in {3, 4} THEN "5" ELSE "999999999"))
  IN Req(e.ok /\ Len(e.reqs) = 1 /\ Asked(e, 1, IF e.flag THEN "compose_trade_by_target_transaction" ELSE "compose_trade_by_source_transaction", want) /\ e.r = TxAnswer, "sdk-compose")

RoundOK(e, x, r) == IF e.nsd = "None" THEN Near(r, x) ELSE Rounded(x, RToInt(e.nsd), r)
JudgeStrategies(e) ==
  IF ~e.ok THEN {"sdk-strategies-refused"}
  ELSE IF Len(e.strats) # 1 THEN {"sdk-strategies"}
  ELSE LET t == e.strats[1]
           ord(n) == <<RAdd(e.yy, n), RAdd(e.zz, n), RAdd("5", n), RAdd("6", n)>>
           fs == <<e.x, e.y, e.w, e.z, RAdd(e.z, "1"), "3333333333333/10000000000000">>
           raw == ("id" :> NV(e.id)) @@ ("token0" :> SV(Adr(e.b))) @@ ("token1" :> SV(Adr(e.q)))
                  @@ ("order0/y" :> NV(ord("0")[1])) @@ ("order0/z" :> NV(ord("0")[2])) @@ ("order0/A" :> NV("5")) @@ ("order0/B" :> NV("6"))
                  @@ ("order1/y" :> NV(ord("100")[1])) @@ ("order1/z" :> NV(ord("100")[2])) @@ ("order1/A" :> NV("105")) @@ ("order1/B" :> NV("106"))
       IN Req(REq(t.sid, e.id) /\ REq(t.esid, e.id) /\ t.same, "sdk-strategy-id")
          \cup Req(t.base = e.b /\ t.quote = e.q /\ t.names = <<e.b, e.q>> /\ t.tok = <<e.b, e.q>>, "sdk-strategy-tokens")
          \cup Req(\A i \in 1 .. 6 : RoundOK(e, fs[i], t.f[i]), "sdk-strategy-numbers")
          \cup Req(\A i \in 1 .. 4 : REq(t.orders[1][i], ord("0")[i]) /\ REq(t.orders[2][i], ord("100")[i]), "sdk-strategy-orders")
          \cup Req(Same(t.raw, raw), "sdk-strategy-raw")

JudgeMarket(e) ==
  LET p == Pair(e)  f == Offer(Mkt, p, e.sells)  other == Other(p, e.sells)
      b3 == (e.k % 5) + 1  q3 == ((e.k + 1) % 5) + 1
      bid == Offer(Mkt, p, e.q)  ask == Offer(Mkt, p, e.b)
      Bid == InPair(p, e.q, bid.hi)  LBid == InPair(p, e.q, bid.lo)  Ask == InPair(p, e.b, ask.hi)  LAsk == InPair(p, e.b, ask.lo)
      xs == IF e.opt = 1 THEN <<e.x>> ELSE <<e.x, e.y, e.z>>
  IN CASE e.fn = "has" -> Req(e.ok /\ e.has = f.has /\ Len(e.reqs) = 1 /\ Asked(e, 1, "has_liquidity_by_pair", Dir(other, e.sells)), "sdk-has-liquidity")
       [] e.fn = "hasmany" -> Req(/\ e.ok /\ Len(e.rows) = 4
              /\ e.rows[1] = [pair |-> <<e.b, e.q>>, sells |-> e.q, has |-> Mkt[e.b][e.q].has] /\ e.rows[2] = [pair |-> <<e.b, e.q>>, sells |-> e.b, has |-> Mkt[e.q][e.b].has]
              /\ e.rows[3] = [pair |-> <<b3, q3>>, sells |-> q3, has |-> Mkt[b3][q3].has] /\ e.rows[4] = [pair |-> <<b3, q3>>, sells |-> b3, has |-> Mkt[q3][b3].has], "sdk-has-liquidity")
       [] e.fn = "liq" -> IF ~e.ok THEN {"sdk-market-refused"} ELSE JudgePairLiq(e) \cup Req(Near(e.amounts[1], f.liq), "sdk-liquidity")
       [] e.fn = "depth" ->
            LET At(x) == DepthAt(f, InPair(p, e.sells, x))
                edge(x) == RNear(InPair(p, e.sells, x), f.hi, "1/1000000000", "0")
                one == e.opt = 1
            IN IF one /\ (At(e.x) = None \/ edge(e.x)) THEN {}        \* (undocumented)
               ELSE IF ~e.ok THEN {"sdk-market-refused"}
               ELSE JudgePairLiq(e) \cup Req(e.islist = ~one /\ Len(e.rates) = Len(xs) /\ e.inverted = (e.sells = e.b) /\ \A i \in DOMAIN xs : Near(e.rates[i], xs[i]), "sdk-depth-labels")
                    \cup Req(/\ Len(e.amounts) = Len(xs)
                              /\ \A i \in DOMAIN xs : edge(xs[i]) \/ (IF At(xs[i]) = None THEN e.amounts[i] = None ELSE e.amounts[i] # None /\ Near(e.amounts[i], At(xs[i]))), "sdk-depth")
       [] e.fn = "range" -> IF ~e.ok THEN {"sdk-market-refused"} ELSE JudgeRange(e, f, e.start, e.end)
              \cup Req(e.ammsells = e.sells /\ e.ammbuys = other /\ e.side = Side(p, e.sells) /\ PairOK(e, e) /\ e.inverted = (e.sells = e.b), "sdk-range-labels")
       [] e.fn = "market" -> IF ~e.ok THEN {"sdk-market-refused"} ELSE
            Req(Near(e.bid, Bid) /\ Near(e.lastbid, LBid) /\ Near(e.ask, Ask) /\ Near(e.lastask, LAsk) /\ Near(e.liqbid, bid.liq) /\ Near(e.liqask, ask.liq), "sdk-market")
            \cup Req(/\ (e.inverted = RGt(Bid, Ask) \/ RNear(Bid, Ask, "1/1000000000", "0")) /\ Near(e.mid, RDiv(RAdd(Bid, Ask), "2")) /\ RNear(e.spread, RSub(Ask, Bid), "0", RMul(RAdd(Bid, Ask), "1/1000000000000"))
                      /\ Near(e.pc, RDiv(e.spread, e.mid)), "sdk-market-derived")
            \cup Req(/\ e.pair = <<e.b, e.q>> /\ e.pair2 = e.pair /\ e.units = <<e.q, e.b>> /\ e.amm = <<e.q, e.b>> /\ e.trader = <<e.b, e.q>>
                      /\ e.conv = Tic(e.q) \o " per " \o Tic(e.b), "sdk-market-labels")
            \cup Req(LET tol == RMul("1/100000000", RAdd(RAdd(Bid, LBid), RAdd(Ask, LAsk))) IN
                      /\ RNear(e.ibid, RAdd(Bid, RMul(e.w, RSub(LBid, Bid))), "1/1000000000", tol) /\ RNear(e.iask, RAdd(Ask, RMul(e.w, RSub(LAsk, Ask))), "1/1000000000", tol)
                      /\ RNear(e.iall, RAdd(LBid, RMul(e.w, RSub(LAsk, LBid))), "1/1000000000", tol), "sdk-market-between")
       [] e.fn = "create" -> JudgeCreate(e)
       [] e.fn = "prepare" -> JudgePrepare(e)
       [] e.fn = "compose" -> JudgeCompose(e)
       [] OTHER -> JudgeStrategies(e)

(* ------------------------------ encoded orders --------------------------*)
Fine == "1/30000000000000"       \* what 48 bits (less the few dropped) leave of a rate
JudgeOrder(e) ==
  LET capacity == CASE e.mode = "plain" -> e.y [] e.mode \in {"z", "yzAB"} -> e.z [] OTHER -> IF RGe(e.marg, e.hi) THEN e.y ELSE CapacityAt(e.y, e.hi, e.lo, e.marg)
      L == IF e.mode = "yzAB" THEN "0" ELSE RDiv(EncRate(e.lo), ONE)
  IN IF e.mode = "both" THEN Req(~e.ok, "sdk-encode-both")
     ELSE IF e.mode = "marg" /\ RLe(e.marg, e.lo) THEN {}            \* nothing left, or worse than the worst price
     ELSE IF ~e.ok THEN {"sdk-encode-refused"}
     ELSE Req(REq(e.oy, e.y) /\ RIsInt(e.oz) /\ (IF e.mode = "marg" THEN RNear(e.oz, capacity, "1/100000", "1") ELSE REq(e.oz, capacity)), "sdk-encode-amounts")
          \cup Req(e.mode # "marg" \/ RLt(RSub(RSqrt(e.marg), RSqrt(e.lo)), RMul(RSqrt(e.hi), "1/100000")) \/ RNear(e.oz, capacity, "1/10000000000", "2"), "sdk-encode-capacity")
          \cup Req(e.tok = (IF e.tk THEN "TOK" ELSE IF e.mode = "yzAB" THEN "None" ELSE "TKN") /\ e.same, "sdk-encode-token")
          \cup Req(REq(e.dec[1], e.oy) /\ REq(e.dec[2], e.oz) /\ Near(e.dec[3], RDiv(DecFloat(e.A), ONE)) /\ Near(e.dec[4], RDiv(DecFloat(e.B), ONE)), "sdk-decode")
          \cup Req(Near(e.end, RMul(e.dec[4], e.dec[4])) /\ Near(e.start, RMul(RAdd(e.dec[4], e.dec[3]), RAdd(e.dec[4], e.dec[3]))), "sdk-decode-prices")
          \cup (IF e.mode = "yzAB" THEN Req(RNear(e.dec[3], e.hi, "1/100000000000", Two(-40)) /\ RNear(e.dec[4], e.lo, "1/100000000000", Two(-40)), "sdk-encode-curve")
                ELSE LET rl == RSqrt(e.lo)  rh == RSqrt(e.hi)  tol == RAdd(RMul(rh, Fine), RDiv("2", ONE)) IN
                     Req(/\ RLe(e.dec[4], RMul(rl, RAdd("1", "1/1000000000000000"))) /\ RNear(e.dec[4], rl, "0", tol)
                         /\ RNear(RAdd(e.dec[3], e.dec[4]), rh, "0", RMul(tol, "2")), "sdk-encode-curve"))
          \cup Req(LET any == REq(e.oy, "0") /\ REq(e.oz, "0") IN
                    IF REq(e.oy, e.oz) THEN e.pm # None /\ (any \/ Near(e.pm, e.start)) ELSE IF REq(e.oy, "0") THEN e.pm # None /\ Near(e.pm, e.end)
                    ELSE e.pm = None \/ REq(e.oz, "0") \/ (LET at == RAdd(e.dec[4], RDiv(RMul(e.dec[3], e.oy), e.oz)) IN Near(e.pm, RMul(at, at))), "sdk-marginal")
JudgeEnc(e) ==
  CASE e.fn = "float" -> Req(REq(e.e, EncFloat(e.v)), "sdk-float-encode") \cup Req(REq(e.d, DecFloat(e.e)) /\ Near(e.f, RDiv(e.d, ONE)), "sdk-float-decode")
       \cup Req(RLe(e.d, e.v) /\ RLe(RMul(RSub(e.v, e.d), Two(47)), e.v), "sdk-float-accuracy")
    [] e.fn = "rate" -> LET w == RMul(RSqrt(e.lo), ONE) IN Req(RIsInt(e.e) /\ RLe(e.e, RMul(w, RAdd("1", "1/1000000000000000"))) /\ RNear(e.e, w, Fine, "2"), "sdk-rate-encode")
         \cup Req(REq(e.e, DropLow(e.e, BitsOver(e.e))), "sdk-rate-encode")
    [] OTHER -> JudgeOrder(e)

(* ------------------------------ containers of tokens --------------------*)
Entry(n) == IF n <= 5 THEN [t |-> Tic(n), a |-> Adr(n)]
            ELSE CASE n = 6 -> [t |-> "ETH", a |-> "0x0000000000000000000000000000000000000006"] [] n = 7 -> [t |-> "BAR", a |-> Adr(1)]
                   [] n = 8 -> [t |-> "QUX", a |-> "0x8"]
                   \* look-alikes of the tokens, which no container holds
                   [] n = 10 -> [t |-> "WETH", a |-> "0x00000000000000000000000000000000000f0001"] [] n = 11 -> [t |-> "BTC", a |-> "0x00000000000000000000000000000000000f"]
                   [] n = 12 -> [t |-> "LIN", a |-> "2260fac5e5542a773aa44fbcfedf7c193bc2c599"] [] n = 13 -> [t |-> "FOO2", a |-> "0x00000000000000000000000000000000000f00000"]
                   [] n = 14 -> [t |-> "ETHER", a |-> "0xf0000"] [] OTHER -> [t |-> "QUX", a |-> "0x0000000000000000000000000000000000000006"]
Shown(n) == Entry(n).t \o " " \o Entry(n).a
Unambiguous(es) == \A i, j \in DOMAIN es : i # j => Entry(es[i]).t # Entry(es[j]).t /\ Entry(es[i]).a # Entry(es[j]).a
ByT(n) == {m \in Range(s.toks) : Entry(m).t = Entry(n).t}
ByA(n) == {m \in Range(s.toks) : Entry(m).a = Entry(n).a}
The(ms) == Shown(CHOOSE m \in ms : TRUE)
\* the outcome of a search: found, or what the caller wants to have then
Found(e, ms, strict, nul) == IF ms # {} THEN Req(e.ok /\ e.got = The(ms), "sdk-token-lookup")
                             ELSE IF strict THEN Req(~e.ok, "sdk-token-missing")
                             ELSE Req(e.ok /\ e.got = (IF nul THEN "nul" ELSE "None"), "sdk-token-missing")
Small(t) == CASE t = "ETH" -> "eth" [] t = "USDC" -> "usdc" [] t = "WBTC" -> "wbtc" [] t = "LINK" -> "link" [] t = "FOO" -> "foo" [] t = "BAR" -> "bar" [] OTHER -> "qux"
Strict(r) == IF r = "N" THEN s.strict ELSE r = "T"
Dec(n) == IF n <= 5 THEN Tk[n].d ELSE 18
JudgeTok(e) ==
  CASE e.fn = "make" -> Req(e.ok = Unambiguous(e.es), "sdk-token-ambiguous")
    [] e.fn = "byticker" -> Found(e, ByT(e.i), Strict(e.r2), e.nul)
    [] e.fn = "byaddr" -> Found(e, ByA(e.i), Strict(e.r2), e.nul)
    [] e.fn \in {"item", "attr"} -> Found(e, ByT(e.i), s.strict, TRUE)
    [] e.fn \in {"byaddr1", "call"} -> LET ms == ByA(e.i) IN
         Req(e.ok /\ e.got = (IF ms = {} THEN "text " \o Entry(e.i).a ELSE IF e.fn = "byaddr1" /\ e.flag THEN "text " \o Small(Entry(CHOOSE m \in ms : TRUE).t) ELSE The(ms)), "sdk-token-lookup")
    [] e.fn = "contains" -> Req(e.ok /\ e.holds = (\A n \in Range(e.set) : ByT(n) # {}), "sdk-token-contains")
    [] e.fn = "restore" ->
         IF e.what = "obj" THEN Req(e.ok /\ e.got = Shown(e.i), "sdk-token-restore")
         ELSE LET ms == IF e.what = "ticker" THEN ByT(e.i) ELSE ByA(e.i) IN
              IF ms # {} THEN Req(e.ok /\ e.got = The(ms), "sdk-token-restore") ELSE IF e.r2 = "N" THEN {}
              ELSE IF e.r2 = "T" THEN Req(~e.ok, "sdk-token-missing") ELSE Req(e.ok /\ e.got = "None", "sdk-token-missing")
    [] e.fn = "list" -> Req(e.ok /\ e.n = Len(s.toks) /\ e.all = [i \in DOMAIN s.toks |-> Shown(s.toks[i])], "sdk-token-list")
    [] e.fn = "token" -> LET n == IF e.i > 5 THEN 5 ELSE e.i IN
         IF e.i % 2 = 0 THEN Req(~e.ok, "sdk-token-address") ELSE Req(e.ok /\ e.same /\ e.tuple = <<Tic(n), Adr(n), "18", IF e.flag THEN "a name" ELSE Tic(n)>>, "sdk-token-fields")
    [] OTHER -> Req(/\ e.ok /\ e.dec = Dec(e.i) /\ RIsInt(e.wei) /\ RNear(e.wei, RMul(e.x, Ten(Dec(e.i))), "1/1000000000000", "1") /\ Near(e.back, RDiv(e.wei, Ten(Dec(e.i)))), "sdk-token-wei")

(* ------------------------------ strategies of the contracts -------------*)
Round2(e, x, r) == IF e.nsd = "None" THEN Near(r, x) ELSE Rounded(x, RToInt(e.nsd), r)
Load(y, z) == IF REq(z, "0") THEN "0" ELSE RDiv(y, z)
JudgeStrat(e) ==
  LET bt == IF e.unk = 1 \/ e.b = 5 THEN "TKNB" ELSE Tic(e.b)      \* (FOO is not on the list of all tokens)
      qt == IF e.unk = 2 \/ e.q = 5 THEN "TKNQ" ELSE Tic(e.q)
      lb == Load(e.y0, e.z0)  lq == Load(e.y1, e.z1)
      Loaded(y, yint, ld) == IF RLe(yint, "0") THEN Near(y, "0") ELSE RNear(y, RMul(yint, ld), "1/1000000000000", "0")
      sid == ToString(e.id)
  IN IF e.bad THEN Req(~e.ok, "sdk-import-mismatch")
     ELSE IF ~e.ok THEN {"sdk-import-refused"}
     ELSE IF e.fn = "ui" THEN
          Req(/\ e.sell.tkn = bt /\ e.buy.tkn = qt /\ e.sell.pair = <<bt, qt>> /\ e.buy.pair = <<bt, qt>>, "sdk-import-tokens")
          \cup Req(Round2(e, e.sello, e.sell.pa) /\ Round2(e, e.selhi, e.sell.pb) /\ Round2(e, e.buyhi, e.buy.pa) /\ Round2(e, e.buylo, e.buy.pb), "sdk-import-prices")
          \cup Req(Round2(e, e.sb, e.sell.yint) /\ Round2(e, e.bb, e.buy.yint) /\ Loaded(e.sell.y, e.sell.yint, lb) /\ Loaded(e.buy.y, e.buy.yint, lq), "sdk-import-amounts")
          \cup Req(e.sell.id = sid \o "-s" /\ e.buy.id = sid \o "-b" /\ e.sell.linked = e.buy.id /\ e.buy.linked = e.sell.id, "sdk-import-ids")
     ELSE IF ~e.answer \/ Len(e.rows) # 2 THEN {"sdk-import-count"}
     ELSE LET sr == {r \in Range(e.rows) : r.tkn = bt}  br == {r \in Range(e.rows) : r.tkn = qt} IN
          IF Cardinality(sr) # 1 \/ Cardinality(br) # 1 THEN {"sdk-import-tokens"}
          ELSE LET S == CHOOSE r \in sr : TRUE  B == CHOOSE r \in br : TRUE IN
               Req(Round2(e, e.sello, S.start) /\ Round2(e, e.selhi, S.end) /\ Round2(e, e.buyhi, B.start) /\ Round2(e, e.buylo, B.end), "sdk-import-prices")
               \cup Req(Round2(e, e.sb, S.yint) /\ Round2(e, e.bb, B.yint) /\ Loaded(S.y, S.yint, lb) /\ Loaded(B.y, B.yint, lq), "sdk-import-amounts")
               \cup Req(S.lid = B.id /\ B.lid = S.id /\ S.id # B.id, "sdk-import-ids")

Judge(e) ==
  IF ~e.wf THEN {"crash"}
  ELSE CASE e.op = "cfg" -> {} [] e.op = "serve" -> {} [] e.op = "call" -> JudgeCall(e) [] e.op = "result" -> JudgeResult(e) [] e.op = "ask" -> JudgeAsk(e)
         [] e.op = "m" -> JudgeMarket(e) [] e.op = "enc" -> JudgeEnc(e) [] e.op = "tok" -> JudgeTok(e) [] OTHER -> JudgeStrat(e)

After(e) ==
  IF ~e.wf THEN s
  ELSE CASE e.op = "cfg" -> [s EXCEPT !.c = [url |-> e.url, base |-> e.base, sd |-> e.sd = "T", raise |-> e.raise, tk |-> e.tk, token |-> e.token]]
         [] e.op = "serve" -> IF e.k \in DOMAIN s.jobs THEN [s EXCEPT !.jobs = Serve(s.jobs, e.k)] ELSE s
         [] e.op = "call" -> IF ~IsSync(s.c, e) /\ e.fault = "ok" THEN [s EXCEPT !.jobs = NewJob(s.jobs)] ELSE s
         [] e.op = "tok" -> IF e.fn = "make" /\ Unambiguous(e.es) THEN [s EXCEPT !.toks = e.es, !.strict = (e.raise # "F")] ELSE s
         [] OTHER -> s

Init == tid \in DOMAIN Traces /\ l = 0 /\ s = [c |-> [url |-> ""], jobs |-> <<>>, toks |-> <<>>, strict |-> TRUE]
Next == /\ l < Len(Traces[tid].evs)
        /\ l' = l + 1 /\ tid' = tid
        /\ LET e == Traces[tid].evs[l'] IN Report(Traces[tid].tid, l', e.op, Judge(e)) /\ s' = After(e)
Spec == Init /\ [][Next]_tvars
=============================================================================
