------------------------------- MODULE GenCc -------------------------------
(* Generates histories of a market data client: queries, cached access, faults of server and disk, tables of pairs. *)
EXTENDS CcCore, Json, IOUtils

CONSTANT Depth
PROFILE == IOEnv.PROFILE
VARIABLES n, hist, cfg
vars == <<n, hist, cfg>>
One(s) == {s[RandomElement(DOMAIN s)]}
RPick(s) == s[RandomElement(DOMAIN s)]
Flip(k) == {RandomElement(1 .. k) = 1}
Push(r) == hist' = Append(hist, r)

Init == n = 0 /\ hist = <<>> /\ cfg = [roe |-> TRUE, key |-> ""]
Setup == \E r \in Flip(2), k \in One(<<"True", "abc", "k3y-of-mine", "env", "env2">>) : cfg' = [roe |-> r, key |-> k] /\ hist' = hist

Srv == <<"ok", "ok", "ok", "fail", "err">>
Vers == <<"1", "2", "3", "x", "empty">>
It == <<"allexchanges", "coinlist", "indexlist">>

DoGet == \E i \in One(It), rof \in Flip(2), uof \in Flip(3), d \in Flip(4), s \in One(Srv), w \in {RandomElement(1 .. 8) # 1}, v \in One(Vers) :
           Push([op |-> "get", item |-> i, rof |-> rof, uof |-> uof, dflt |-> d, srv |-> IF s = "err" THEN "fail" ELSE s, disk |-> w, v |-> v])
DoQuery == \E i \in One(Append(It, "ratelimit")), s \in One(Srv), v \in One(Vers) :
           Push([op |-> "query", item |-> i, srv |-> IF s = "err" THEN "fail" ELSE s, v |-> v])
DoRaw == \E w \in Flip(2), i \in One(<<"query_coinlist", "query_indexlist", "query_allexchanges", "other">>), d \in {RandomElement(1 .. 6) # 1}, v \in One(Vers) :
           Push([op |-> IF w THEN "write" ELSE "read", item |-> i, disk |-> d, v |-> v])
DoCall == \E e \in One(<<"/data/x", "/y">>), a \in One(<<None, "p", "0", "False", "blank">>), b \in One(<<None, "3", "q", "0", "blank">>), m \in One(<<None, None, "GET", "GET", "POST", "PUT">>), s \in One(<<"ok", "ok", "fail">>) :
           Push([op |-> "call", endpoint |-> e, a |-> a, b |-> b, method |-> m, srv |-> s, v |-> "9"])

Yrs == <<1970, 1971, 1999, 2000, 2015, 2016, 2020, 2021, 2023, 2035>>
Times == {[y |-> y, m |-> m, d |-> IF d > MonthLen(y, m) THEN MonthLen(y, m) ELSE d, h |-> h, mi |-> mi, s |-> s] :
            y \in One(Yrs), m \in One(<<1, 1, 2, 3, 6, 11, 12>>), d \in One(<<1, 1, 2, 15, 28, 29, 30, 31>>), h \in One(<<0, 0, 5, 12, 23>>), mi \in One(<<0, 0, 1, 30, 59>>), s \in One(<<0, 0, 0, 1, 59>>)}
DoTs == \E t \in Times, how \in One(<<"str", "ts", "iso", "from">>) : Push([op |-> "ts", t |-> t, how |-> how])

Syms == <<"ETH", "BTC", "USD", "LINK", "GBP", "USDC", "ETHW">>
DoFreq == \E f \in One(<<"day", "hour", "minute", "day", "week">>), via \in Flip(2), fs \in One(Syms), ts \in One(<<"BTC", "usd", "EUR", None>>), x \in One(<<None, None, "Kraken">>),
             lim \in One(<<"False", "False", "3", "100", "0", "1", None>>), tk \in One(<<"none", "int", "str", "date">>), t \in Times, p \in {RandomElement(1 .. 4) # 1}, s \in One(Srv), m \in {RandomElement(1 .. 5)} :
          Push([op |-> "freq", freq |-> f, via |-> via /\ f # "week", fsym |-> fs, tsym |-> ts, e |-> x, limit |-> lim, tk |-> tk, t |-> IF tk = "date" THEN [t EXCEPT !.h = 0, !.mi = 0, !.s = 0] ELSE t,
                aspandas |-> p, srv |-> s, m |-> m])

PairSets == << <<"ETH", "USD">>, <<"BTC", "USD">>, <<"ETH", "BTC">>, <<"LINK", "ETH">>, <<"BTC", "GBP">>, <<"USDC", "USD">>, <<"USD", "ETH">> >>
DoAggr == \E S \in {RandomElement(SUBSET (1 .. 7) \ {{}})} : \E how \in One(<<"str", "tuple", "pt">>), fl \in One(<<"None", "str", "list", "one">>),
             fs \in {RandomElement(SUBSET {"close", "open", "high", "low"} \ {{}})},
             raw \in Flip(2), rawa \in Flip(2), ga \in Flip(2), fr \in One(<<None, "day", "hour", "minute">>), lim \in One(<<None, "5">>), ex \in One(<<None, "Kraken">>), s \in One(<<"ok", "ok", "ok", "ok", "fail">>), m \in {RandomElement(1 .. 3)} :
          LET ks == CHOOSE q \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN q : i < j => q[i] < q[j]
              fields == CHOOSE q \in [1 .. Cardinality(fs) -> fs] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]
          IN Push([op |-> "aggr", pairs |-> [k \in DOMAIN ks |-> PairSets[ks[k]]], how |-> how, fl |-> fl,
                   fields |-> IF fl = "None" THEN <<"close">> ELSE IF fl = "one" THEN <<fields[1]>> ELSE fields,
                   raw |-> raw, rawaggr |-> rawa, gaggr |-> ga, freq |-> fr, limit |-> lim, e |-> ex, srv |-> IF cfg.roe THEN s ELSE "ok", m |-> m])

DoPairs == \E a \in {RandomElement(0 .. 4)}, b \in {RandomElement(0 .. 3)} : \E c \in {[k \in 1 .. a |-> RPick(Syms)]}, q \in {[k \in 1 .. b |-> RPick(Syms)]} :
           \E how \in One(<<"str", "list", "tuple">>), sp \in One(<<",", ", ", " , ">>), nq \in Flip(3) :
           LET cc == [k \in DOMAIN c |-> c[k] ] IN
           Push([op |-> "pairs", coins |-> cc, quotes |-> q, how |-> IF a = 0 \/ (b = 0 /\ ~nq) THEN "list" ELSE how, sep |-> sp, noq |-> nq])

Op == \E k \in {RandomElement(1 .. 20)} :
  IF PROFILE = "cache" THEN (CASE k <= 11 -> DoGet [] k <= 14 -> DoQuery [] k <= 17 -> DoRaw [] OTHER -> DoCall)
  ELSE CASE k <= 9 -> DoFreq [] k <= 14 -> DoAggr [] k <= 17 -> DoPairs [] OTHER -> DoTs

Next == /\ n <= Depth /\ n' = n + 1
        /\ IF n = 0 THEN Setup ELSE Op /\ cfg' = cfg
Emit == n = Depth + 1 => PrintT("PLAN " \o ToJson([cfg |-> cfg, ops |-> hist]))
Spec == Init /\ [][Next]_vars
=============================================================================
