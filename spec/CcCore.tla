------------------------------- MODULE CcCore -------------------------------
(***************************************************************************)
(* A client of a market data server, with a cache of items in files.       *)
(*                                                                         *)
(* client  [roe: raise on error, key: the API key or "True" (anonymous)]   *)
(* cache   a function from item names to contents                          *)
(* srv     what the server does: "ok", "fail" (a status), "err" (an answer *)
(*         that says so); disk: whether the cache can be written           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

None == "None"
Absent == "None"

Failed(roe) == [res |-> IF roe THEN "raised" ELSE "none", val |-> None]
Value(v) == [res |-> "value", val |-> v]

Items == {"allexchanges", "coinlist", "indexlist"}
Base == "https://min-api.cryptocompare.com"
Endpoint(item) == CASE item = "allexchanges" -> "/data/v4/all/exchanges" [] item = "ratelimit" -> "/stats/rate/limit"
                    [] item = "coinlist" -> "/data/all/coinlist" [] item = "indexlist" -> "/data/index/list"

\* every request carries the key, unless the client is anonymous; parameters without value are left out
Params(key, P) == {p \in P : p[2] # None} \cup (IF key = "True" THEN {} ELSE {<<"api_key", "'" \o key \o "'">>})
Request(key, endpoint, P) == [url |-> Base \o endpoint, params |-> Params(key, P)]

Lookup(cache, item) == IF item \in DOMAIN cache THEN cache[item] ELSE Absent
Store(cache, item, v) == [i \in DOMAIN cache \cup {item} |-> IF i = item THEN v ELSE cache[i]]

\* asking the server for an item that has the content v there
Ask(roe, srv, v) == IF srv = "ok" THEN Value(v) ELSE Failed(roe)

\* the content of an item: from the cache; else from the server if so told (rof), which updates the cache if so told (uof)
Get(roe, cache, srv, disk, item, v, rof, uof) ==
  LET c == Lookup(cache, item)
      a == Ask(roe, srv, v)
  IN IF c # Absent THEN [r |-> Value(c), n |-> 0, cache |-> cache]
     ELSE IF ~rof /\ ~uof THEN [r |-> Failed(roe), n |-> 0, cache |-> cache]
     ELSE IF a.res # "value" \/ ~uof THEN [r |-> a, n |-> 1, cache |-> cache]
     ELSE IF ~disk THEN [r |-> IF roe THEN Failed(roe) ELSE a, n |-> 1, cache |-> cache]
     ELSE [r |-> a, n |-> 1, cache |-> Store(cache, item, v)]

(* ------------------------------ time stamps -----------------------------*)
\* days since 1970-01-01 of a date of the Gregorian calendar
Days(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
      doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
  IN era * 146097 + doe - 719468
Epoch(t) == Days(t.y, t.m, t.d) * 86400 + t.h * 3600 + t.mi * 60 + t.s
MonthLen(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m \in {4, 6, 9, 11} -> 30
                    [] OTHER -> IF y % 400 = 0 \/ (y % 4 = 0 /\ y % 100 # 0) THEN 29 ELSE 28

(* --------------------------- pairs and tables ---------------------------*)
RECURSIVE Flat1(_)
Flat1(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat1(Tail(ss))
\* all pairs of a coin and a different quote coin, quote by quote
Combos(coins, quotes) == Flat1([k \in DOMAIN quotes |->
    LET cs == SelectSeq(coins, LAMBDA c : c # quotes[k]) IN [j \in DOMAIN cs |-> <<cs[j], quotes[k]>>]])

Columns == <<"open", "close", "high", "low", "volumefrom", "volumeto">>
=============================================================================
