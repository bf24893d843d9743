------------------------------- MODULE GenAna -------------------------------
(* Generates uses of the analytics: numerical order books of arbitrary tables, and of the quotes of a simulator. *)
EXTENDS GenSim, AnaCore

\* profiles: "book" (tables, vector functions), "probe" and "probe-crowd" (quotes), "approx" (approximate liquidity)
ASetup == /\ \E m \in One(<<"exact", "exact", "alpha">>) : mm' = m
          /\ \E p \in One(<<PEU, PEU, NoPair>>) : dpair' = p
          /\ \E p \in One(<<"1", "3/2", "1500", "1/200", "2000">>) : mid' = p
          /\ UNCHANGED <<book, made, hist>>

Incs == <<"1", "1/2", "3", "7/3", "1/100", "12", "1/7", "5/4", "1", "2", "9/10">>
RECURSIVE Cum(_, _)
Cum(x, v) == IF v = <<>> THEN <<>> ELSE LET y == RAdd(x, Head(v)) IN <<y>> \o Cum(y, Tail(v))
\* an increasing sequence of n numbers
Rising(n_, scale) == {Cum("0", v) : v \in {[k \in 1 .. n_ |-> RMul(scale, RPick(Incs))]}}
Scales == <<"1", "1000", "1/1000", "123456/100">>
Hows == <<"list", "list", "vec", "nan", "array">>
Words == <<"SRC", "TRG", "ETH", "USDC">>

Holes(t, h, tail) == [k \in DOMAIN t |-> IF k > Len(t) - tail \/ (h /\ k \in {RandomElement(1 .. Len(t)), RandomElement(1 .. Len(t))}) THEN None ELSE t[k]]

DoBook ==
  \E m \in One(<<0, 1, 2, 3, 4, 6, 9, 12>>) :
  \E x \in One(<<0, 0, 0, 0, -1, 1, 2>>) :
  \E a \in One(Scales), b \in One(Scales) :
  \E s \in Rising(m, a) : \E t0 \in Rising(IF m + x < 0 THEN 0 ELSE m + x, b) :
  \E tail \in One(<<0, 0, 0, 1, 2, 3>>) : \E h \in Flip(5) :
  \E t \in {Holes(t0, h, tail)} :
  \E side \in One(<<"ask", "bid", "ask", "bid", "default", "BID">>) :
  \E how \in One(Hows), w \in One(Words), v \in One(Words) :
  /\ hist' = Append(hist, [op |-> "book", src |-> s, trg |-> t, side |-> side, how |-> how, stkn |-> w, ttkn |-> v])
  /\ UNCHANGED <<book, made>>

DoFn ==
  \E m \in {RandomElement(0 .. 8)} : \E x \in One(<<0, 0, -1, 1, 3>>) :
  \E a \in Rising(m, "3/7") : \E b0 \in Rising(IF m + x < 0 THEN 0 ELSE m + x, "5/3") :
  \E f \in One(<<"linspace0", "linspace", "midpoints", "diff", "vecdot", "truncate", "truncate">>) :
  \E tail \in {RandomElement(0 .. 3)} : \E h \in Flip(3) :
  \E how \in One(Hows) :
  \E z \in One(<<"1", "100", "1000", "3/1000", "1234567/100">>), e1 \in One(<<None, "1/10", "1/1000000">>), e2 \in One(<<None, "1/100", "1/1000000">>) :
  \E k \in {RandomElement({1, 2, 3, 7, 10, 25})} :
  \E tail2 \in {RandomElement(0 .. 2)} : \E h2 \in Flip(3) :
  \E a1 \in {IF (f = "vecdot" /\ how # "list") \/ (f \in {"midpoints", "diff"} /\ how \in {"nan", "array"}) THEN Holes(a, h2, IF tail2 < m THEN tail2 ELSE 0) ELSE a} :
  LET v == f = "vecdot"
      b == IF v THEN Holes(SubSeq(b0 \o a, 1, m), h, IF tail < m THEN tail ELSE m) ELSE Holes(b0, h, tail) IN
  /\ hist' = Append(hist, [op |-> "fn", fn |-> f, how |-> IF v /\ how = "list" THEN "vec" ELSE how, a |-> a1, b |-> b, x |-> z, eps |-> IF f = "linspace" /\ e1 = None THEN "1/2" ELSE e1, eps2 |-> e2,
                           k |-> k])
  /\ UNCHANGED <<book, made>>

Sims == <<"own", "own", "arg", "decoy", "decoy2", "nosim">>
\* a size: relative to what the book has
Size(p, tkn, sells) ==
  LET t == Quoted(p.base, p.quote, tkn, "1", sells, mm)
      C == Curves(book, Eligible(book, t))
  IN TradeAmt(C, t.byT, RandomElement(1 .. 10), RPick(Fracs))
OrOne(x) == IF Pos(x) THEN x ELSE "1"

DoPrice ==
  \E p \in One(<<PEU, NoPair, NoPair>>) : \E sim \in One(Sims) : \E c \in One(<<"BID_BOOK", "ASK_BOOK", "BID", "ASK", "OFFER", "OFFER_BOOK", "BOTH">>) :
  \E tkn \in One(<<None, None, "ETH", "USDC">>) :
  \E size \in {OrOne(Size(PEU, IF tkn = None THEN "ETH" ELSE tkn, c \notin {"BID", "BID_BOOK"}))} :
  /\ hist' = Append(hist, [op |-> "price", pair |-> p, sim |-> sim, const |-> c, tkn |-> tkn, size |-> size])
  /\ UNCHANGED <<book, made>>

DoQuote ==
  \E p \in One(<<PEU, PUE, NoPair, NoPair>>) : \E sim \in One(Sims) : \E c \in One(<<"BID", "ASK", "BID", "ASK", "AMM_SELLS_BASETOKEN", "AMM_BUYS_BASETOKEN", "BOTH">>) :
  \E bad \in Flip(12) :
  \E size \in {OrOne(Size(PEU, IF p = PUE THEN "USDC" ELSE "ETH", c \in {"ASK", "AMM_SELLS_BASETOKEN"}))} :
  /\ hist' = Append(hist, [op |-> "trade", pair |-> p, sim |-> sim, const |-> c, size |-> size, badpair |-> bad])
  /\ UNCHANGED <<book, made>>

DoDepth ==
  \E p \in One(<<PEU, PEU, PUE>>) : \E sim \in One(<<"own", "arg", "decoy", "decoy2">>) : \E side \in One(<<"ask", "bid">>) :
  \E f \in One(<<"1/3", "1", "9/10", "2", "11/10">>), k \in One(<<3, 4, 7>>) :
  LET t == Quoted(p.base, p.quote, p.base, "1", side = "ask", mm)
      C == Curves(book, Eligible(book, t))
  IN /\ hist' = Append(hist, [op |-> "depth", pair |-> p, sim |-> sim, side |-> side, k |-> k,
                              xmax |-> IF DOMAIN C = {} THEN "10" ELSE Nice(RMul(RMax("1/100", Capacity(C, t.byT)), f))])
     /\ UNCHANGED <<book, made>>

DoApprox ==
  \E p \in One(<<PEU, PEU, PEU, PUE>>) : \E rev \in Flip(2) : \E purge \in Flip(2) : \E m \in {RandomElement(2 .. 12)} : \E how \in One(<<"list", "vec", "array">>) :
  \E lo \in One(<<"1/5", "1/2", "9/10", "1">>) :
  \E i \in {IF DOMAIN book = {} THEN -1 ELSE RandomElement(DOMAIN book)} : \E own \in Flip(2) :
  \E e \in One(<<"0", "0", "1", "1/2", "1/1000", "999/1000", "1/5000", "9999/10000", "-1/1000", "-1/2">>) : \E st \in One(<<"1/3", "1/20", "1/1000", "1/4000", "1", "1/100">>) :
  \* buckets over the whole market, or around some part of the range of an order
  LET local == own /\ i # -1 /\ ~book[i].dis /\ ~REq(book[i].ps, book[i].pe)
      olo == RMin(book[i].ps, book[i].pe)  w == RSub(RMax(book[i].ps, book[i].pe), olo)
      base == IF local THEN RMax(RAdd(olo, RMul(w, e)), RDiv(olo, "2")) ELSE RMul(Mid(p), lo) IN
  \E v \in Rising(m, IF local THEN RMul(w, st) ELSE RDiv(Mid(p), "12")) :
  /\ hist' = Append(hist, [op |-> "approx", pair |-> p, reverse |-> rev, purge |-> purge, how |-> how, prices |-> [k \in DOMAIN v |-> IF k = 1 THEN base ELSE RAdd(base, v[k - 1])]])
  /\ UNCHANGED <<book, made>>

AOp ==
  \E k \in {RandomElement(1 .. 20)} :
  IF PROFILE = "book" THEN (IF k <= 7 THEN DoFn ELSE DoBook)
  ELSE IF n <= (IF Crowd THEN 4 ELSE 3) \/ k = 1 THEN DoAdd
  ELSE IF PROFILE = "approx" THEN DoApprox
  ELSE CASE k <= 8 -> DoPrice [] k <= 18 -> DoQuote [] OTHER -> DoDepth

ANext ==
  /\ n <= Depth /\ n' = n + 1
  /\ IF n = 0 THEN ASetup ELSE AOp /\ UNCHANGED <<mm, dpair, mid>>
ASpec == Init /\ [][ANext]_vars
=============================================================================
