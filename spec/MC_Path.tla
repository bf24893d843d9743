------------------------------ MODULE MC_Path -------------------------------
(***************************************************************************)
(* Model checking of PathCore: portfolios of strategies along every path   *)
(* of a few spot prices.                                                   *)
(***************************************************************************)
EXTENDS PathCore

CONSTANT MaxSteps
VARIABLES book, old, spot, last, n      \* old: the book before the last move; last: the spot price before it
vars == <<book, old, spot, last, n>>

R == "RSK"
C == "CSH"
Get(r) == r.s
Amts(s, a, c) == [s EXCEPT !.ar = a, !.ac = c]
\* roots of all prices are rational; the ranges of one portfolio do not overlap unless it is in Overlapping
A1 == Get(Make(Amts(Plain("121", "144", "100", "81"), "10", "900")))
A2 == Get(Make([Amts(Plain("400/3", "1600/9", "225/4", "49"), "3", "100") EXCEPT !.ys = "5", !.yb = "150"]))
A3 == Get(Make([Amts(Plain("121", "169", "100", "64"), "1", "0") EXCEPT !.psm = "144"]))
A4 == Get(U3("81", "144", TRUE, "1080", None, None, None))
A5 == Get(Make(Amts(Plain("121", "121", "100", "100"), "2", "50")))
Separate == {<<A1>>, <<A3>>, <<A5>>, <<A1, A3>>, <<A1, A5, A2>>}
Portfolios == Separate \cup {<<A4>>}
Prices == {"49", "81", "361/4", "100", "441/4", "121", "529/4", "144", "196"}
Spots  == {"441/4"}

Init == /\ \E p \in Portfolios : book = StartBook(p) /\ Runnable(p)
        /\ old = book /\ spot = "441/4" /\ last = spot /\ n = 0
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \E p \in Prices : spot' = p /\ last' = spot /\ old' = book /\ book' = Step(book, p)
Spec == Init /\ [][Next]_vars

Bounded == \A i \in DOMAIN book : RGe(book[i].y, "0") /\ RLe(book[i].y, book[i].z)

\* whoever trades against the strategies at the new spot price does not lose by it
NoGift == RLe(Worth(book, R, C, spot), Worth(old, R, C, spot))

\* after a move no order is left with a better price than the spot
Settled == n > 0 => \A i \in DOMAIN book : LET r == O!TradeToOutcome(book[i], spot) IN ~r.ok \/ Zero(r.dy)
Idempotent == n > 0 => Step(book, spot) = book

\* a rising price only sells rsk, a falling one only buys it; a path that comes back does not lose
Calm(b, p) == Step(b, p) = b             \* (a portfolio can start with prices better than the spot)
Direction == n > 0 /\ Calm(old, last) =>
   /\ RGe(spot, last) => RLe(Amount(book, R), Amount(old, R)) /\ RGe(Amount(book, C), Amount(old, C))
   /\ RLe(spot, last) => RGe(Amount(book, R), Amount(old, R)) /\ RLe(Amount(book, C), Amount(old, C))

\* prices in other units make no difference
Scale(b, f) == [i \in DOMAIN b |->
  IF b[i].tkn = C THEN [b[i] EXCEPT !.B = RMul(@, RSqrt(f)), !.S = RMul(@, RSqrt(f)), !.y = RMul(@, f), !.z = RMul(@, f)]
  ELSE [b[i] EXCEPT !.B = RDiv(@, RSqrt(f)), !.S = RDiv(@, RSqrt(f))]]
\* (up to dust, which is an absolute amount)
UnitFree == \A p \in {"81", "441/4", "144"} :
  LET a == Step(Scale(book, "4"), RMul("4", p))  b == Scale(Step(book, p), "4")
  IN \A i \in DOMAIN book : RNear(a[i].y, b[i].y, "0", "1/100000000") /\ RNear(a[i].z, b[i].z, "0", "1/100000000")

\* a price on the way makes no difference if the price does not turn (the ranges are crossed once)
OnTheWay == \A p \in Prices : \A q \in {"121", "100"} :
   Calm(book, spot) /\ ((RLe(spot, p) /\ RLe(p, q)) \/ (RGe(spot, p) /\ RGe(p, q))) =>
      LET a == Step(Step(book, p), q)  b == Step(book, q)
      IN \A i \in DOMAIN book : RNear(a[i].y, b[i].y, "1/1000000000000", "0")
=============================================================================
