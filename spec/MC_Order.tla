------------------------------ MODULE MC_Order ------------------------------
(***************************************************************************)
(* Model checking of OrderCore: a strategy of two linked orders, traded    *)
(* against, moved to prices and topped up in every order.                  *)
(***************************************************************************)
EXTENDS OrderCore

CONSTANT MaxOps
VARIABLES a, b, last, n         \* the two orders, the last step
vars == <<a, b, last, n>>

\* a sells USDC (quote), b sells ETH (base); raw prices of a are USDC per ETH, those of b ETH per USDC
As == {[tkn |-> "USDC", base |-> "ETH", quote |-> "USDC", B |-> "2", S |-> s, z |-> z, y |-> y] :
        s \in {"0", "1", "3"}, z \in {"12", "20"}, y \in {"0", "5", "12"}}
Bs == {[tkn |-> "ETH", base |-> "ETH", quote |-> "USDC", B |-> "1/6", S |-> s, z |-> z, y |-> "2"] :
        s \in {"0", "1/30", "1/12"}, z \in {"2", "4"}}

Init == /\ a \in As /\ b \in Bs
        /\ last = [op |-> "init", o |-> a, r |-> Nothing(a), arg |-> "0"] /\ n = 0

\* order x trades with outcome r; its linked order y is credited
Move(x, y, r) == IF ~r.ok \/ RLt(r.dx, "0") THEN <<x, y>> ELSE <<[x EXCEPT !.y = r.y], Credit(y, r.dx)>>

Do(op, arg, selfA, r) ==
  /\ last' = [op |-> op, o |-> IF selfA THEN a ELSE b, r |-> r, arg |-> arg]
  /\ LET m == IF selfA THEN Move(a, b, r) ELSE Move(b, a, r)
     IN IF selfA THEN a' = m[1] /\ b' = m[2] ELSE b' = m[1] /\ a' = m[2]

Amounts == {"1/2", "1", "5", "-1"}
Prices  == {"4", "9", "25/4", "16", "25", "36", "100/9", "225/16"}         \* rational roots

Next ==
  /\ n < MaxOps /\ n' = n + 1
  /\ \E selfA \in BOOLEAN :
       LET o == IF selfA THEN a ELSE b IN
       \/ \E d \in Amounts : Do("sell", d, selfA, SellOutcome(o, d, TRUE))
       \/ \E d \in Amounts : Do("buy", d, selfA, BuyOutcome(o, d, TRUE))
       \/ \E p \in Prices  : Do("to", p, selfA, TradeToOutcome(o, p))
       \/ Do("all", o.y, selfA, SellOutcome(o, o.y, FALSE))

Spec == Init /\ [][Next]_vars

Both == {a, b}
Bounded == \A o \in Both : RGe(o.y, "0") /\ RLe(o.y, o.z)

\* the point (x, y) stays on the invariant curve: received amounts are differences of the x coordinate
OnCurve == (last.op # "init" /\ last.r.ok) =>
   REq(last.r.dx, RSub(XAt(last.o, last.r.y), XAt(last.o, last.o.y)))

\* the average price of a trade lies between the marginal prices before and after
AvgBetween == (last.r.ok /\ Pos(last.r.dy)) =>
   LET p == RDiv(last.r.dy, last.r.dx)
   IN RGe(PAt(last.o, last.o.y), p) /\ RGe(p, PAt(last.o, last.r.y))

PriceInRange == \A o \in Both : Pos(o.z) => RGe(PAt(o, o.y), PLow(o)) /\ RLe(PAt(o, o.y), PHigh(o))

\* trading to a price reaches it, or the end of what the order can do
Reaches == (last.op = "to" /\ last.r.ok /\ ~Zero(last.o.z)) =>
   LET r == Quoted(last.o, last.arg)
       p == PAt(last.o, last.r.y)
       before == PAt(last.o, last.o.y)
   IN  \/ RGe(r, before) /\ REq(last.r.y, last.o.y)
       \/ RLe(r, PLow(last.o)) /\ Zero(last.r.y)
       \/ REq(p, r) /\ RLt(r, before)

\* splitting a trade changes nothing, and selling then buying back is a round trip
Splits == \A o \in Both : \A f \in {"1/3", "1/2"} : ~Zero(o.y) =>
   LET d1 == RMul(o.y, f)  o1 == After(o, d1)  d2 == RSub(o.y, d1)
   IN /\ REq(RAdd(DxFromDy(o, d1), DxFromDy(o1, d2)), DxFromDy(o, o.y))
      /\ REq(DyFromDx(o, DxFromDy(o, d1)), d1)
      /\ REq(DxFromDy(o1, RNeg(d1)), RNeg(DxFromDy(o, d1)))
      /\ REq(YOfX(o, XAt(o, d1)), d1)

\* no trade gives x for nothing: crediting never reduces, and dy > 0 iff dx > 0
NoFreeLunch == last.r.ok => (Pos(last.r.dy) <=> Pos(last.r.dx)) /\ (RLt(last.r.dy, "0") <=> RLt(last.r.dx, "0"))

\* the share of a range is additive and covers the range once
ShareOK == \A m \in {"1", "3/2", "2", "5"} :
   /\ REq(RAdd(Share("1", "2", "0", m), Share("1", "2", m, "10")), "1")
   /\ REq(Share("1", "2", m, "10"), Share("1", "2", "10", m))
=============================================================================
