----------------------------- MODULE OrderCore -----------------------------
(***************************************************************************)
(* A single Carbon order as CarbonOrderUI presents it: the curve functions *)
(* and the four operations that move it along its curve.  An order is a    *)
(* curve (B, S, z, y) with the token sold (tkn) and the pair (base, quote) *)
(* in whose convention prices are quoted.  The operators are exact.        *)
(***************************************************************************)
EXTENDS Curve

None == "None"
DUST == "1/10000000000"                        \* 1e-10: smaller amounts are not traded

\* raw price (dy/dx) <-> price in the convention of the pair (an involution)
Quoted(o, raw) == IF o.tkn = o.quote THEN raw ELSE RDiv("1", raw)

Disabled(o) == Zero(o.B) /\ Zero(o.S)
PLow(o)  == RMul(o.B, o.B)                     \* raw price at the end (y = 0)
PHigh(o) == RMul(Top(o), Top(o))               \* raw price at the start (y = z)

\* x on the invariant curve at balance y, and the inverse; x = 0 at y = z
XAt(o, y) == RDiv(RMul(o.z, RSub(o.z, y)), RMul(Top(o), RAdd(RMul(o.B, o.z), RMul(o.S, y))))
XInt(o)   == XAt(o, "0")
YOfX(o, x) == RDiv(RMul(o.z, RSub(o.z, RMul(RMul(o.B, Top(o)), x))), RAdd(o.z, RMul(RMul(o.S, Top(o)), x)))

\* positive as long as the amount dx (negative: to be paid out) does not exceed what the extended curve has
BuyDenominator(o, dx) == RAdd(RMul(o.z, o.z), RMul(RMul(o.S, dx), RAdd(RMul(o.S, o.y), RMul(o.B, o.z))))

\* raw marginal price at balance y
PAt(o, y) == LET m == RAdd(o.B, RDiv(RMul(o.S, y), o.z)) IN RMul(m, m)

(* Trading.  An outcome is [ok, y, z, dy, dx]: the new balance and capacity, the amount sold and the amount
   received.  A trade that sells a negative amount (the order buys back) may go beyond the capacity if that is
   allowed (expand): it takes place on the curve as it is, which is expanded to the balance reached afterwards. *)
Refused(o) == [ok |-> FALSE, y |-> o.y, z |-> o.z, dy |-> "0", dx |-> "0"]
Nothing(o) == [ok |-> TRUE, y |-> o.y, z |-> o.z, dy |-> "0", dx |-> "0"]

SellOutcomeX(o, dy, allowneg, expand) ==
  IF Disabled(o) \/ Zero(o.z) THEN Refused(o)
  ELSE IF RLt(dy, "0") /\ ~allowneg /\ RLe(dy, RNeg(DUST)) THEN Refused(o)
  ELSE IF RLt(RAbs(dy), DUST) THEN Nothing(o)
  ELSE IF RLt(o.y, dy) \/ (RGt(RSub(o.y, dy), o.z) /\ ~expand) THEN Refused(o)
  ELSE [ok |-> TRUE, y |-> RSub(o.y, dy), z |-> RMax(o.z, RSub(o.y, dy)), dy |-> dy, dx |-> DxFromDy(o, dy)]
SellOutcome(o, dy, allowneg) == SellOutcomeX(o, dy, allowneg, FALSE)

\* receiving dx; the x coordinate of the curve cannot go below 0
\* (or, if the curve may be expanded, not below the asymptote)
BuyOutcomeX(o, dx, allowneg, expand) ==
  IF Disabled(o) \/ Zero(o.z) \/ (~expand /\ RLt(RAdd(XAt(o, o.y), dx), "0"))
     \/ ~Pos(BuyDenominator(o, dx)) THEN Refused(o)
  ELSE SellOutcomeX(o, DyFromDx(o, dx), allowneg, expand)
BuyOutcome(o, dx, allowneg) == BuyOutcomeX(o, dx, allowneg, FALSE)

\* selling until the marginal price is p (in the convention of the pair); never trades backwards
RootOf(o, p) == RSqrt(Quoted(o, p))
TradeToOutcome(o, p) ==
  LET r == Quoted(o, p)
  IN IF Disabled(o) THEN Refused(o)
     ELSE IF Zero(o.z) \/ RGe(r, PAt(o, o.y)) THEN Nothing(o)
     ELSE IF RLe(r, PLow(o)) THEN SellOutcome(o, o.y, FALSE)
     ELSE SellOutcome(o, RSub(o.y, YAt(o, RootOf(o, p))), FALSE)

\* what the order linked to a seller receives; capacity grows if it must
Credit(o, dx) == [o EXCEPT !.y = RAdd(@, dx), !.z = RMax(@, RAdd(o.y, dx))]

(* the share of the price range that lies in [p1, p2] *)
Share(lo, hi, p1, p2) ==
  LET a == RMax(lo, RMin(p1, p2))  b == RMin(hi, RMax(p1, p2))
  IN IF RLe(b, a) THEN "0" ELSE RDiv(RSub(b, a), RSub(hi, lo))
=============================================================================
