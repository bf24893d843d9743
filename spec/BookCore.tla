------------------------------ MODULE BookCore ------------------------------
(***************************************************************************)
(* Orders as the matchers see them (class Order), in every way in which    *)
(* one can be described, and books of orders read from files.              *)
(*                                                                         *)
(* A description is a record with (None where it is left out)              *)
(*   B, S         roots of the lowest raw price, and of the range          *)
(*   lo, hi       the two ends of the price range, in either order         *)
(*   z            capacity; D: the same, by its other name                 *)
(*   pm           marginal price (determines the capacity)                 *)
(*   y            balance                                                  *)
(*   rev          whether prices are the reciprocals                       *)
(* What it describes is a curve (B, S, z, y).                              *)
(***************************************************************************)
EXTENDS Curve

None == "None"
Got(v) == v # None

HasRoots(d)  == Got(d.B) /\ Got(d.S)
HasPrices(d) == Got(d.lo) /\ Got(d.hi)
Described(d) == Got(d.y) /\ (HasRoots(d) \/ HasPrices(d))

\* (B, S) lead, where both are given; then prices
RootLo(d) == IF HasRoots(d) THEN d.B ELSE RSqrt(RMin(d.lo, d.hi))
RootHi(d) == IF HasRoots(d) THEN RAdd(d.B, d.S) ELSE RSqrt(RMax(d.lo, d.hi))
CapacityOf(d) ==
  IF Got(d.z) THEN d.z
  ELSE IF Got(d.pm) THEN RDiv(RMul(d.y, RSub(RootHi(d), RootLo(d))), RSub(RSqrt(d.pm), RootLo(d)))
  ELSE IF Got(d.D) THEN d.D ELSE d.y
CurveOf(d) == [B |-> RootLo(d), S |-> RSub(RootHi(d), RootLo(d)), z |-> CapacityOf(d), y |-> d.y, rev |-> d.rev /\ HasRoots(d)]

PriceLo(c) == IF c.rev THEN RDiv("1", RMul(Top(c), Top(c))) ELSE RMul(c.B, c.B)
PriceHi(c) == IF c.rev THEN RDiv("1", RMul(c.B, c.B)) ELSE RMul(Top(c), Top(c))

(* The shape of the curve: a hyperbola (n x + x0 (1-n)) (n y + y0 (1-n)) = x0 y0 through (0, z), with p = y0 / x0 the
   geometric mean of the ends of the range and n the concentration: 0 for a fixed price, 1 for an unbounded range.  *)
Mean(c)  == IF c.rev THEN RDiv("1", RMul(c.B, Top(c))) ELSE RMul(c.B, Top(c))
Conc(c)  == RSub("1", RSqrt(RDiv(c.B, Top(c))))
Y0(c)    == LET m == RSub("1", Conc(c)) IN RTrim(RDiv(RMul(c.z, m), RAdd("1", m)))
X0(c)    == RTrim(RDiv(Y0(c), Mean(c)))
KofC(c)  == RTrim(RMul(X0(c), Y0(c)))
XofC(c)  == RDiv(RMul(c.z, RSub(c.z, c.y)), RMul(Top(c), RAdd(RMul(c.B, c.z), RMul(c.S, c.y))))   \* the amount received on the way from z to y
Law(c, x) == LET n == Conc(c)  m == RSub("1", n)
             IN RMul(RAdd(RMul(n, x), RMul(X0(c), m)), RAdd(RMul(n, c.y), RMul(Y0(c), m)))

(* A file: a sequence of descriptions with B, S, z, y only (json), or of ranges and capacities (csv): a csv order is full. *)
DefaultCount == 10
RowOf(r, kind) == IF kind = "csv" THEN [B |-> None, S |-> None, lo |-> r.lo, hi |-> r.hi, z |-> r.z, D |-> None, pm |-> None, y |-> r.z, rev |-> FALSE]
                  ELSE [B |-> r.B, S |-> r.S, lo |-> None, hi |-> None, z |-> r.z, D |-> None, pm |-> None, y |-> r.y, rev |-> FALSE]
BookOf(recs, kind, limit) ==
  LET m == IF kind = "csv" THEN Len(recs) ELSE IF limit = 0 THEN DefaultCount ELSE limit
      k == IF m < Len(recs) THEN m ELSE Len(recs)
  IN [i \in 1 .. k |-> CurveOf(RowOf(recs[i], kind))]
=============================================================================
