------------------------------ MODULE BenchCore -----------------------------
(***************************************************************************)
(* The contract arithmetic of an order, and the matching of a list of      *)
(* orders.                                                                 *)
(*                                                                         *)
(* The contract stores an order as four integers [y, z, A, B]: balance,    *)
(* capacity, and A = S*ONE, B = B*ONE (the roots of the price range, see   *)
(* Curve).  Quotes are computed in words of limited size.  What a quote    *)
(* may be is specified by bounds around the exact amount; the algorithm    *)
(* used is transcribed at the end, and MC_Bench shows, with small words,   *)
(* that it satisfies them.                                                 *)
(***************************************************************************)
EXTENDS Curve, Integers

CONSTANTS ONE, MAXW, MAXWW            \* scale; greatest amount; greatest intermediate result

Sq(a) == RMul(a, a)
TT(c) == RAdd(RMul(c.A, c.y), RMul(c.B, c.z))          \* root of the marginal price, times z*ONE
ZZ(c) == RMul(c.z, ONE)
AsCurve(c) == [B |-> RDiv(c.B, ONE), S |-> RDiv(c.A, ONE), y |-> c.y, z |-> c.z]

Fits(a) == RLe(a, MAXWW)

\* exact amount bought for x, sold for the purchase of x
ExactSrc(c, x) == IF Zero(c.A) THEN RMul(x, RDiv(Sq(c.B), Sq(ONE)))
                  ELSE RDiv(RMul(x, Sq(TT(c))), RAdd(RMul(c.A, RMul(x, TT(c))), Sq(ZZ(c))))
ExactTrg(c, x) == IF Zero(c.A) THEN RDiv(RMul(x, Sq(ONE)), Sq(c.B))
                  ELSE RDiv(RMul(x, Sq(ZZ(c))), RMul(TT(c), RSub(TT(c), RMul(c.A, x))))

\* scaling needed for products to fit
Scale(a) == RCeil(RDiv(a, MAXWW))

SrcOverflow(c, x) ==
  \/ RLt(x, "0")
  \/ Zero(c.A) /\ ~(Fits(Sq(c.B)) /\ Fits(Sq(ONE)))
  \/ ~Zero(c.A) /\ (Zero(c.z) \/ ~(Fits(ZZ(c)) /\ Fits(TT(c)) /\ Fits(RMul(TT(c), x))))

\* t is an acceptable quote for selling x to the order: never more than the exact amount
SrcLow(c, x) ==
  IF Zero(c.A) THEN RFloor(ExactSrc(c, x))
  ELSE LET T == TT(c)  Z2 == Sq(ZZ(c))  P == RMul(T, x)  N == RAdd(Z2, RMul(P, c.A))
       IN IF Fits(N) THEN RFloor(ExactSrc(c, x))
          ELSE LET F == RMax(Scale(Z2), Scale(RMul(P, c.A)))
                   l1 == RSub(RDiv(RMul(T, RSub(P, F)), RAdd(N, RMul("2", F))), "1")
                   l2 == IF Zero(P) THEN "0" ELSE RSub(RDiv(T, RAdd(RAdd(c.A, RDiv(Z2, P)), "1")), "2")
               IN RMax("0", RMin(l1, l2))
SrcOK(c, x, t) ==
  IF SrcOverflow(c, x) THEN t = "0"
  ELSE IF RGt(SrcLow(c, x), MAXW) THEN t = "0"
  ELSE /\ RIsInt(t) /\ RLe("0", t) /\ RLe(t, MAXW)
       /\ RLe(t, ExactSrc(c, x))
       /\ RGe(t, SrcLow(c, x)) \/ (t = "0" /\ RGt(ExactSrc(c, x), MAXW))

TrgOverflow(c, x) ==
  \/ RLt(x, "0")
  \/ Zero(c.A) /\ (Zero(c.B) \/ ~(Fits(Sq(c.B)) /\ Fits(Sq(ONE))))
  \/ ~Zero(c.A) /\ (~(Fits(ZZ(c)) /\ Fits(TT(c))) \/ RLe(RSub(TT(c), RMul(c.A, x)), "0"))

\* greatest acceptable quote for buying x from the order ("nan" if there is no limit)
TrgHigh(c, x) ==
  IF Zero(c.A) THEN RCeil(ExactTrg(c, x))
  ELSE LET Z2 == Sq(ZZ(c))  D == RMul(TT(c), RSub(TT(c), RMul(c.A, x)))
       IN IF Fits(Z2) /\ Fits(D) THEN RCeil(ExactTrg(c, x))
          ELSE LET F == RMax(Scale(Z2), Scale(D))
               IN IF RGt(D, F) THEN RAdd(RDiv(RMul(x, RAdd(Z2, F)), RSub(D, F)), "1") ELSE "nan"
TrgOK(c, x, t) ==
  IF TrgOverflow(c, x) THEN t = MAXW
  ELSE IF RGt(ExactTrg(c, x), MAXW) THEN t = MAXW
  ELSE /\ RIsInt(t) /\ RLe(t, MAXW)
       /\ RGe(t, ExactTrg(c, x))
       /\ LET h == TrgHigh(c, x) IN h = "nan" \/ RGe(h, RMin(t, MAXW)) \/ (t = MAXW /\ RGt(h, MAXW))

(* Compact floating point numbers: a mantissa below ONE and an exponent. *)
DecodeFloat(f) == LET e == RFloor(RDiv(f, ONE)) IN RMul(RSub(f, RMul(e, ONE)), RPow("2", RToInt(e)))

(***************************************************************************)
(* Matching.  A quote (in, out) of an order for an amount is its trade, cut*)
(* down to its balance.  c is the order, amt the amount; by source, in is  *)
(* paid to the order and out bought, by target the other way round.        *)
(***************************************************************************)
QuoteOK(c, amt, side, in, out) ==
  IF side = "target"
  THEN in = RMin(amt, c.y) /\ TrgOK(c, in, out)
  ELSE /\ RLe(in, amt) /\ RLe(out, c.y) /\ SrcOK(c, in, out)
       /\ \/ in = amt
          \/ \* cut down: the order is as good as drained
             LET d == ExactTrg(c, c.y) IN RGe(in, RSub(RFloor(d), "1")) /\ RLe(in, RCeil(d))

Better(side, p, q) ==                          \* quote p has a better price than q
  IF side = "source" THEN RGt(RMul(p.out, q.in), RMul(q.out, p.in))
                     ELSE RLt(RMul(p.out, q.in), RMul(q.out, p.in))
Useful(q) == RGt(q.in, "0") /\ RGt(q.out, "0")

(***************************************************************************)
(* The algorithms in words of limited size ("none": overflow).             *)
(***************************************************************************)
W(a) == IF RIsNum(a) /\ RLe("0", a) /\ Fits(a) THEN a ELSE "nan"
DivF(a, b, c) == W(RFloor(RDiv(RMul(a, b), c)))
DivC(a, b, c) == W(RCeil(RDiv(RMul(a, b), c)))
Amt(a, fallback) == IF RIsNum(a) /\ RLe("0", a) /\ RLe(a, MAXW) THEN a ELSE fallback

AlgSrc(c, x) ==
  IF Zero(c.A) THEN DivF(x, W(Sq(c.B)), W(Sq(ONE)))
  ELSE LET t1 == W(ZZ(c))
           t2 == W(RAdd(W(RMul(c.y, c.A)), W(RMul(c.z, c.B))))
           t3 == W(RMul(t2, x))
           F == RMax(DivC(t1, t1, MAXWW), DivC(t3, c.A, MAXWW))
           t4 == DivC(t1, t1, F)
           t5 == DivC(t3, c.A, F)
           s == RAdd(t4, t5)
       IN IF ~RIsNum(s) THEN "nan"
          ELSE IF Fits(s) THEN DivF(t2, RFloor(RDiv(t3, F)), s)
          ELSE RFloor(RDiv(t2, W(RAdd(c.A, DivC(t1, t1, t3)))))
QuoteSrc(c, x) == Amt(AlgSrc(c, x), "0")

AlgTrg(c, x) ==
  IF Zero(c.A) THEN DivC(x, W(Sq(ONE)), W(Sq(c.B)))
  ELSE LET t1 == W(ZZ(c))
           t2 == W(RAdd(W(RMul(c.y, c.A)), W(RMul(c.z, c.B))))
           t3 == W(RSub(t2, W(RMul(x, c.A))))
           F == RMax(DivC(t1, t1, MAXWW), DivC(t2, t3, MAXWW))
       IN DivC(x, DivC(t1, t1, F), DivF(t2, t3, F))
QuoteTrg(c, x) == Amt(AlgTrg(c, x), MAXW)
=============================================================================
