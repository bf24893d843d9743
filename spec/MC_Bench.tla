------------------------------ MODULE MC_Bench ------------------------------
(* Exhaustive check of the contract arithmetic in small words. *)
EXTENDS BenchCore
CONSTANTS MaxA, Step

VARIABLES c, x
vars == <<c, x>>
Num(k) == RCanon(k)
N(S) == {Num(k) : k \in S}
Amts == N({k \in 0 .. 15 : k % Step = 0 \/ k \in {0, 1, 2, 7, 15}})
Roots == N({k \in 0 .. MaxA : k <= 2 \/ k % (2 * Step) = 1})

Init == /\ c \in [y : Amts, z : Amts, A : Roots, B : Roots] /\ RLe(c.y, c.z)
        /\ x \in Amts
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

SourceOK == SrcOK(c, x, QuoteSrc(c, x))
TargetOK == TrgOK(c, x, QuoteTrg(c, x))
\* the exact amounts are those of the curve, and inverse to each other
ExactOK == ~Zero(c.z) /\ Pos(TT(c)) =>
  /\ REq(ExactSrc(c, x), DyFromDx(AsCurve(c), x))
  /\ RLt(x, c.y) => /\ REq(ExactTrg(c, x), DxFromDy(AsCurve(c), x))
                    /\ REq(ExactSrc(c, ExactTrg(c, x)), x)
\* buying what was quoted for x yields at least x, and no more than x was quoted for what it costs
NoFreeLunch == LET t == QuoteTrg(c, x) IN
  /\ RLe(x, c.y) /\ ~TrgOverflow(c, x) /\ RLe(ExactTrg(c, x), MAXW) => RGe(RMul(t, "1"), ExactTrg(c, x))
  /\ LET s == QuoteSrc(c, x) IN Pos(s) /\ RLe(s, c.y) /\ ~TrgOverflow(c, s) => RLe(ExactTrg(c, s), x)
Floats == LET f == RAdd(x, RMul(c.y, ONE)) IN REq(DecodeFloat(f), RMul(RSub(x, RMul(RFloor(RDiv(x, ONE)), ONE)), RPow("2", RToInt(RAdd(c.y, RFloor(RDiv(x, ONE)))))))
=============================================================================
