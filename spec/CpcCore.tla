------------------------------ MODULE CpcCore ------------------------------
(***************************************************************************)
(* Constant product curves with bounds, containers of them, and the trades *)
(* that bring a container to a common price (arbitrage).                   *)
(*                                                                         *)
(* A curve is a record with at least                                       *)
(*   k       the invariant        x       the (virtual) state, y = k/x     *)
(*   xa, ya  the actual amounts   tx, ty  the tokens on the two axes       *)
(* Prices are dy/dx.  The actual amounts can be sold, but not more: x never*)
(* falls below x - xa, nor y below y - ya.                                 *)
(***************************************************************************)
EXTENDS Rat, Naturals, Sequences, FiniteSets, TLC

None == "None"
Zero(a) == REq(a, "0")
Pos(a) == RGt(a, "0")
Inv(p) == RDiv("1", p)
Y(c) == RDiv(c.k, c.x)
P(c) == RDiv(c.k, RMul(c.x, c.x))

\* a bound on one side is where the other token has run out; without that there is none
XMin(c) == RSub(c.x, c.xa)
YMin(c) == RSub(Y(c), c.ya)
XMax(c) == IF Pos(YMin(c)) THEN RDiv(c.k, YMin(c)) ELSE None
YMax(c) == IF Pos(XMin(c)) THEN RDiv(c.k, XMin(c)) ELSE None
PMax(c) == IF Pos(XMin(c)) THEN RDiv(c.k, RMul(XMin(c), XMin(c))) ELSE None
PMin(c) == IF Pos(YMin(c)) THEN RDiv(RMul(YMin(c), YMin(c)), c.k) ELSE None

AtLeast(a, b) == IF b = None THEN a ELSE RMax(a, b)
AtMost(a, b)  == IF b = None THEN a ELSE RMin(a, b)

\* where the curve is when its price is p, or as close to it as its bounds allow: <<x, y>>
Free(c, p) == <<RSqrt(RDiv(c.k, p)), RSqrt(RMul(c.k, p))>>
AtPrice(c, p) ==
  LET f == Free(c, p) IN <<AtMost(RMax(f[1], XMin(c)), XMax(c)), AtMost(RMax(f[2], YMin(c)), YMax(c))>>
DAtPrice(c, p) == LET s == AtPrice(c, p) IN <<RSub(s[1], c.x), RSub(s[2], Y(c))>>

\* a trade: dx into (out of, if negative) the curve, at constant k
MovedX(c, dx) == [c EXCEPT !.x = RAdd(c.x, dx), !.xa = RAdd(c.xa, dx),
                           !.ya = RAdd(c.ya, RSub(RDiv(c.k, RAdd(c.x, dx)), Y(c)))]
MovedY(c, dy) == MovedX(c, RSub(RDiv(c.k, RAdd(Y(c), dy)), c.x))
CanX(c, dx) == Pos(RAdd(c.x, dx)) /\ LET n == MovedX(c, dx) IN RGe(n.xa, "0") /\ RGe(n.ya, "0")
CanY(c, dy) == Pos(RAdd(Y(c), dy)) /\ LET n == MovedY(c, dy) IN RGe(n.xa, "0") /\ RGe(n.ya, "0")
MovedTo(c, p) == MovedX(c, DAtPrice(c, p)[1])

\* the same curve, seen from the other token
Mirror(c) == [c EXCEPT !.x = Y(c), !.xa = c.ya, !.ya = c.xa, !.tx = c.ty, !.ty = c.tx]

Curve0(k, x, xa, ya) ==
  LET c == [k |-> k, x |-> x, xa |-> IF xa = None THEN x ELSE xa, ya |-> IF ya = None THEN RDiv(k, x) ELSE ya] IN c
\* liquidity k at price p, all of it between pmin and pmax
FromRange(k, p, pmin, pmax) ==
  LET x == RSqrt(RDiv(k, p))  y == RSqrt(RMul(k, p))
  IN Curve0(k, x, RSub(x, RSqrt(RDiv(k, pmax))), RSub(y, RSqrt(RMul(k, pmin))))
\* a Carbon order selling y: it can give y, and take back nothing; A and B are those of its curve
FromOrder(y, yint, A, B) ==
  LET kap == RDiv(RMul(yint, yint), RMul(A, A))
  IN Curve0(kap, RDiv(kap, RAdd(y, RDiv(RMul(yint, B), A))), "0", y)

-----------------------------------------------------------------------------
(* Pairs.  num: the rank of a (prettified) token among the numeraires, -1 if it is none; ord: its rank by name *)
Pair(c) == c.tx \o "/" \o c.ty
Primary(b, q, num, ord) ==
  LET nb == IF num[b] < 0 THEN 1000000 ELSE num[b]
      nq == IF num[q] < 0 THEN 1000000 ELSE num[q]
  IN IF nb = nq THEN ord[b] < ord[q] ELSE nq < nb
On(c, b, q) == (c.tx = b /\ c.ty = q) \/ (c.tx = q /\ c.ty = b)
\* the price of b in units of q on this curve
PriceIn(c, b) == IF c.tx = b THEN P(c) ELSE Inv(P(c))

RECURSIVE SumOf(_, _)
SumOf(F, n) == IF n = 0 THEN "0" ELSE RAdd(SumOf(F, n - 1), F[n])
SumSeq(s) == SumOf(s, Len(s))
Mean(s) == RDiv(SumSeq(s), Len(s))

\* simple mean of the prices in the primary direction
PriceOf(cs, b, q, num, ord) ==
  LET s == SelectSeq(cs, LAMBDA c : On(c, b, q))
      pb == IF Primary(b, q, num, ord) THEN b ELSE q
      m == Mean([i \in DOMAIN s |-> PriceIn(s[i], pb)])
  IN IF s = <<>> THEN None ELSE IF pb = b THEN m ELSE Inv(m)

\* mean of the prices weighted by sqrt k, of the curves which are not at a bound
NEAR == "1/1000000"
AtBound(c) == \/ (~Zero(XMin(c)) /\ RLt(RAbs(RSub(RDiv(c.x, XMin(c)), "1")), NEAR))
              \/ (XMax(c) # None /\ RLt(RAbs(RSub(RDiv(c.x, XMax(c)), "1")), NEAR))
EstimateOf(cs, b, q) ==
  LET s == SelectSeq(cs, LAMBDA c : On(c, b, q) /\ ~AtBound(c))
  IN IF b = q THEN "1" ELSE IF s = <<>> THEN None
     ELSE RDiv(SumSeq([i \in DOMAIN s |-> RMul(RSqrt(s[i].k), PriceIn(s[i], b))]), SumSeq([i \in DOMAIN s |-> RSqrt(s[i].k)]))

-----------------------------------------------------------------------------
(* Arbitrage.  pr: token -> its price in the target token *)
At(c, pr) == RDiv(pr[c.tx], pr[c.ty])
\* what flows into the curves (AMM perspective) of token t if all of them trade to these prices
Flow(cs, pr, t) ==
  SumSeq([i \in DOMAIN cs |-> LET d == DAtPrice(cs[i], At(cs[i], pr))
                              IN IF cs[i].tx = t THEN d[1] ELSE IF cs[i].ty = t THEN d[2] ELSE "0"])
\* trades (sequence of <<dx, dy>>): the net flow of token t
Net(cs, d, t) == SumSeq([i \in DOMAIN cs |-> IF cs[i].tx = t THEN d[i][1] ELSE IF cs[i].ty = t THEN d[i][2] ELSE "0"])
\* the least that can possibly flow into the curves, in the target token, if nothing else may flow: weak duality
Bound(cs, pr) == SumSeq([i \in DOMAIN cs |-> LET d == DAtPrice(cs[i], At(cs[i], pr))
                                             IN RAdd(RMul(pr[cs[i].tx], d[1]), RMul(pr[cs[i].ty], d[2]))])
Tokens(cs) == {cs[i].tx : i \in DOMAIN cs} \cup {cs[i].ty : i \in DOMAIN cs}

\* tokens and roughly what they are worth
Toks == <<"ETH-6Cc2", "USDC-eB48", "DAI-1d0F", "WBTC-C599", "LINK-86CA", "AAVE-DaE9", "USDC-1130", "SHIB-C4cE">>
Worth == [t \in {Toks[i] : i \in DOMAIN Toks} |->
           CASE t = "ETH-6Cc2" -> "2000" [] t = "WBTC-C599" -> "30000" [] t = "LINK-86CA" -> "7" [] t = "AAVE-DaE9" -> "70"
             [] t = "SHIB-C4cE" -> "1/100000" [] OTHER -> "1"]
Rel(b, q) == RDiv(Worth[b], Worth[q])
\* prices that are not worlds apart
Calm(s) == \A i \in DOMAIN s : LET f == RDiv(P(s[i]), Rel(s[i].tx, s[i].ty)) IN RLe(f, "2") /\ RGe(f, "1/2")
=============================================================================
