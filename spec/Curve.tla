------------------------------- MODULE Curve -------------------------------
(***************************************************************************)
(* The Carbon bonding curve, exactly.                                      *)
(*                                                                         *)
(* A curve is a record with at least                                       *)
(*    B  square root of the lowest  raw price (dy/dx) of the range         *)
(*    S  square root of the highest raw price minus B   (S >= 0)           *)
(*    z  capacity (y intercept)                                            *)
(*    y  balance,  0 <= y <= z                                             *)
(* All numbers are exact rationals (module Rat).  y is the token sold, x   *)
(* the token received.  The square root of the raw marginal price is       *)
(* linear in the balance: m = B + S*y/z.                                   *)
(***************************************************************************)
EXTENDS Rat, Naturals, Sequences, FiniteSets, TLC

\* Results longer than 600 bits are rounded to a relative precision of 2^-200 (RTrim), far below
\* every tolerance used anywhere; on the models checked exhaustively nothing is that long.

RECURSIVE RSumF(_, _)                  \* sum of f[k] over k in K
RSumF(f, K) == IF K = {} THEN "0"
               ELSE LET k == CHOOSE k \in K : TRUE
                    IN  RAdd(f[k], RSumF(f, K \ {k}))

RECURSIVE RSumS(_)                     \* sum of a sequence
RSumS(s) == IF s = <<>> THEN "0" ELSE RAdd(Head(s), RSumS(Tail(s)))

Pos(a)  == RGt(a, "0")
Zero(a) == REq(a, "0")

Flat(c)  == Zero(c.S)
Top(c)   == RAdd(c.B, c.S)                                  \* root of the start price
Marg(c)  == IF Zero(c.z) THEN Top(c) ELSE RTrim(RAdd(c.B, RDiv(RMul(c.S, c.y), c.z)))
MargP(c) == RMul(Marg(c), Marg(c))                          \* raw marginal price dy/dx

\* the amount of x received for selling dy, and the inverse function
DxFromDy(c, dy) ==
  LET q == RAdd(RMul(c.S, c.y), RMul(c.B, c.z))
  IN  RTrim(RDiv(RMul(dy, RMul(c.z, c.z)), RMul(q, RSub(q, RMul(c.S, dy)))))
DyFromDx(c, dx) ==
  LET q == RAdd(RMul(c.S, c.y), RMul(c.B, c.z))
  IN  RTrim(RDiv(RMul(dx, RMul(q, q)), RAdd(RMul(RMul(c.S, dx), q), RMul(c.z, c.z))))

After(c, dy) == [c EXCEPT !.y = RSub(@, dy)]
DrainX(c) == IF Zero(c.y) THEN "0" ELSE DxFromDy(c, c.y)    \* x needed to buy all of y

\* balance at which the marginal price root is m (within 0 .. y)
YAt(c, m) == LET t == RTrim(RDiv(RMul(c.z, RSub(m, c.B)), c.S))
             IN  RMax("0", RMin(c.y, t))

(***************************************************************************)
(* Optimal matching: water filling over the common marginal price.         *)
(* C is a function from ids to curves with y > 0.  A trade that moves the  *)
(* market to the level m sells, on each curve, everything above m.  A flat *)
(* curve (S = 0) sells nothing while m > B, everything while m < B, and    *)
(* any part of its balance at m = B.                                       *)
(***************************************************************************)
SoldLo(c, m) == IF Flat(c) THEN (IF RGt(c.B, m) THEN c.y ELSE "0") ELSE RSub(c.y, YAt(c, m))
SoldHi(c, m) == IF Flat(c) THEN (IF RGe(c.B, m) THEN c.y ELSE "0") ELSE RSub(c.y, YAt(c, m))

Qty(c, dy, byTarget) == IF byTarget THEN dy ELSE (IF Zero(dy) THEN "0" ELSE DxFromDy(c, dy))

MktLo(C, m, t) == RSumF([i \in DOMAIN C |-> Qty(C[i], SoldLo(C[i], m), t)], DOMAIN C)
MktHi(C, m, t) == RSumF([i \in DOMAIN C |-> Qty(C[i], SoldHi(C[i], m), t)], DOMAIN C)

Capacity(C, t) == RSumF([i \in DOMAIN C |-> Qty(C[i], C[i].y, t)], DOMAIN C)

Levels(C) == UNION {{Marg(C[i]), C[i].B} : i \in DOMAIN C}

\* the market level at which exactly amt is matched (0 < amt <= Capacity); between two
\* neighbouring break points the amount is linear in m (by target) or in 1/m (by source)
OptLevel(C, amt, t) ==
  LET L == Levels(C)
      lo == [b \in L |-> MktLo(C, b, t)]
      hi == [b \in L |-> MktHi(C, b, t)]
      at == {b \in L : RLe(lo[b], amt) /\ RLe(amt, hi[b])}
  IN  IF at # {} THEN CHOOSE b \in at : \A c \in at : RGe(b, c)
      ELSE LET up == CHOOSE b \in L : RLt(hi[b], amt) /\ \A c \in L : RLt(hi[c], amt) => RGe(c, b)
               dn == CHOOSE b \in L : RGt(lo[b], amt) /\ \A c \in L : RGt(lo[c], amt) => RLe(c, b)
               f  == RDiv(RSub(amt, hi[up]), RSub(lo[dn], hi[up]))
           IN  IF t THEN RSub(up, RMul(f, RSub(up, dn)))
               ELSE LET u == RDiv("1", up)  v == RDiv("1", dn)
                    IN  RDiv("1", RAdd(u, RMul(f, RSub(v, u))))

=============================================================================
