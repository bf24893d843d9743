------------------------------ MODULE PathCore ------------------------------
(***************************************************************************)
(* Strategies as bundles of parameters, and what happens to them when the  *)
(* spot price moves along a path.                                          *)
(*                                                                         *)
(* A strategy is a record                                                  *)
(*   psa, psb   start and end of the range in which it sells rsk           *)
(*   pba, pbb   start and end of the range in which it buys rsk            *)
(*   ar, ac     amounts of rsk and csh (or "None": to be filled in later)  *)
(*   psm, pbm   marginal prices     ys, yb   capacities    (or "None")     *)
(*   rsk, csh   the tokens          rescale  whether it may be rescaled    *)
(*   fctr       the factor by which it was rescaled, or "None"             *)
(* A constructor with arguments that make no sense yields Refusal.         *)
(***************************************************************************)
EXTENDS SimCore
O == INSTANCE OrderCore

Refusal == [ok |-> FALSE]
MINSEED == "1/10000000000"
NARROW  == "1/10000"                     \* a gap or a width of 0 is taken as this
MAXUTIL == "999/1000"

Seed(a) == IF a # None /\ Zero(a) THEN MINSEED ELSE a
Name(t, d) == IF t = None THEN d ELSE t

\* every strategy comes into being here
Make(s) ==
  IF (s.psm # None \/ s.pbm # None) /\ (s.ys # None \/ s.yb # None) THEN Refusal
  ELSE [ok |-> TRUE, s |-> [s EXCEPT !.ar = Seed(@), !.ac = Seed(@), !.rsk = Name(@, "RSK"), !.csh = Name(@, "CSH")]]

Plain(psa, psb, pba, pbb) ==
  [psa |-> psa, psb |-> psb, pba |-> pba, pbb |-> pbb, ar |-> None, ac |-> None, psm |-> None, pbm |-> None,
   ys |-> None, yb |-> None, rsk |-> None, csh |-> None, rescale |-> TRUE, fctr |-> None]

(* m: middle, g: gap, w = <<sell, buy>>: widths, u = <<sell, buy>>: utilizations *)
Util(u) == RMin(u, MAXUTIL)
Within(u, start, end) == IF Zero(u) THEN None ELSE RAdd(RMul(RSub("1", Util(u)), start), RMul(Util(u), end))
Mgw(m, g, w, u, ar, ac, rsk, csh) ==
  IF (\E k \in 1 .. 2 : RLt(w[k], "0") \/ RLt(u[k], "0") \/ RGt(u[k], "1")) THEN Refusal
  ELSE LET h == RAdd("1", RDiv(IF Zero(g) THEN NARROW ELSE g, "2"))
           f(k) == RAdd("1", IF Zero(w[k]) THEN NARROW ELSE w[k])
           psa == RMul(m, h)   psb == RMul(psa, f(1))
           pba == RDiv(m, h)   pbb == RDiv(pba, f(2))
       IN Make([Plain(psa, psb, pba, pbb) EXCEPT !.ar = ar, !.ac = ac, !.rsk = rsk, !.csh = csh,
                                                 !.psm = Within(u[1], psa, psb), !.pbm = Within(u[2], pba, pbb)])

(* ranges as given, in any order *)
Sb(sell, buy, fixed, overlapping) ==
  LET psa == RMin(sell[1], sell[2])  psb == RMax(sell[1], sell[2])
      pba == RMax(buy[1], buy[2])    pbb == RMin(buy[1], buy[2])
  IN IF RGt(pba, psa) /\ ~overlapping THEN Refusal
     ELSE Make([Plain(psa, psb, pba, pbb) EXCEPT !.rescale = ~fixed])

(* a Uniswap v3 position: the same range both ways, shifted apart by the fee *)
U3(lo, hi, below, tvl0, fee, rsk, csh) ==
  LET mid == RSqrt(RMul(lo, hi))
      tvl == IF tvl0 = None THEN "1000" ELSE tvl0
      sh  == IF fee = None THEN "0" ELSE RDiv(RMul(mid, fee), "2")
      n   == RDiv(tvl, mid)
  IN IF RLt(hi, lo) THEN Refusal
     ELSE Make([Plain(RAdd(lo, sh), RAdd(hi, sh), RSub(hi, sh), RSub(lo, sh)) EXCEPT
                !.ar = IF below THEN n ELSE "0", !.ac = IF below THEN "0" ELSE tvl,
                !.ys = n, !.yb = tvl, !.rsk = rsk, !.csh = csh, !.rescale = FALSE])

(* another spot price: prices scale, amounts stay *)
Times(p, f) == IF p = None THEN None ELSE RMul(p, f)
Rescaled(s, new, old, force) ==
  IF ~s.rescale /\ ~force THEN [ok |-> TRUE, s |-> s]
  ELSE LET f == RDiv(new, old)
       IN Make([s EXCEPT !.psa = RMul(@, f), !.psb = RMul(@, f), !.pba = RMul(@, f), !.pbb = RMul(@, f),
                         !.psm = Times(@, f), !.pbm = Times(@, f), !.yb = Times(@, f), !.rescale = FALSE, !.fctr = f])

(* total value tvl at this spot price, the share pc of it in csh; amounts that are set are kept *)
Tvl(s, spot, pc, tvl) ==
  IF s.ar # None \/ s.ac # None THEN s
  ELSE [s EXCEPT !.ar = RMul(RDiv(tvl, spot), RSub("1", pc)), !.ac = RMul(tvl, pc)]

-----------------------------------------------------------------------------
(* Running strategies along a path *)

AddArg(s) ==
  [tkn |-> s.rsk, base |-> s.rsk, quote |-> s.csh, amt_sell |-> s.ar, psell_start |-> s.psa, psell_end |-> s.psb,
   amt_buy |-> s.ac, pbuy_start |-> s.pba, pbuy_end |-> s.pbb, psell_marginal |-> s.psm, pbuy_marginal |-> s.pbm,
   y_int_sell |-> s.ys, y_int_buy |-> s.yb, cid |-> ""]

\* strategies strats, added in this order
Runnable(strats) == \A k \in DOMAIN strats : /\ ~AddRefused(AddArg(strats[k]))
                                             /\ strats[k].rsk = strats[1].rsk /\ strats[k].csh = strats[1].csh
StartBook(strats) ==
  LET RECURSIVE B(_)
      B(k) == IF k = 0 THEN <<>> ELSE B(k - 1) @@ AddOrders(AddArg(strats[k]), 2 * k - 2, 2 * k - 1)
  IN B(Len(strats))

Orders(book) == Cardinality(DOMAIN book)            \* ids are 0 .. Orders(book) - 1

\* one order trades to the spot price and pays its linked order
TradeOne(book, i, spot) ==
  LET r == O!TradeToOutcome(book[i], spot)
  IN IF ~r.ok \/ Zero(r.dy) THEN book
     ELSE LET b1 == [book EXCEPT ![i].y = r.y]
              l  == book[i].lid
          IN [b1 EXCEPT ![l] = O!Credit(b1[l], r.dx)]

FarBeyond(o) == IF o.tkn = o.quote THEN RDiv(O!PLow(o), "2") ELSE RMul(O!Quoted(o, O!PLow(o)), "2")
\* the spot price moves: every order trades, in the order of the ids.  At its very price a flat order
\* may trade as well as not: of those in open, those in also do
StepWith(book, spot, open, also) ==
  LET RECURSIVE G(_)
      G(i) == IF i = 0 THEN book
              ELSE IF i - 1 \in open \ also THEN G(i - 1)
              ELSE TradeOne(G(i - 1), i - 1, IF i - 1 \in also THEN FarBeyond(book[i - 1]) ELSE spot)
  IN G(Orders(book))
Step(book, spot) == StepWith(book, spot, {}, {})

Sells(book, t) == {i \in DOMAIN book : book[i].tkn = t}
Amount(book, t) == RSumF([i \in DOMAIN book |-> book[i].y], Sells(book, t))
Worth(book, rsk, csh, spot) == RAdd(RMul(Amount(book, rsk), spot), Amount(book, csh))
PMarg(o) == O!Quoted(o, MargP(o))
=============================================================================
