------------------------------ MODULE SimCore ------------------------------
(***************************************************************************)
(* The order book of CarbonSimulatorUI as pure functions on a book.        *)
(*                                                                         *)
(* A book is a function from order ids to orders; an order is a record     *)
(*   tkn  token sold            base, quote  the pair in which it is quoted*)
(*   B, S, y, z                 the curve (module Curve)                   *)
(*   dis  TRUE iff it was created without prices (never trades)            *)
(*   lid  id of the linked order, which receives what this order buys      *)
(*   cid  external id           ps, pe  start and end price, in the        *)
(*                              convention of the pair, or "None"          *)
(* Absent optional arguments are the string "None".                        *)
(***************************************************************************)
EXTENDS Curve

None == "None"

Fold(S, op(_, _), a) ==    \* fold over a set in some order
  LET RECURSIVE F(_, _)
      F(T, b) == IF T = {} THEN b ELSE LET k == CHOOSE k \in T : TRUE IN F(T \ {k}, op(k, b))
  IN F(S, a)

Other(base, quote, t) == IF t = base THEN quote ELSE base

\* price in the convention of the pair (quote per base) -> price with numeraire t; self inverse
RawPrice(base, quote, t, p) == IF p = None THEN None ELSE IF t = quote THEN p ELSE RDiv("1", p)

Curve1(tkn, base, quote, plo, phi, y, z) ==
  LET b == RSqrt(plo) IN [B |-> b, S |-> IF plo = phi THEN "0" ELSE RSub(RSqrt(phi), b), y |-> y, z |-> z]

-----------------------------------------------------------------------------
(* Creating orders *)

Amt(a) == IF a = None THEN "0" ELSE a

LegBad(amt, pstart, pend, pmarg, yint) ==
  \/ yint # None /\ pmarg # None
  \/ (pstart = None) # (pend = None)
  \/ yint # None /\ RLt(yint, Amt(amt))

Leg(tkn, base, quote, amt, pstart, pend, pmarg, yint, lid, cid) ==
  LET y  == Amt(amt)
      a  == RawPrice(base, quote, tkn, pstart)
      b  == RawPrice(base, quote, tkn, pend)
      d  == pstart = None
      lo == IF d THEN "0" ELSE RMin(a, b)
      hi == IF d THEN "0" ELSE RMax(a, b)
      rl == RSqrt(lo)
      S  == IF REq(lo, hi) THEN "0" ELSE RSub(RSqrt(hi), rl)
      z  == IF yint # None THEN yint
            ELSE IF pmarg = None THEN y
            ELSE RDiv(RMul(y, S), RSub(RSqrt(RawPrice(base, quote, tkn, pmarg)), rl))
  IN [tkn |-> tkn, base |-> base, quote |-> quote, B |-> rl, S |-> S, y |-> y, z |-> z,
      dis |-> d, lid |-> lid, cid |-> cid,
      \* the book reports the start price first, whatever the order of the arguments
      ps |-> IF d THEN None ELSE RawPrice(base, quote, tkn, hi),
      pe |-> IF d THEN None ELSE RawPrice(base, quote, tkn, lo)]

AddRefused(a) ==
  \/ a.base = None \/ a.quote = None                         \* no pair
  \/ a.tkn \notin {a.base, a.quote}
  \/ LegBad(a.amt_sell, a.psell_start, a.psell_end, a.psell_marginal, a.y_int_sell)
  \/ LegBad(a.amt_buy, a.pbuy_start, a.pbuy_end, a.pbuy_marginal, a.y_int_buy)

\* the two orders of strategy a when it gets the ids i and j
AddOrders(a, i, j) ==
  (i :> Leg(a.tkn, a.base, a.quote, a.amt_sell, a.psell_start, a.psell_end, a.psell_marginal, a.y_int_sell, j, a.cid))
  @@
  (j :> Leg(Other(a.base, a.quote, a.tkn), a.base, a.quote, a.amt_buy, a.pbuy_start, a.pbuy_end, a.pbuy_marginal, a.y_int_buy, i, a.cid))

-----------------------------------------------------------------------------
(* Deleting strategies *)

Deleted(book, i) == IF i \in DOMAIN book THEN {i, book[i].lid} ELSE {}
Delete(book, i) == [k \in DOMAIN book \ Deleted(book, i) |-> book[k]]

-----------------------------------------------------------------------------
(* Trading. A trade t is a record with                                     *)
(*   base, quote  pair        out  token sold by the AMM (tkn1)            *)
(*   byT          TRUE: amt is in tkn1 (by target), FALSE: in tkn2         *)
(*   amt          > 0         use  set of usable ids or {"None"}           *)
(*   partial, method ("exact", "fast", "alpha"), thr (max routes, alpha)   *)
(*   limit        limit price in the convention of the pair, or None       *)
(*   limamt       limit amount, or None;  execute  FALSE: quote only       *)

Eligible(book, t) ==
  {i \in DOMAIN book : /\ {book[i].base, book[i].quote} = {t.base, t.quote}
                       /\ book[i].tkn = t.out
                       /\ ~book[i].dis
                       /\ Pos(book[i].y)
                       /\ t.useall \/ i \in t.use}

Curves(book, I) == [i \in I |-> [B |-> book[i].B, S |-> book[i].S, y |-> book[i].y, z |-> book[i].z]]

\* optimal split of amt over the curves C: amounts sold per curve; flat curves exactly at
\* the market level share the rest in the order of their ids (any other split is as good)
OptFill(C, amt, byT) ==
  LET m    == OptLevel(C, amt, byT)
      part == {i \in DOMAIN C : Flat(C[i]) /\ REq(C[i].B, m)}
      rest == RSub(amt, MktLo(C, m, byT))
      Take(i, acc) ==
        LET q  == Qty(C[i], C[i].y, byT)
            g  == RMin(q, acc.rest)
            dy == IF byT THEN g ELSE RMul(g, RMul(C[i].B, C[i].B))
        IN [rest |-> RSub(acc.rest, g), dy |-> (i :> dy) @@ acc.dy]
  IN Fold(part, Take, [rest |-> rest,
                       dy |-> [i \in DOMAIN C |-> SoldLo(C[i], m)]]).dy

\* greedy split: best rate for the whole amount first
FastOffer(c, amt, byT) ==          \* [q: units of amt taken, dy, dx]
  LET dy == IF byT THEN RMin(amt, c.y) ELSE RMin(DyFromDx(c, amt), c.y)
      dx == DxFromDy(c, dy)
  IN [q |-> IF byT THEN dy ELSE dx, dy |-> dy, dx |-> dx, rate |-> RDiv(dy, dx)]

RECURSIVE FastFill(_, _, _)
FastFill(C, amt, full) ==          \* full = [amt, byT]: the original request, which fixes the ranking
  IF DOMAIN C = {} \/ ~Pos(amt) THEN <<>>
  ELSE LET o == [i \in DOMAIN C |-> FastOffer(C[i], full.amt, full.byT)]
           b == CHOOSE i \in DOMAIN C : \A k \in DOMAIN C : RGe(o[i].rate, o[k].rate)
           g == FastOffer(C[b], RMin(amt, o[b].q), full.byT)
       IN (b :> g.dy) @@ FastFill([i \in DOMAIN C \ {b} |-> C[i]], RSub(amt, g.q), full)

Fill(C, amt, byT, method) ==       \* id -> amount sold (> 0)
  LET cap == Capacity(C, byT)
      a   == RMin(amt, cap)
      f   == IF method = "fast" THEN FastFill(C, a, [amt |-> amt, byT |-> byT])
             ELSE IF RGe(amt, cap) THEN [i \in DOMAIN C |-> C[i].y]
             ELSE OptFill(C, amt, byT)
  IN [i \in {k \in DOMAIN f : Pos(f[k])} |-> f[i]]

Dx(C, f) == [i \in DOMAIN f |-> DxFromDy(C[i], f[i])]

\* average price in the convention of the pair
AvgPrice(t, dy, dx) == IF t.out = t.quote THEN RDiv(dy, dx) ELSE RDiv(dx, dy)

\* a limit amount is the least the trader wants to get (by source) or the most the trader
\* wants to pay (by target) for amt; it is equivalent to a limit price
LimitPrice(t) ==
  IF t.limamt = None THEN t.limit
  ELSE IF t.byT THEN AvgPrice(t, t.amt, t.limamt) ELSE AvgPrice(t, t.limamt, t.amt)

\* the trader buys tkn1: a limit is met at that price or better for the trader
LimitMet(t, p) == LET l == LimitPrice(t)
                  IN l = None \/ IF t.out = t.quote THEN RGe(p, l) ELSE RLe(p, l)

TradeRefused(book, t) ==
  \/ ~t.inpair
  \/ t.limit # None /\ t.limamt # None
  \/ Eligible(book, t) = {}
  \/ ~Pos(t.amt)
  \/ ~t.partial /\ RGt(t.amt, Capacity(Curves(book, Eligible(book, t)), t.byT))

\* the effect of selling fills f (id -> amount sold) for g (id -> amount bought)
Apply(book, f, g) ==
  LET Sell(i, b) ==
        LET l == b[i].lid
            b1 == [b EXCEPT ![i].y = RSub(@, f[i])]
            ny == RAdd(b1[l].y, g[i])
        IN IF l = i THEN b1
           ELSE [b1 EXCEPT ![l].y = ny, ![l].z = RMax(@, ny)]
  IN Fold(DOMAIN f, Sell, book)

=============================================================================
