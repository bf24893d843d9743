------------------------------ MODULE AnaCore ------------------------------
(***************************************************************************)
(* The analytics of the simulator: numerical order books.                  *)
(*                                                                         *)
(* A table of trades is a sequence of sizes s (source token) and a         *)
(* sequence of amounts t (target token; None: beyond the liquidity of the  *)
(* AMM). The order book is what follows from it: effective prices t/s,     *)
(* marginal prices dt/ds, and the liquidity per price, dt/dp.              *)
(***************************************************************************)
EXTENDS SimCore

Diff(v) == [k \in 1 .. Len(v) - 1 |-> RSub(v[k + 1], v[k])]
Mids(v) == [k \in 1 .. Len(v) - 1 |-> RDiv(RAdd(v[k], v[k + 1]), "2")]
Quot(v, w) == [k \in 1 .. Len(v) |-> RDiv(v[k], w[k])]
Times(v, w) == [k \in 1 .. Len(v) |-> RMul(v[k], w[k])]

\* what is absent at the end of t is cut off both; what is absent before stays
RECURSIVE CutLen(_, _)
CutLen(t, k) == IF k > 0 /\ t[k] = None THEN CutLen(t, k - 1) ELSE k
Cut(s, t) == LET n == IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)
                 k == CutLen(t, n)
             IN [s |-> SubSeq(s, 1, k), t |-> SubSeq(t, 1, k)]

Prices(s, t) == Quot(t, s)
MargPrices(s, t) == Quot(Diff(t), Diff(s))
\* steps of the marginal price, counted away from the market: up the asks, down the bids
Steps(s, t, ask) == LET d == Diff(MargPrices(s, t)) IN IF ask THEN d ELSE [k \in DOMAIN d |-> RNeg(d[k])]
ObPrices(s, t) == Mids(MargPrices(s, t))
Liquidity(s, t, ask) == Quot(Mids(Diff(t)), Steps(s, t, ask))

(* A size s of token tkn, sold or bought by the AMM: what is asked of the simulator *)
Quoted(base, quote, tkn, s, sells, method) ==
  [base |-> base, quote |-> quote, byT |-> sells, amt |-> s, out |-> IF sells THEN tkn ELSE Other(base, quote, tkn),
   useall |-> TRUE, use |-> {}, partial |-> FALSE, method |-> method, thr |-> 10, limit |-> None, limamt |-> None,
   execute |-> FALSE, inpair |-> TRUE]

\* the amount of the other token, for an amount that the book has
TradeOf(book, t) == LET C == Curves(book, Eligible(book, t))
                        f == Fill(C, t.amt, t.byT, t.method)
                        g == Dx(C, f)
                    IN [dy |-> RSumF(f, DOMAIN f), dx |-> RSumF(g, DOMAIN g)]

(* Approximate liquidity: an order is spread evenly over its price range *)
Share(lo, hi, p1, p2) ==
  LET a == RMax(lo, RMin(p1, p2))  b == RMin(hi, RMax(p1, p2))
  IN IF RLe(b, a) THEN "0" ELSE RDiv(RSub(b, a), RSub(hi, lo))

\* the amount, in token u, of order o that is for sale between the prices p1 and p2 (convention of the pair)
Within(o, p1, p2, u) ==
  IF o.dis THEN "0"
  ELSE LET lo == RMin(o.ps, o.pe)  hi == RMax(o.ps, o.pe)
           Val(y, p) == IF u = o.tkn THEN y ELSE IF o.tkn = o.base THEN RMul(y, p) ELSE RDiv(y, p)
       IN IF REq(lo, hi) THEN (IF RLt(p1, lo) /\ RLt(hi, p2) THEN Val(o.y, lo) ELSE "0")
          ELSE LET s == Share(lo, hi, p1, p2)
                   a == RMax(lo, p1)  b == RMin(hi, p2)
               IN IF Zero(s) THEN "0" ELSE Val(RMul(s, o.y), RSqrt(RMul(a, b)))

Approx(book, base, quote, tkn, prices, u) ==
  LET I == {i \in DOMAIN book : book[i].base = base /\ book[i].quote = quote /\ book[i].tkn = tkn} IN
  [k \in 1 .. Len(prices) - 1 |->
     RDiv(RSumF([i \in I |-> Within(book[i], prices[k], prices[k + 1], u)], I), RSub(prices[k + 1], prices[k]))]
=============================================================================
