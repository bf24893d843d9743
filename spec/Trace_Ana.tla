----------------------------- MODULE Trace_Ana -----------------------------
(* Validates recorded uses of the analytics against AnaCore. *)
EXTENDS AnaCore, Verdict

VARIABLES tid, l, book, dead
tvars == <<tid, l, book, dead>>

Tiny == "1/1000000000000"
REL == "1/1000000000"
EPS == "1/500000000000"
Num(a) == a # None /\ a # "inf" /\ RIsNum(a)
Near(a, b) == Num(a) /\ RNear(a, b, Tiny, "0")
NearBy(a, b, abs) == Num(a) /\ RNear(a, b, Tiny, abs)
NumSeq(v) == \A k \in DOMAIN v : Num(v[k])

Top1(v) == Fold({RAbs(v[k]) : k \in {j \in DOMAIN v : Num(v[j])}}, LAMBDA k, b : RMax(k, b), "0")

\* v is, element by element, f of what is at hand; where that is absent so is v
Each(v, n, has(_), ok(_)) == Len(v) = n /\ \A k \in DOMAIN v : IF has(k) THEN ok(k) ELSE ~Num(v[k])
EachIf(v, n, has(_), free(_), ok(_)) == Len(v) = n /\ \A k \in DOMAIN v : IF ~has(k) THEN ~Num(v[k]) ELSE free(k) \/ ok(k)

DiffOK(v, w) == LET m == RMul("1/1000000000000000", Top1(w)) IN
  Each(v, IF Len(w) = 0 THEN 0 ELSE Len(w) - 1, LAMBDA k : Num(w[k]) /\ Num(w[k + 1]), LAMBDA k : NearBy(v[k], RSub(w[k + 1], w[k]), m))
MidsOK(v, w) == Each(v, IF Len(w) = 0 THEN 0 ELSE Len(w) - 1, LAMBDA k : Num(w[k]) /\ Num(w[k + 1]), LAMBDA k : Near(v[k], RDiv(RAdd(w[k], w[k + 1]), "2")))
\* v = a / b; nothing is demanded where b is zero
QuotOK(v, a, b) == Len(a) = Len(b) /\ EachIf(v, Len(a), LAMBDA k : Num(a[k]) /\ Num(b[k]), LAMBDA k : Zero(b[k]), LAMBDA k : Num(v[k]) /\ RNear(RMul(v[k], b[k]), a[k], Tiny, "0"))
InvOK(v, a) == EachIf(v, Len(a), LAMBDA k : Num(a[k]), LAMBDA k : Zero(a[k]), LAMBDA k : Near(v[k], RDiv("1", a[k])))

Padded(v, w) == Len(v) >= Len(w) /\ SubSeq(v, 1, Len(w)) = w /\ \A k \in Len(w) + 1 .. Len(v) : v[k] = None

(* ------------------------------ order books -----------------------------*)
JudgeBook(e) ==
  IF e.side \notin {"ask", "bid"} THEN Req(~e.ok, "book-accepted")
  ELSE IF ~e.ok THEN {"book-refused"}
  ELSE
  LET ask == e.side = "ask"
      c == Cut(e.src, e.trg)
      d == e.data  b == e.lab
      ne == IF Len(d.marg) = 0 THEN 0 ELSE Len(d.marg) - 1
      sg(x) == IF ask THEN x ELSE RNeg(x)
      pq == e.ttkn \o " per " \o e.stkn   qp == e.stkn \o " per " \o e.ttkn
      way == IF ask THEN "sells" ELSE "buys"   yaw == IF ask THEN "buys" ELSE "sells"
      io == IF ask THEN "out" ELSE "in"  oi == IF ask THEN "in" ELSE "out"
      mm_ == RMul("1/1000000000000000", Top1(d.marg))
      fin == \A k \in DOMAIN d.marg : Num(d.marg[k])
      Ch(ch) ==
        CASE ch.name \in {"token", "token-df", "token-plot"} -> ch.x = d.src /\ ch.y = d.trg
          [] ch.name \in {"eff", "eff-plot"} -> ch.x = d.src /\ ch.y = d.prices
          [] ch.name = "effr" -> ch.x = d.src /\ ch.y = d.pricesr
          [] ch.name = "eff-df" -> Padded(ch.x, d.src) /\ Padded(ch.y, d.prices)
          [] ch.name = "eff-dfr" -> Padded(ch.x, d.src) /\ Padded(ch.y, d.pricesr)
          [] ch.name \in {"marg", "marg-plot"} -> ch.x = d.mids /\ ch.y = d.marg
          [] ch.name = "margr" -> ch.x = d.mids /\ ch.y = d.margr
          [] ch.name = "marg-df" -> Padded(ch.x, d.mids) /\ Padded(ch.y, d.marg)
          [] ch.name = "marg-dfr" -> Padded(ch.x, d.mids) /\ Padded(ch.y, d.margr)
          [] OTHER -> ch.x = d.liq /\ ch.y = d.obp
      Un(ch) ==
        CASE ch.name = "token" -> ch.xu = e.stkn /\ ch.yu = e.ttkn
          [] ch.name = "token-df" -> ch.xu = "src_amt [" \o e.stkn \o "]" /\ ch.yu = "trg_amt [" \o e.ttkn \o "]"
          [] ch.name = "token-plot" -> ch.xu = "Tokens " \o io \o " (" \o e.stkn \o ")" /\ ch.yu = "Tokens " \o oi \o " (" \o e.ttkn \o ")"
          [] ch.name \in {"eff", "marg"} -> ch.xu = e.stkn /\ ch.yu = pq /\ ch.way = way
          [] ch.name \in {"effr", "margr"} -> ch.xu = e.stkn /\ ch.yu = qp /\ ch.way = way
          [] ch.name = "eff-df" -> ch.xu = "size1 [" \o e.stkn \o "]" /\ ch.yu = "price1_eff [" \o pq \o "]"
          [] ch.name = "eff-dfr" -> ch.xu = "size1 [" \o e.stkn \o "]" /\ ch.yu = "price1_eff [" \o qp \o "]"
          [] ch.name = "marg-df" -> ch.xu = "size2 [" \o e.stkn \o "]" /\ ch.yu = "price2_marg [" \o pq \o "]"
          [] ch.name = "marg-dfr" -> ch.xu = "size2 [" \o e.stkn \o "]" /\ ch.yu = "price2_marg [" \o qp \o "]"
          [] ch.name \in {"eff-plot", "marg-plot"} -> ch.xu = "Trade size (" \o e.stkn \o "; AMM " \o way \o ")" /\ ch.yu = "Price (" \o pq \o ")"
          [] ch.name = "ob" -> ch.xu = e.ttkn /\ ch.yu = pq
          [] ch.name = "ob-df" -> ch.xu = "Liquidity [" \o e.ttkn \o "]" /\ ch.yu = "Price [" \o pq \o "]"
          [] OTHER -> ch.xu = "Liquidity (" \o e.ttkn \o ")" /\ ch.yu = "Price (" \o pq \o ")"
  IN Req(d.src = c.s /\ d.trg = c.t, "book-amounts") \cup
     (IF ~(d.src = c.s /\ d.trg = c.t) THEN {} ELSE
      Req(QuotOK(d.prices, d.trg, d.src) /\ d.prices0 = d.prices, "book-prices")
      \cup Req(QuotOK(d.pricesr, d.src, d.trg), "book-prices")
      \cup Req(DiffOK(d.mtrg, d.trg) /\ DiffOK(d.msrc, d.src), "book-steps")
      \cup Req(QuotOK(d.marg, d.mtrg, d.msrc) /\ d.marg0 = d.marg /\ InvOK(d.margr, d.marg), "book-marginal")
      \cup Req(MidsOK(d.mids, d.src), "book-midpoints")
      \cup (IF ~fin THEN {} ELSE
            Req(Len(d.dmarg) = ne /\ \A k \in DOMAIN d.dmarg : NearBy(d.dmarg[k], sg(RSub(d.marg[k + 1], d.marg[k])), mm_), "book-price-steps")
            \cup Req(MidsOK(d.obp, d.marg), "book-ob-prices")
            \cup Req(Len(d.liq) = ne /\ \A k \in DOMAIN d.liq : Zero(d.dmarg[k]) \/ (Num(d.liq[k]) /\ RNear(RMul(d.liq[k], d.dmarg[k]), RDiv(RAdd(d.mtrg[k], d.mtrg[k + 1]), "2"), Tiny, "0")),
                     "book-liquidity")))
     \cup Req(\A k \in DOMAIN e.charts : Ch(e.charts[k]), "book-chart")
     \cup Req(\A k \in DOMAIN e.charts : Un(e.charts[k]), "book-units")
     \cup Req(/\ b.base = e.stkn /\ b.quote = e.ttkn /\ b.src = io /\ b.trg = oi /\ b.bssrc = way /\ b.bstrg = yaw
              /\ b.ba = e.side /\ b.pu = pq /\ b.mpu = pq /\ b.opu = pq /\ b.pru = qp /\ b.pru0 = pq /\ b.mpru = qp /\ b.lu = e.ttkn /\ b.rev = ~ask
              /\ b.explain = <<"This is the " \o (IF ask THEN "ASK" ELSE "BID") \o " book.",
                               "Source token = " \o e.stkn \o ", target token = " \o e.ttkn \o ".",
                               "AMM " \o way \o " " \o e.stkn \o " for " \o e.ttkn \o ".",
                               "Base token = " \o e.stkn \o ", quote token = " \o e.ttkn \o ".",
                               "Prices are quoted in " \o pq \o ".",
                               "Order book amounts are quoted in " \o e.ttkn \o ".">>, "book-units")

(* ---------------------------- vector functions --------------------------*)
Lin(a, b, n, k) == IF n = 1 THEN a ELSE RAdd(a, RMul(RSub(b, a), RDiv(ToString(k - 1), ToString(n - 1))))
JudgeFn(e) ==
  CASE e.fn = "midpoints" -> Req(MidsOK(e.res, e.a), "vec-midpoints")
    [] e.fn = "diff" -> Req(DiffOK(e.res, e.a), "vec-diff")
    [] e.fn = "truncate" -> LET c == Cut(e.a, e.b) IN Req(e.res = c.s /\ e.res2 = c.t, "vec-truncate")
    [] e.fn = "vecdot" ->
         LET J == {k \in DOMAIN e.a : e.a[k] # None /\ e.b[k] # None} IN
         Req(Len(e.res) = 1 /\ Near(e.res[1], RSumF([k \in J |-> RMul(e.a[k], e.b[k])], J)), "vec-dot")
    [] e.fn = "linspace" -> Req(Len(e.res) = e.k /\ \A k \in DOMAIN e.res : NearBy(e.res[k], Lin(e.eps, e.x, e.k, k), RMul("1/1000000000000000", e.x)), "vec-linspace")
    [] e.fn = "linspace0" ->
         LET n == e.k + 1
             e1 == IF e.eps = None THEN "1/10000" ELSE e.eps
             e2 == IF e.eps2 = None THEN "1/100000" ELSE e.eps2 IN
         Req(Len(e.res) = n /\ \A k \in DOMAIN e.res :
               Near(e.res[k], IF k = n THEN RMul(RSub("1", e2), e.x) ELSE IF k = 1 THEN e1 ELSE Lin("0", e.x, n, k)), "vec-linspace")
    [] OTHER -> {"vec-unknown"}

(* --------------------------------- quotes -------------------------------*)
MM == Traces[tid].mm
Dflt == Traces[tid].dpair
\* what the book says of trade t: none (refused), any, or value with the amounts [dy, dx] and the tolerance of either
Outcome(t) ==
  LET E    == Eligible(book, t)
      C    == Curves(book, E)
      cap  == Capacity(C, t.byT)
      edge == RNear(t.amt, cap, REL, "1/10000000000")
      dust == RLe(t.amt, "1/50000")
  IN IF E = {} \/ (RGt(t.amt, cap) /\ ~edge) THEN [w |-> "none"]
     ELSE LET tt == IF RGt(t.amt, cap) THEN [t EXCEPT !.amt = cap] ELSE t
              a == TradeOf(book, tt)
              p == RDiv(a.dy, a.dx)
              tol == RMul(RMul(EPS, ToString(Cardinality(E) + 1)), RAdd("2", RAdd(RMul("2", p), RDiv("2", p))))
          IN [w |-> IF edge \/ dust THEN "any" ELSE "value", dy |-> a.dy, dx |-> a.dx, tol |-> tol]

QuoteOK(v, t) ==        \* the amount of the other token
  LET o == Outcome(t) IN
  IF v = None THEN o.w # "value"
  ELSE o.w # "none" /\ RIsNum(v) /\ RNear(v, IF t.byT THEN o.dx ELSE o.dy, REL, o.tol)

\* whether the recorded orders are those of the book
BookOK(e) == /\ Len(e.orders) = Cardinality(DOMAIN book)
             /\ \A k \in DOMAIN e.orders : LET r == e.orders[k] IN
                  r.id \in DOMAIN book /\ r.tkn = book[r.id].tkn /\ RNear(r.y, book[r.id].y, Tiny, "0") /\ RNear(r.z, book[r.id].z, REL, "0")

JudgePrice(e) ==
  LET tkn == IF e.tkn = None THEN Dflt.base ELSE e.tkn
      p   == IF e.pair.base = None THEN Dflt ELSE e.pair
      t   == Quoted(p.base, p.quote, tkn, e.size, e.side = "ask", MM)
      fv  == IF e.side = "ask" THEN "0" ELSE RPow("10", 100)
  IN Req(BookOK(e), "probe-changed-book") \cup
     (IF e.sim = "nosim" \/ e.side = "bad" \/ tkn = None THEN Req(~e.ok, "price-accepted")
      ELSE IF p.base = None THEN Req(~e.ok \/ RNear(e.res, fv, Tiny, "0"), "price-accepted")
      ELSE IF ~e.ok THEN {"price-refused"}
      ELSE LET o == Outcome(t)
               failed == Num(e.res) /\ RNear(e.res, fv, Tiny, "0")
           IN IF failed THEN Req(o.w # "value", "price-none")
              ELSE IF o.w = "none" THEN {"price-beyond-liquidity"}
              ELSE Req(Num(e.res) /\ RNear(e.res, AvgPrice(t, o.dy, o.dx), RAdd(REL, RAdd(RDiv(o.tol, o.dy), RDiv(o.tol, o.dx))), "0"), "price-value"))

JudgeTradeQ(e) ==
  LET p == IF e.pair.base = None THEN Dflt ELSE e.pair
      t == Quoted(p.base, p.quote, p.base, e.size, e.side = "ask", MM)
  IN Req(BookOK(e), "probe-changed-book") \cup
     (IF e.sim = "nosim" \/ e.side = "bad" \/ p.base = None \/ (e.badpair /\ e.pair.base # None) THEN Req(~e.ok, "quote-accepted")
      ELSE IF ~e.ok THEN {"quote-refused"}
      ELSE Req(QuoteOK(e.res, t), IF e.res = None THEN "quote-none" ELSE "quote-value"))

JudgeDepth(e) ==
  LET t(x) == Quoted(e.pair.base, e.pair.quote, e.pair.base, x, e.side = "ask", MM) IN
  Req(BookOK(e), "probe-changed-book")
  \cup Req(Len(e.sizes) = Len(e.trg) /\ \A k \in DOMAIN e.trg : QuoteOK(e.trg[k], t(e.sizes[k])), "depth-quotes")
  \cup JudgeBook(e)

(* -------------------------- approximate liquidity -----------------------*)
JudgeApprox(e) ==
  LET b == e.pair.base  q == e.pair.quote  u == IF e.reverse THEN q ELSE b
      I(tkn) == {i \in DOMAIN book : book[i].base = b /\ book[i].quote = q /\ book[i].tkn = tkn /\ ~book[i].dis}
      m == Len(e.prices) - 1
      FlatO(o) == REq(o.ps, o.pe)
      Tol(i, p1, p2) ==
        LET o == book[i]  lo == RMin(o.ps, o.pe)  hi == RMax(o.ps, o.pe)
            v == IF u = o.tkn THEN o.y ELSE IF o.tkn = o.base THEN RMul(o.y, hi) ELSE RDiv(o.y, lo)
        IN IF FlatO(o) THEN "0" ELSE RDiv(RMul(RMul("1/100000000000", v), RDiv(hi, RSub(hi, lo))), RSub(p2, p1))
      Edge(i, p1, p2) == FlatO(book[i]) /\ (RNear(p1, book[i].ps, "1/100000000", "0") \/ RNear(p2, book[i].ps, "1/100000000", "0"))
      Ok(v, tkn) ==
        LET w == Approx(book, b, q, tkn, e.prices, u) IN
        Len(v) = m /\ \A k \in DOMAIN v :
          \/ \E i \in I(tkn) : Edge(i, e.prices[k], e.prices[k + 1])
          \/ LET tol == RSumF([i \in I(tkn) |-> Tol(i, e.prices[k], e.prices[k + 1])], I(tkn)) IN
             IF v[k] = None THEN e.purge /\ RLe(w[k], tol)
             ELSE Num(v[k]) /\ RNear(v[k], w[k], REL, tol) /\ (e.purge => ~Zero(v[k]))
  IN Req(BookOK(e), "probe-changed-book")
     \cup Req(Ok(e.ask, b), "approx-ask") \cup Req(Ok(e.bid, q), "approx-bid")
     \cup Req(MidsOK(e.mids, e.prices), "approx-prices")
     \cup Req(e.pu = q \o " per " \o b /\ e.lu = u /\ e.rev = e.reverse /\ e.isop = b \o "/" \o q, "approx-units")
     \cup Req(Len(e.plot) = 2 /\ e.plot[1].x = e.mids /\ e.plot[2].x = e.mids /\ e.plot[1].y = e.bid /\ e.plot[2].y = e.ask, "approx-plot")

-----------------------------------------------------------------------------
NormAdd(e) == LET p == IF e.pair.base = None THEN Dflt ELSE e.pair IN [base |-> p.base, quote |-> p.quote] @@ e.a
AddBad(e) == LET bad == AddRefused(NormAdd(e)) IN e.ok # ~bad \/ (e.ok /\ Len(e.rows) # 2)

Judge(e) ==
  CASE e.op = "fn" -> JudgeFn(e)
    [] e.op = "book" -> JudgeBook(e)
    [] e.op = "price" -> JudgePrice(e)
    [] e.op = "trade" -> JudgeTradeQ(e)
    [] e.op = "depth" -> JudgeDepth(e)
    [] e.op = "approx" -> JudgeApprox(e)
    [] OTHER -> {}

Init == /\ tid \in DOMAIN Traces /\ l = 0 /\ book = <<>> /\ dead = FALSE

Next ==
  LET e == Traces[tid].evs[l + 1] IN
  /\ l < Len(Traces[tid].evs)
  /\ l' = l + 1 /\ tid' = tid
  /\ IF dead THEN UNCHANGED <<book, dead>>
     ELSE IF ~e.wf THEN /\ Report(Traces[tid].tid, l + 1, e.op, {"crash"}) /\ dead' = TRUE /\ UNCHANGED book
     ELSE IF e.op = "add"
     THEN IF AddBad(e) THEN dead' = TRUE /\ UNCHANGED book       \* (the business of Trace_Sim)
          ELSE /\ dead' = FALSE
               /\ book' = IF e.ok THEN book @@ AddOrders(NormAdd(e), e.rows[1], e.rows[2]) ELSE book
     ELSE /\ Report(Traces[tid].tid, l + 1, e.op, Judge(e))
          /\ UNCHANGED <<book, dead>>
Spec == Init /\ [][Next]_tvars
=============================================================================
