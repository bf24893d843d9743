---------------------------- MODULE Trace_Order ----------------------------
(***************************************************************************)
(* Validates recorded behaviours of CarbonOrderUI against OrderCore.       *)
(*                                                                         *)
(* Every event carries the arguments (as the floats that were passed), the *)
(* result, and the state of all orders afterwards.  The state of the       *)
(* specification is re-anchored on the recorded state after every event.   *)
(***************************************************************************)
EXTENDS OrderCore, Verdict

VARIABLES tid, l, st
tvars == <<tid, l, st>>

REL == "1/1000000000"                                 \* 1e-9
Near(a, b) == RNear(a, b, REL, "0")
Near0(a, b, scale) == RNear(a, b, REL, RMul("1/10000000000000", scale))     \* 1e-13 of scale: cancellation
TINY == "1/10000000000000"

Params == {"tkn", "base", "quote", "B", "S", "pa", "pb", "pmin", "pmax", "dis", "id", "lid", "A", "tknx", "tkny"}
Fixed(r, o) == \A f \in Params : r[f] = o[f]

\* an order that is neither disabled nor without capacity
Live(o) == ~Disabled(o) /\ Pos(o.z)

\* the derived fields of an order state
RowOK(r) ==
  /\ r.A = r.S /\ r.zz = r.z /\ r.tkny = r.tkn /\ r.tknx = IF r.tkn = r.base THEN r.quote ELSE r.base
  /\ r.dis = Disabled(r)
  /\ IF r.dis THEN r.pm = None
     ELSE /\ Near(Quoted(r, r.pa), PHigh(r)) /\ Near(Quoted(r, r.pb), PLow(r))
          /\ r.pmin = RMin(r.pa, r.pb) /\ r.pmax = RMax(r.pa, r.pb)
MargOK(r) == r.dis \/ (IF Zero(r.z) THEN Near(Quoted(r, r.pm), PHigh(r)) ELSE Near(Quoted(r, r.pm), PAt(r, r.y)))

BoundsOK(r) == RGe(r.y, "0") /\ RLe(r.y, r.z)

-----------------------------------------------------------------------------
JudgeMake(e) ==
  LET a == e.a
      mustfail == a.how \in {"prices", "Qxy"} /\ (RLt(a.z, "0") \/ RGt(a.y, a.z) \/ RLt(a.y, "0"))
      mayfail  == a.how = "Qxy" /\ ~(Pos(a.z) /\ Pos(a.xint))
      r == e.st[Len(e.st)]
  IN IF ~e.ok THEN Req(mustfail \/ mayfail, "make-refused") \cup Req(e.st = st, "make-state")
     ELSE IF mustfail \/ mayfail THEN {"make-accepted"}
     ELSE Req(Len(e.st) = Len(st) + 1 /\ RowOK(r) /\ MargOK(r), "make-fields")
          \cup Req(r.tkn = a.tkn /\ r.base = a.base /\ r.quote = a.quote /\ r.z = a.z /\ r.y = a.y, "make-fields")
          \cup Req(CASE a.how = "prices" ->
                          LET x == Quoted(r, a.pa)  y == Quoted(r, a.pb)
                          IN Near(PHigh(r), RMax(x, y)) /\ Near(PLow(r), RMin(x, y))
                     [] a.how = "Qxy" ->
                          LET p0 == RDiv(a.z, a.xint)
                          IN Near(PLow(r), RMul(p0, a.Q)) /\ Near(PHigh(r), RDiv(p0, a.Q)) /\ Near(XInt(r), a.xint)
                     [] OTHER -> r.B = a.B /\ r.S = a.S, "make-curve")

-----------------------------------------------------------------------------
(* Trades *)

Others(e, k) == \A j \in DOMAIN st : j # k => e.st[j] = st[j]
LinkOf(k) == IF Traces[tid].linked /\ k <= 2 /\ Len(st) >= 2 THEN 3 - k ELSE 0

\* near the limits of what the order can do rounding decides
Edge(o, dy) == RNear(dy, o.y, "0", RMul("1/100000000000", RAdd("10", o.z)))
               \/ RNear(RSub(o.y, dy), o.z, "0", RMul("1/1000000000000", o.z))
DustEdge(dy) == RNear(RAbs(dy), DUST, "1/1000000", "0")

Unchanged(e) == e.st = st

\* the marginal price and everything else in the result of an accepted trade
ResultOK(e, o, r) ==
  LET sc == IF e.op = "to" /\ ~Flat(o) THEN RMul("1/100000000000000", RMul(o.z, RAdd("10", RDiv(o.B, o.S))))
            ELSE RMul("1/10000000000000", RAdd(o.z, RMax(RAbs(r.dy), "0"))) IN
  /\ e.y_old = o.y
  /\ RNear(e.dy, r.dy, REL, sc)
  /\ RNear(e.y, r.y, "0", RMul("1/1000000000", RMax(DUST, RAdd(RAbs(r.dy), RMul(o.z, "1/1000")))))
  /\ Near(Quoted(o, e.pmarg_old), PAt(o, o.y))
  /\ RNear(Quoted(o, e.pmarg), IF RGt(r.y, o.z) THEN PHigh(o) ELSE PAt(o, r.y), REL, RMul(PHigh(o), REL))
  /\ e.expanded = RGt(r.y, o.z)

\* amounts of the trade that was recorded are on the curve
OnCurve(e, o) ==
  /\ RNear(e.dx, DxFromDy(o, e.dy), REL, "0")
  /\ Zero(e.dy) => Zero(e.dx)
  /\ ~Zero(e.dy) => Near(e.dxdy, RDiv(e.dx, e.dy)) /\ Near(e.dydx, RDiv(e.dy, e.dx))
                    /\ Near(e.p, IF o.tkn = o.base THEN RDiv(e.dx, e.dy) ELSE RDiv(e.dy, e.dx))
  /\ e.x # None => RNear(e.x, IF e.expanded THEN "0" ELSE XAt(o, e.y), REL, RMul(TINY, XInt(o)))
  /\ e.y_int = (IF e.expanded THEN e.y ELSE o.z)
  /\ e.yint_old = IF e.expanded THEN o.z ELSE None

JudgeTrade(e) ==
  LET o == st[e.k]
      live == Live(o)
      r == CASE e.op = "sell" -> SellOutcomeX(o, e.amt, e.allowneg, e.expand)
             [] e.op = "buy"  -> BuyOutcomeX(o, e.amt, e.allowneg, e.expand)
             [] OTHER         -> TradeToOutcome(o, e.amt)
      lk == LinkOf(e.k)
      back == lk # 0 /\ e.execute /\ r.ok /\ RLt(r.dx, "0")          \* the link cannot pay
      want == IF e.op = "buy" /\ live THEN (IF Zero(BuyDenominator(o, e.amt)) THEN "0" ELSE DyFromDx(o, e.amt)) ELSE IF e.op = "sell" THEN e.amt ELSE "0"
      edge == live /\ e.op \in {"sell", "buy"} /\ (Edge(o, want) \/ DustEdge(want)
                                   \/ (e.op = "buy" /\ RNear(RAdd(XAt(o, o.y), e.amt), "0", "0", RMul("1/1000000000000", XInt(o)))))
      \* a price target that is the present price, up to rounding
      at == live /\ e.op = "to" /\ RNear(Quoted(o, e.amt), PAt(o, o.y), "1/1000000000000", "0")
      must == r.ok /\ ~back
      a == e.st[e.k]
      moved == e.executed /\ e.execute
  IN
  IF e.res # "value"
  THEN Req(~must \/ edge, "trade-refused") \cup Req(Unchanged(e), "refused-changed")
       \cup Req(e.res # "raised" \/ e.roe \/ e.op = "to" \/ ~live \/ back
                                 \/ (edge /\ lk # 0 /\ e.execute /\ RLt(e.amt, "0")), "refused-kind")
       \cup Req(e.res # "none" \/ ~e.roe \/ ~live \/ edge, "refused-kind")
  ELSE IF ~must /\ ~edge THEN {"trade-accepted"}
  ELSE IF ~live THEN Req(Zero(e.dy) /\ Zero(e.dx) /\ Unchanged(e), "trade-empty")
  ELSE Req(edge \/ at \/ ResultOK(e, o, r), "trade-result") \cup Req(OnCurve(e, o), "trade-off-curve")
       \cup Req(e.executed = (e.execute /\ ~Zero(e.dy)), "trade-executed")
       \cup (IF ~moved THEN Req(Unchanged(e), "quote-changed")
             ELSE Req(/\ Fixed(a, o) /\ a.z = e.y_int /\ a.y = e.y
                      /\ RNear(a.y, RSub(o.y, e.dy), "0", RMul("2/1000000000000000", RAdd("1000000", o.z)))
                      /\ MargOK(a), "trade-state")
                  \cup Req(BoundsOK(a), "bounds")
                  \cup Req(\A j \in DOMAIN st : j \notin {e.k, lk} => e.st[j] = st[j], "trade-frame")
                  \cup (IF lk = 0 THEN {}
                        ELSE LET b == e.st[lk]  c == st[lk] IN
                             Req(/\ Fixed(b, c)
                                 /\ RNear(b.y, RAdd(c.y, e.dx), "1/1000000000000000", "0")
                                 /\ b.z = RMax(c.z, b.y) /\ MargOK(b), "linked-paid")))
       \cup Req(e.lk = (lk # 0 /\ moved), "linked-paid")

JudgeTo(e) ==
  LET o == st[e.k]  a == e.st[e.k]
      r == Quoted(o, e.amt)  m == PAt(o, o.y)  p == PAt(o, e.y)
      flat == RNear(r, PLow(o), "1/1000000000000", "0") \/ RNear(r, m, "1/1000000000000", "0")
      tol == RMul("1/1000000000", PHigh(o))
  IN IF ~Live(o) \/ e.res # "value" THEN {}
     ELSE IF flat THEN Req(RGe(RAdd(p, tol), RMin(r, m)) /\ RLe(p, RAdd(m, tol)), "to-price")
     ELSE IF RGe(r, m) THEN Req(Zero(e.dy), "to-price")
     ELSE IF RLe(r, PLow(o)) THEN Req(Zero(e.y) \/ RLt(o.y, DUST), "to-price")
     ELSE Req(RNear(p, r, REL, tol) \/ RLt(RSub(o.y, YAt(o, RSqrt(r))), RMul(DUST, "2")), "to-price")

JudgeAdd(e) ==
  LET o == st[e.k]  a == e.st[e.k]
      bad == RLt(e.amt, "0") \/ (RGt(RAdd(o.y, e.amt), o.z) /\ ~e.expand)
      edge == RNear(RAdd(o.y, e.amt), o.z, "1/1000000000000", "0")
      y == RAdd(o.y, e.amt)
  IN IF e.res # "value" THEN Req(bad \/ edge, "add-refused") \cup Req(Unchanged(e), "refused-changed")
     ELSE IF bad /\ ~edge THEN {"add-accepted"}
     ELSE Req(/\ Others(e, e.k) /\ Fixed(a, o)
              /\ RNear(a.y, y, "1/1000000000000000", "0") /\ a.z = RMax(o.z, a.y)
              /\ MargOK(a)
              /\ e.y_old = o.y /\ e.y = a.y /\ e.yint = a.z /\ e.expanded = RGt(a.y, o.z)
              /\ (o.dis \/ (e.pmarg = a.pm /\ e.pmarg_old = o.pm)), "add-state")

-----------------------------------------------------------------------------
(* The curve functions *)

JudgeQuery(e) ==
  LET o == st[e.k]
      x == e.x
      v == IF e.vals = <<>> THEN None ELSE e.vals[1]
      \* a value is expected (b), or None / an exception
      Val(b, good) == IF b THEN Req(e.res = "value" /\ good, e.fn)
                      ELSE Req(e.res = (IF e.roe THEN "raised" ELSE "none"), e.fn \o "-bounds")
      y0 == IF e.full THEN o.z ELSE o.y
      y1 == RSub(y0, x)
      ynear == RNear(y1, "0", "0", RMul("1/1000000000000", o.z))
      \* without bounds checking the curve goes on on either side, as long as its price is (well) above zero
      Goes(y) == RGt(RMul("1000", RAdd(RMul(o.B, o.z), RMul(o.S, y))), RMul(Top(o), o.z))
      GoesX(dx) == RGt(RMul("1000", RAdd(o.z, RMul(RMul(o.S, Top(o)), dx))), o.z)
      q == RMul(Top(o), Top(o))
      root(p) == RSqrt(Quoted(o, p))
      ysc == IF Flat(o) THEN o.z ELSE RMul(o.z, RAdd("1", RDiv(o.B, o.S)))
      r == Quoted(o, x)
      startN == RNear(r, PHigh(o), "1/1000000000000", "0")  endN == RNear(r, PLow(o), "1/1000000000000", "0")
      margN == RNear(r, PAt(o, o.y), "1/100000000000", "0")
      ytgt == RDiv(RMul(o.z, RSub(root(x), o.B)), o.S)
  IN
  CASE e.fn = "p_marg_f" ->
        IF Disabled(o) THEN Req(e.res = "none", e.fn)
        ELSE IF Zero(o.z) THEN {}
        ELSE IF e.check /\ ynear THEN {}
        ELSE Val(~(e.check /\ (RLt(x, "0") \/ RLt(y1, "0"))), RNear(Quoted(o, v), PAt(o, y1), REL, RMul(PHigh(o), "1/100000000000000")))
    [] e.fn = "p_eff_f" ->
        IF Disabled(o) \/ Zero(o.z) THEN {}
        ELSE IF e.check /\ ynear THEN {}
        ELSE IF e.check /\ (RLt(x, "0") \/ RLt(y1, "0")) THEN Req(e.res = (IF e.roe THEN "raised" ELSE "none"), "p_eff_f-bounds")
        ELSE IF Zero(x) THEN Req(e.res = "value" /\ Near(Quoted(o, v), PAt(o, y0)), e.fn)
        ELSE IF RNear(y1, y0, "1/1000000000000", "0") THEN {}       \* too little to move the balance
        ELSE IF ~Goes(y1) THEN {}
        ELSE LET dx == RSub(XAt(o, y1), XAt(o, y0))
             IN Req(e.res = "value" /\ RNear(RDiv(x, Quoted(o, v)), dx, REL, RMul("1/100000000000000", XInt(o))), e.fn)
    [] e.fn \in {"yfromp_f", "dyfromp_f"} ->
        IF Flat(o) THEN
             (IF startN \/ endN \/ ~e.check THEN {}
              ELSE IF RGt(r, PHigh(o)) THEN Req(IF e.roe THEN e.res = "raised" ELSE IF e.fn = "yfromp_f" THEN e.res = "none" ELSE e.res = "value" /\ v = "0", e.fn)
              ELSE Req(IF e.roe THEN e.res = "raised" ELSE e.res = "value" /\ v = (IF e.fn = "yfromp_f" THEN "0" ELSE o.y), e.fn))
        ELSE IF e.check /\ (startN \/ endN \/ margN) THEN {}
        ELSE IF e.check /\ RGt(r, PAt(o, o.y))
             THEN Req(IF e.roe THEN e.res = "raised" ELSE IF e.fn = "yfromp_f" THEN e.res = "none" ELSE e.res = "value" /\ v = "0", e.fn)
        ELSE IF e.check /\ RLt(r, PLow(o))
             THEN Req(IF e.roe THEN e.res = "raised" ELSE e.res = "value" /\ v = (IF e.fn = "yfromp_f" THEN "0" ELSE o.y), e.fn)
        ELSE Req(e.res = "value" /\ RNear(v, IF e.fn = "yfromp_f" THEN ytgt ELSE RSub(o.y, ytgt), REL, RMul("1/100000000000", ysc)), e.fn)
    [] e.fn = "dyfromdx_f" ->
        IF ~Live(o) THEN {}
        ELSE IF ~e.check /\ ~GoesX(RAdd(XAt(o, o.y), x)) THEN {}
        ELSE Val(~(e.check /\ RLt(x, "0")), Near(v, DyFromDx(o, x)))
    [] e.fn = "dxfromdy_f" ->
        IF ~Live(o) THEN {}
        ELSE IF RNear(x, o.y, REL, "0") /\ e.check THEN {}
        ELSE IF ~e.check /\ ~Goes(RSub(o.y, x)) THEN {}
        ELSE Val(~(e.check /\ (RLt(x, "0") \/ RGt(x, o.y))), RNear(v, DxFromDy(o, x), REL, "0"))
    [] e.fn = "xfromy_f" ->
        IF ~Live(o) THEN {}
        ELSE IF RNear(x, o.z, REL, "0") \/ RNear(x, "0", "0", RMul("1/1000000000000", o.z)) THEN {}
        ELSE IF e.check /\ (RLt(x, "0") \/ RGt(x, o.z)) THEN Req(e.res = (IF e.roe THEN "raised" ELSE "none"), "xfromy_f-bounds")
        ELSE IF ~Goes(x) THEN {}
        ELSE Req(e.res = "value" /\ RNear(v, XAt(o, x), REL, "0"), e.fn)
    [] e.fn = "yfromx_f" ->
        IF ~Live(o) THEN {}
        ELSE IF RNear(x, XInt(o), REL, "0") \/ RNear(x, "0", "0", RMul("1/1000000000000", XInt(o))) THEN {}
        ELSE IF e.check /\ (RLt(x, "0") \/ RGt(x, XInt(o))) THEN Req(e.res = (IF e.roe THEN "raised" ELSE "none"), "yfromx_f-bounds")
        ELSE IF ~GoesX(x) THEN {}
        ELSE Req(e.res = "value" /\ RNear(v, YOfX(o, x), REL, RMul("1/10000000000000", o.z)), e.fn)
    [] e.fn \in {"share", "liq"} ->
        IF Disabled(o) THEN Req(e.res = "value" /\ v = "0", e.fn)
        ELSE IF RNear(o.pmin, o.pmax, "1/1000000000", "0")
        THEN LET a == RMin(x, e.x2)  b == RMax(x, e.x2) IN
             IF RNear(a, o.pmax, "1/100000000", "0") \/ RNear(b, o.pmax, "1/100000000", "0") THEN {}
             ELSE IF RLt(a, o.pmin) /\ RGt(b, o.pmax)
             THEN Req(e.res = "value" /\ Near(v, IF e.fn = "share" THEN "1" ELSE IF e.tk = o.tkn THEN o.y
                       ELSE IF o.tkn = o.base THEN RMul(o.y, o.pmax) ELSE RDiv(o.y, o.pmax)), e.fn)
             ELSE Req(e.res = "value" /\ v = "0", e.fn)
        ELSE LET s == Share(o.pmin, o.pmax, x, e.x2)
                 a == RMax(o.pmin, RMin(x, e.x2))  b == RMin(o.pmax, RMax(x, e.x2))
                 p == RSqrt(RMul(a, b))
                 y == RMul(s, o.y)
                 ab == RDiv(RMul(TINY, o.pmax), RSub(o.pmax, o.pmin))
             IN IF e.fn = "share" THEN Req(e.res = "value" /\ RNear(v, s, REL, ab), e.fn)
                ELSE LET w == IF e.tk = o.tkn THEN y ELSE IF o.tkn = o.base THEN RMul(y, p) ELSE RDiv(y, p)
                     IN Req(e.res = "value" /\ RNear(v, w, REL, IF Zero(s) THEN RMul(RMul(ab, o.y), RAdd(o.pmax, RDiv("1", o.pmin))) ELSE RDiv(RMul(w, ab), s)), e.fn)
    [] e.fn = "params" ->
        IF ~Live(o) THEN {}
        ELSE IF Zero(o.S) \/ RLt(o.S, RMul(o.B, "1/100000")) THEN {}       \* Gamma = 0: no parameterisation
        ELSE IF e.res # "value" THEN {"params"}
        ELSE LET Q == e.vals[1]  G == e.vals[2]  x0 == e.vals[3]  y0_ == e.vals[4]
                 tol == RAdd(REL, RDiv("1/10000000000000", G))
                 N(a, b) == RNear(a, b, tol, "0")
                 one == "1"
             IN Req(/\ N(Q, RDiv(o.B, Top(o)))
                    /\ N(RMul(RSub(one, G), RSub(one, G)), Q)
                    /\ N(RMul(x0, RSub("2", G)), RMul(XInt(o), RSub(one, G)))
                    /\ N(RMul(y0_, RSub("2", G)), RMul(o.z, RSub(one, G)))
                    /\ N(e.vals[5], RMul(o.B, Top(o)))                                   \* p0 = sqrt(pa pb), raw
                    /\ N(RMul(e.vals[6], G), RMul(x0, RSub(G, one)))                       \* xasym
                    /\ N(RMul(e.vals[7], G), RMul(y0_, RSub(G, one)))                      \* yasym
                    /\ N(RMul(e.vals[8], RMul(G, G)), RMul(x0, y0_))                       \* kappa
                    /\ N(RMul(e.vals[9], e.vals[9]), e.vals[8])                           \* kappa_bar
                    /\ N(RMul(e.vals[10], G), one)                                        \* leverage
                    /\ N(e.vals[11], RDiv(o.pmax, o.pmin))
                    /\ RNear(e.vals[12], RDiv(RSub(o.pmax, o.pmin), e.vals[13]), REL, "1/10000000000000")
                    /\ N(RMul(e.vals[13], e.vals[13]), RMul(o.pmin, o.pmax))
                    /\ N(e.vals[14], XInt(o))
                    /\ RNear(e.vals[15], XAt(o, o.y), REL, "0")
                    /\ N(e.vals[16], Q) /\ N(e.vals[17], G)
                    /\ e.vals[18] = o.pa /\ e.vals[19] = o.pb /\ e.vals[20] = o.y, "params")
               \* the state is on the invariant (x - xasym)(y - yasym) = kappa
               \cup Req(N(RMul(RSub(XAt(o, o.y), e.vals[6]), RSub(o.y, e.vals[7])), e.vals[8]), "invariant")
    [] e.fn = "cpc" ->
        \* the equivalent levered constant product curve
        IF ~Live(o) \/ RLt(o.S, RMul(o.B, "1/100000")) THEN {}
        ELSE IF e.res # "value" THEN {"as-cpc"}
        ELSE LET isb == o.tkn = o.base
                 \* virtual balances of the sold and the received token
                 vy == RDiv(RMul(o.z, Marg(o)), o.S)
                 vx == RDiv(vy, PAt(o, o.y))
                 tol == RAdd(REL, RDiv(RMul("1/10000000000", Top(o)), o.S))
                 N(a, b) == RNear(a, b, tol, "0")
             IN Req(/\ e.cpair = o.base \o "/" \o o.quote
                    /\ N(e.vals[1], RMul(vx, vy))
                    /\ N(e.vals[2], IF isb THEN vy ELSE vx) /\ N(e.vals[3], IF isb THEN vx ELSE vy)
                    /\ RNear(e.vals[4], IF isb THEN o.y ELSE "0", tol, RMul(tol, IF isb THEN vy ELSE vx))
                    /\ RNear(e.vals[5], IF isb THEN "0" ELSE o.y, tol, RMul(tol, IF isb THEN vx ELSE vy))
                    /\ N(e.vals[6], o.pm), "as-cpc")
    [] e.fn = "yzABS" ->
        LET dy == e.decs[1]  dx == e.decs[2]
            sc == RPow("2", e.sx)
            f2 == IF dy >= dx THEN RPow("10", dy - dx) ELSE RDiv("1", RPow("10", dx - dy))
            A == RMul(o.S, RMul(RSqrt(f2), sc))  B == RMul(o.B, RMul(RSqrt(f2), sc))
            Int(a, w) == RIsInt(a) /\ RLe(RAbs(RSub(a, w)), RAdd("1", RMul(w, "1/1000000000000")))
                         /\ RLe(a, RMul(w, "1000000000001/1000000000000"))
        IN Req(e.res = "value" /\ Near(e.vals[1], RMul(o.y, RPow("10", dy))) /\ Near(e.vals[2], RMul(o.z, RPow("10", dy)))
               /\ Int(e.vals[3], A) /\ Int(e.vals[4], B) /\ e.vals[5] = sc, "yzABS")
    [] e.fn = "seek" ->
        IF ~Live(o) \/ RLt(o.y, RMul("1/100000", o.z)) \/ RLt(o.S, RMul(o.B, "1/10000")) THEN {}
        ELSE Req(e.res = "value" /\ RNear(v, x, "1/100000", "0"), "goalseek")
    [] OTHER -> {}

JudgeStatic(e) ==
  IF e.fn = "seek"
  THEN Req(e.res = "value" /\ RLe(RAbs(RSub(e.vals[1], e.root)), RMul("1/1000000", RMax(RAbs(e.lo), RAbs(e.hi)))), "goalseek")
  ELSE \* at least d significant digits are kept
       LET m == RAbs(e.x) IN
       IF ~Pos(e.x) THEN {}
       ELSE Req(e.res = "value" /\ RNear(e.vals[1], e.x, RDiv("1", RPow("10", e.d - 1)), "0"), "roundsd")

-----------------------------------------------------------------------------
Judge(e) ==
  IF ~e.wf THEN {"crash"}
  ELSE CASE e.op = "make" -> JudgeMake(e)
         [] e.op \in {"sell", "buy"} -> JudgeTrade(e)
         [] e.op = "to" -> JudgeTrade(e) \cup JudgeTo(e)
         [] e.op = "add" -> JudgeAdd(e)
         [] e.op = "query" -> JudgeQuery(e) \cup Req(Unchanged(e), "query-changed")
         [] OTHER -> JudgeStatic(e) \cup Req(Unchanged(e), "query-changed")

Init == tid \in DOMAIN Traces /\ l = 0 /\ st = <<>>
Next == /\ l < Len(Traces[tid].evs)
        /\ l' = l + 1 /\ tid' = tid
        /\ LET e == Traces[tid].evs[l'] IN
           /\ Report(Traces[tid].tid, l', e.op, Judge(e))
           /\ st' = IF "st" \in DOMAIN e THEN e.st ELSE st
Spec == Init /\ [][Next]_tvars
=============================================================================
