---------------------------- MODULE Trace_Bench ----------------------------
(* Validates recorded encodings, trades and matchings against BenchCore. *)
EXTENDS BenchCore, Verdict

VARIABLES tid, l
tvars == <<tid, l>>

EPS == "1/70368744177664"                              \* 2^-46: mantissas have 48 bits
Cv(o) == [y |-> o.y, z |-> o.z, A |-> o.a, B |-> o.b]

\* r is the root of p in units of ONE, rounded down to 48 significant bits
RootOK(r, p) == LET q == RMul(RSqrt(p), ONE)
                IN RIsInt(r) /\ RLe(r, RAdd(q, "1/1000000")) /\ RGe(r, RSub(RMul(q, RSub("1", EPS)), "1"))
\* d is v rounded down to 48 significant bits
FloatOK(d, v) == /\ RLe(d, v) /\ RGe(d, RMul(v, RSub("1", RMul("2", EPS))))
                 /\ RLt(v, ONE) => d = v
Prec(a, b) == RNear(a, b, RPow("10", -40), "0")

JudgeOrder(e) ==
  LET rl == RMul(RSqrt(e.lo), ONE)  rh == RMul(RSqrt(e.hi), ONE)  rm == RMul(RSqrt(e.mg), ONE)
      prec == RAdd("2", RMul(EPS, rh))
  IN IF ~e.ok THEN Req(RLe(RSub(rm, rl), prec), "encode-refused")       \* nothing to divide by: no difference left after rounding
     ELSE LET c == Cv(e.enc)  d == e.dec  q == e.ref
              m == RAdd(c.B, RDiv(RMul(c.A, c.y), c.z))
          IN Req(c.y = RFloor(e.liq), "encode-liquidity")
             \cup Req(RootOK(c.B, e.lo), "encode-low")
             \cup Req(RNear(RAdd(c.A, c.B), rh, "0", prec) /\ (e.hi = e.lo => c.A = "0") /\ RGe(c.A, "0"), "encode-high")
             \cup Req(RGe(c.z, c.y) /\ (e.hi = e.mg => c.z = c.y), "encode-capacity")
             \cup Req(Pos(c.z) => RNear(m, rm, "0", RAdd(RMul("4", prec),
                        RAdd(RDiv(c.A, c.z), RDiv(RMul(prec, c.A), RMax("1", RSub(rm, rl)))))), "encode-marginal")
             \cup Req(DecodeFloat(e.enc.A) = c.A /\ DecodeFloat(e.enc.B) = c.B, "decode-float")
             \cup Req(~e.hasdec \/ /\ Prec(d.liq, c.y) /\ Prec(d.lo, Sq(RDiv(c.B, ONE))) /\ Prec(d.hi, Sq(RDiv(RAdd(c.A, c.B), ONE)))
                                    /\ Prec(d.mg, Sq(RDiv(m, ONE))), "decode")
             \cup Req(/\ RNear(q.liq, e.liq, RPow("10", -60), "0") /\ RNear(q.lo, e.lo, RPow("10", -60), "0")
                      /\ RNear(q.hi, e.hi, RPow("10", -60), "0") /\ RNear(q.mg, e.mg, RPow("10", -60), "0"), "reference-code")

JudgeTrade(e) ==
  LET c == Cv(e.c)
  IN Req(IF e.side = "source" THEN SrcOK(c, e.amt, e.res) ELSE TrgOK(c, e.amt, e.res), "quote-" \o e.side)
     \cup Req(e.whole = e.res, "execute") \cup Req(e.same, "order-changed")

\* the reference: the order's curve, starting from the marginal rate, without rounding
RefExact(o, side, x) ==
  LET L == RSqrt(o.lo)  M == RSqrt(o.mg)  y == o.liq
  IN IF side = "source" THEN RDiv(RMul(Sq(M), RMul(x, y)), RAdd(RMul(M, RMul(RSub(M, L), x)), y))
     ELSE RDiv(RMul(x, y), RAdd(RMul(M, RMul(RSub(L, M), x)), RMul(Sq(M), y)))
JudgeReference(e) ==
  LET q == RefExact(e.o, e.side, e.amt)
  IN Req(IF e.res = "None" THEN Zero(e.o.liq) \/ Zero(e.o.lo) ELSE RIsNum(q) => RNear(e.res, q, RPow("10", -20), "0"), "reference")

JudgeFloat(e) == Req(FloatOK(e.dec, e.amt) /\ DecodeFloat(e.enc) = e.dec /\ RIsInt(e.enc), "float")
                 \cup Req(e.again = e.enc, "float-again")
JudgeRate(e) == Req(RootOK(e.enc, e.amt), "rate") \cup Req(Prec(e.dec, Sq(RDiv(e.enc, ONE))), "rate-decoded")

-----------------------------------------------------------------------------
RECURSIVE Sum(_, _)
Sum(s, f) == IF s = <<>> THEN "0" ELSE RAdd(Head(s)[f], Sum(Tail(s), f))

ActionsOK(e, as) ==
  /\ \A k \in DOMAIN as : as[k].id \in DOMAIN e.cs
  /\ \A j, k \in DOMAIN as : j # k => as[j].id # as[k].id

\* what an action does is a trade of its order, within its balance and the amount
ActionOK(e, a) ==
  LET c == Cv(e.cs[a.id])
  IN /\ RIsInt(a.in) /\ RIsInt(a.out) /\ Pos(a.in) /\ Pos(a.out) /\ RLe(a.in, e.amt)
     /\ IF e.side = "source" THEN RLe(a.out, c.y) /\ SrcOK(c, a.in, a.out) ELSE RLe(a.in, c.y) /\ TrgOK(c, a.in, a.out)

MaxOf(S) == CHOOSE m \in S : \A k \in S : RGe(m, k)

JudgeFast(e) ==
  LET as == e.fast
      q  == e.quotes
      rest == RSub(e.amt, Sum(as, "in"))
      used == {as[k].id : k \in DOMAIN as}
      free == {i \in DOMAIN q : i \notin used /\ Useful(q[i])}
      top  == {i \in free : \A j \in free : ~Better(e.side, q[j], q[i])}
      full(k) == as[k].in = q[as[k].id].in /\ as[k].out = q[as[k].id].out
  IN IF ~ActionsOK(e, as) THEN {"fast-orders"}
     ELSE Req(RGe(rest, "0"), "fast-too-much")
          \cup Req(\A k \in DOMAIN as : ActionOK(e, as[k]), "fast-action")
          \cup Req(\A k \in DOMAIN as : k < Len(as) => full(k), "fast-partial")
          \cup Req(\A k \in DOMAIN as : k < Len(as) => ~Better(e.side, q[as[k + 1].id], q[as[k].id]), "fast-ranking")
          \cup Req(as = <<>> \/ \A i \in free : ~Better(e.side, q[i], q[as[Len(as)].id]), "fast-skips")
          \cup Req(\/ Zero(rest) \/ (free = {} /\ \A k \in DOMAIN as : full(k))
                   \* the rest is too small to buy anything from the next one
                   \/ /\ \A k \in DOMAIN as : full(k)
                      /\ e.side = "source"
                      /\ \E i \in top : RLt(rest, q[i].in) /\ RLt(SrcLow(Cv(e.cs[i]), rest), "1"), "fast-incomplete")

\* the orders which the exact optimum can use
Open(e) == {i \in DOMAIN e.cs : Pos(e.cs[i].y) /\ Pos(e.cs[i].z) /\ Pos(e.cs[i].b)}
JudgeBest(e) ==
  LET as == e.best
      t  == e.side = "target"
      op == Open(e)
      C  == [i \in op |-> AsCurve(Cv(e.cs[i]))]
      n  == Len(e.cs)
      rest == RSub(e.amt, Sum(as, "in"))
      cap == Capacity(C, t)
      amt == RMin(e.amt, cap)
      lev == OptLevel(C, amt, t)
      \* the price of one unit of what is matched, at the best and at the worst
      pmax == LET P == {MargP(C[i]) : i \in op} IN MaxOf(P)
      unit == IF t THEN RDiv("1", RMul(RMin(lev, MaxOf({C[i].B : i \in op})), MaxOf({C[i].B : i \in op}))) ELSE pmax
      out == IF t
             THEN \* cost of the optimum: complete the flat orders at the level
                  LET f(i) == SoldLo(C[i], lev)
                      base == RSumF([i \in op |-> IF Zero(f(i)) THEN "0" ELSE DxFromDy(C[i], f(i))], op)
                      gap == RSub(amt, RSumF([i \in op |-> f(i)], op))
                  IN RAdd(base, RDiv(gap, Sq(lev)))
             ELSE LET f(i) == SoldLo(C[i], lev)
                      x == RSumF([i \in op |-> IF Zero(f(i)) THEN "0" ELSE DxFromDy(C[i], f(i))], op)
                  IN RAdd(RSumF([i \in op |-> f(i)], op), RMul(RSub(amt, x), Sq(lev)))
      tot == Sum(as, "out")
      few == RMul(n + 2, RAdd("2", RMul("2", unit)))
      tol == RAdd(few, RMul("1/1000000000", out))
  IN IF ~ActionsOK(e, as) THEN {"best-orders"}
     ELSE Req(RGe(rest, "0"), "best-too-much")
          \cup Req(\A k \in DOMAIN as : ActionOK(e, as[k]), "best-action")
          \cup (IF op = {} \/ Zero(amt) THEN {}
                ELSE \* nothing that could be matched is left over
                     Req(RLe(RSub(amt, Sum(as, "in")), RAdd(n + 2, RDiv("2", IF t THEN "1" ELSE RMin("1", Sq(lev))))), "best-incomplete")
                     \cup Req(\/ RGt(e.amt, cap) /\ \E i \in DOMAIN e.cs : Pos(e.cs[i].y) /\ Zero(e.cs[i].b)   \* no finite price for the rest
                              \/ IF t THEN RLe(tot, RAdd(out, tol)) ELSE RGe(tot, RSub(out, tol)), "best-not-optimal"))

JudgeMatch(e) ==
  LET n == Len(e.cs)
  IN Req(\A i \in DOMAIN e.quotes : QuoteOK(Cv(e.cs[i]), e.amt, e.side, e.quotes[i].in, e.quotes[i].out), "quote")
     \cup Req(e.hasfast = (e.types # "Best") /\ e.hasbest = (e.types # "Fast" /\ e.besterr = "no"), "match-types")
     \cup Req(e.besterr = "no", "best-failed")
     \cup Req(e.same, "match-changed")
     \cup (IF ~e.hasfast THEN {} ELSE JudgeFast(e))
     \cup (IF ~e.hasbest THEN {} ELSE JudgeBest(e))

Judge(e) ==
  IF ~e.wf THEN {"crash"}
  ELSE CASE e.op = "order" -> JudgeOrder(e)
    [] e.op = "trade" -> JudgeTrade(e)
    [] e.op = "reference" -> JudgeReference(e)
    [] e.op = "float" -> JudgeFloat(e)
    [] e.op = "rate" -> JudgeRate(e)
    [] e.op = "match" -> JudgeMatch(e)
    [] OTHER -> {"unknown-event"}

Init == tid \in DOMAIN Traces /\ l = 0
Next == /\ l < Len(Traces[tid].evs)
        /\ l' = l + 1 /\ tid' = tid
        /\ LET e == Traces[tid].evs[l'] IN Report(Traces[tid].tid, l', e.op, Judge(e))
Spec == Init /\ [][Next]_tvars
=============================================================================
