----------------------------- MODULE Trace_Path -----------------------------
(* Validates recorded strategies, runs and price series against PathCore. *)
EXTENDS PathCore, Integers, Verdict

VARIABLES tid, l, m             \* m: the model's book while a run is judged, the amounts it started with
tvars == <<tid, l, m>>

REL == "1/1000000000000"
Near(a, b) == IF a = None \/ b = None THEN a = b ELSE RNear(a, b, REL, "0")
Numbers == {"psa", "psb", "pba", "pbb", "ar", "ac", "psm", "pbm", "ys", "yb", "fctr"}
Same(a, b) == /\ \A k \in Numbers : Near(a[k], b[k])
              /\ a.rsk = b.rsk /\ a.csh = b.csh /\ a.rescale = b.rescale

Build(a) ==
  CASE a.how = "mgw" -> Mgw(a.m, a.g, a.w, a.u, a.ar, a.ac, a.rsk, a.csh)
    [] a.how = "sb" -> Sb(a.sell, a.buy, a.fixed, a.overlapping)
    [] a.how = "u3" -> U3(a.lo, a.hi, a.below, a.tvl, a.fee, a.rsk, a.csh)
    [] a.how = "plain" -> Make([psa |-> a.psa, psb |-> a.psb, pba |-> a.pba, pbb |-> a.pbb, ar |-> a.ar, ac |-> a.ac, psm |-> a.psm,
                                pbm |-> a.pbm, ys |-> a.ys, yb |-> a.yb, rsk |-> a.rsk, csh |-> a.csh, rescale |-> a.rescale, fctr |-> None])
    [] a.how = "dct" /\ a.kind \in {"mgw", "MGW"} -> Mgw(a.a.m, a.a.g, a.a.w, a.a.u, None, None, None, None)
    [] a.how = "dct" /\ a.kind = "fixed" -> Make([Plain(a.s.psa, a.s.psb, a.s.pba, a.s.pbb) EXCEPT !.rescale = FALSE])
    [] a.how = "dct" /\ a.kind = "uv3" -> U3(a.u.lo, a.u.hi, a.u.below, None, a.u.fee, None, None)
    [] OTHER -> Refusal

JudgeMade(e) == LET r == Build(e.a) IN
  IF r.ok # e.ok THEN {IF e.ok THEN "strategy-accepted" ELSE "strategy-refused"}
  ELSE IF ~e.ok THEN {} ELSE Req(Same(e.s, r.s), "strategy-fields")

JudgeDct(e) ==
  LET b == e.before  d == e.d IN
  Req(/\ e.n = 12 /\ e.same /\ d.tkn = b.rsk /\ d.pair = b.rsk \o "/" \o b.csh /\ e.slash = d.pair
      /\ d.amt_sell = b.ar /\ d.psell_start = b.psa /\ d.psell_end = b.psb /\ d.psell_marginal = b.psm /\ d.y_int_sell = b.ys
      /\ d.amt_buy = b.ac /\ d.pbuy_start = b.pba /\ d.pbuy_end = b.pbb /\ d.pbuy_marginal = b.pbm /\ d.y_int_buy = b.yb
      /\ e.p = <<b.rsk, b.ar, b.psa, b.psb, b.ac, b.pba, b.pbb>>, "strategy-dct")

\* the fields in which records differ from the first
Keys == {"id0", "comment", "p", "q", "r"}
JudgeDiff(e) ==
  LET R == e.recs
      D(i) == {k \in Keys : R[i][k] # R[1][k]}
      hide(K) == K \ {"id0", "comment"}
      want(i) == IF e.baseline /\ i = 1 THEN [k \in hide(Keys) |-> R[1][k]]
                 ELSE IF e.purge THEN [k \in hide(D(i)) |-> R[i][k]]
                 ELSE [k \in Keys |-> IF k \in D(i) THEN R[i][k] ELSE None]
      got(i) == LET s == e.res[i] IN [k \in {s[j].k : j \in DOMAIN s} |-> s[CHOOSE j \in DOMAIN s : s[j].k = k].v]
      cols == {k \in Keys \ ({"id0"} \cup (IF e.comment THEN {} ELSE {"comment"})) : \E i \in DOMAIN R : k \in D(i)}
  IN IF ~e.asdf THEN Req(Len(e.res) = Len(R) /\ \A i \in DOMAIN R : got(i) = want(i), "strategy-diff")
     ELSE Req(/\ {e.rows[j].c : j \in DOMAIN e.rows} = cols
              /\ \A j \in DOMAIN e.rows : /\ Len(e.rows[j].v) = Len(R)
                                          /\ \A i \in DOMAIN R : e.rows[j].v[i] = (IF e.rows[j].c \in D(i) THEN R[i][e.rows[j].c] ELSE ""), "strategy-diff")

-----------------------------------------------------------------------------
(* runs *)
ShiftOf(e) == IF e.shift = None THEN "0" ELSE e.shift
Scaled(e) == [k \in DOMAIN e.strats |-> Rescaled(e.strats[k], RMul(e.spot, RAdd("1", ShiftOf(e))), "100", FALSE)]
RunOK(e) == LET s == Scaled(e) IN (\A k \in DOMAIN s : s[k].ok) /\ Runnable([k \in DOMAIN s |-> s[k].s])

JudgeRun(e) ==
  IF RunOK(e) # e.ok THEN {IF e.ok THEN "run-accepted" ELSE "run-refused"}
  ELSE IF ~e.ok THEN {}
  ELSE Req(Len(e.after) = Len(e.strats) /\ \A k \in DOMAIN e.after : Same(e.after[k], Scaled(e)[k].s), "run-rescaled")
       \cup Req(e.unchanged, "run-changed-strategy") \cup Req(e.n = e.want, "run-length")

\* amounts agree up to float rounding; what one token is worth in the other bounds the error of both
JudgeAt(e, b) ==
  LET rsk == Amount(b, m.rsk)  csh == Amount(b, m.csh)
      tot == Worth(b, m.rsk, m.csh, e.spot)
      tr  == RAdd("1/100000000", RDiv(RMul("1/1000000000", tot), e.spot))
      tc  == RMul(tr, RMax("1", e.spot))
      \* ids in ascending order, as the lists are
      Marg0(t) == SelectSeq([i \in 1 .. Orders(b) |-> i - 1], LAMBDA i : b[i].tkn = t)
      mOK(list, t) == /\ Len(list) = Len(Marg0(t))
                      /\ \A k \in DOMAIN list : LET o == b[Marg0(t)[k]] IN
                            RLt(o.z, "1/1000000") \/ RNear(list[k], PMarg(o), RAdd("1/10000000", RDiv(RMax(tr, tc), o.z)), "0")
  IN Req(RNear(e.rsk, rsk, "0", tr), "run-rsk")
     \cup Req(RNear(e.csh, csh, "0", tc), "run-csh")
     \cup Req(mOK(e.bids, m.rsk) /\ mOK(e.asks, m.csh), "run-marginal")
     \cup Req(RNear(e.value, RAdd(RMul(e.rsk, e.spot), e.csh), REL, "0"), "run-value")
     \cup Req(RNear(e.hodl, RAdd(RMul(m.r0, e.spot), m.c0), "1/1000000000", "1/1000000000"), "run-hodl")
     \cup Req(e.path = e.spot /\ e.t = e.t0, "run-path")
     \* what holds for every run whatever the model says
     \cup Req(RGe(e.rsk, RNeg(tr)) /\ RGe(e.csh, RNeg(tc)), "run-negative")
     \cup Req(m.k = 0 \/ RLe(e.value, RAdd(RAdd(RMul(m.pr, e.spot), m.pc), tc)), "run-gift")

\* the book after the move: of those it may be (rounding decides whether a flat order trades at its very
\* price), the one with the recorded amount of rsk
AtPrice(e) == {i \in DOMAIN m.book : LET o == m.book[i] IN Zero(o.S) /\ Pos(o.y) /\ RNear(O!Quoted(o, O!PLow(o)), e.spot, REL, "0")}
NextBook(e) ==
  IF m.k = 0 THEN m.book
  ELSE LET S == {StepWith(m.book, e.spot, AtPrice(e), X) : X \in SUBSET AtPrice(e)}
           far(b) == RAbs(RSub(Amount(b, m.rsk), e.rsk))
       IN CHOOSE b \in S : \A c \in S : RLe(far(b), far(c))

-----------------------------------------------------------------------------
(* series *)
MINUTE == "60000000000"                         \* times are in nanoseconds
T(p) == p[1]
V(p) == p[2]
JudgeInterp(e) ==
  LET o == e.orig  r == e.res  N == Len(o)
      At(k) == {j \in DOMAIN r : T(r[j]) = T(o[k])}
      ix == [k \in 1 .. N |-> IF At(k) = {} THEN 0 ELSE CHOOSE j \in At(k) : TRUE]
      gap(k) == RSub(T(o[k + 1]), T(o[k]))
      per == RMul(e.period, MINUTE)
      \* number of segments: the nearest integer to gap / period, at least one
      segs(k) == ix[k + 1] - ix[k]
      segOK(k) == LET q == RDiv(gap(k), per)
                  IN IF RLt(q, "1") THEN segs(k) = 1 ELSE RLe(RAbs(RSub(q, segs(k))), "1/2")
      even(k) == \A j \in 0 .. segs(k) : RNear(T(r[ix[k] + j]), RAdd(T(o[k]), RDiv(RMul(gap(k), j), segs(k))), "0", RMul("2", segs(k)))
      line(k) == \A j \in 0 .. segs(k) : RNear(V(r[ix[k] + j]), RAdd(V(o[k]), RDiv(RMul(RSub(V(o[k + 1]), V(o[k])), j), segs(k))), "1/1000000000", "0")
  IN Req(e.same, "interp-changed-input")
     \cup (IF ~e.enable THEN Req(r = o, "interp-disabled")
     ELSE IF (\E k \in 1 .. N : ix[k] = 0) THEN {"interp-points"}
     ELSE Req(ix[1] = 1 /\ ix[N] = Len(r) /\ \A j \in 1 .. Len(r) - 1 : RLt(T(r[j]), T(r[j + 1])), "interp-order")
          \cup (IF (\E k \in 1 .. N - 1 : segs(k) <= 0) THEN {"interp-order"}
                ELSE Req(\A k \in 1 .. N : V(r[ix[k]]) = V(o[k]), "interp-points")
                     \cup Req(\A k \in 1 .. N - 1 : segOK(k) /\ even(k), "interp-spacing")
                     \cup (IF e.zero THEN Req(\A k \in 1 .. N - 1 : line(k), "interp-line") ELSE {})))

\* variance of the differences d of a series
Mean(d) == RDiv(RSumS(d), Len(d))
Var(d) == LET mu == Mean(d) IN Mean([k \in DOMAIN d |-> RMul(RSub(d[k], mu), RSub(d[k], mu))])
LN2 == "6931471805599453/10000000000000000"
Log2s == "1" :> 0 @@ "2" :> 1 @@ "4" :> 2 @@ "8" :> 3 @@ "16" :> 4 @@ "1/2" :> 0 - 1
JudgeVol(e) ==
  LET N == Len(e.prices)
      dt == RDiv(e.days, "1461/4")              \* years of 365.25 days
      sd2 == RDiv(Var([k \in 1 .. N - 1 |-> RSub(e.prices[k + 1], e.prices[k])]), dt)
      pw == \A k \in 1 .. N : e.prices[k] \in DOMAIN Log2s
      sg2 == RDiv(Var([k \in 1 .. N - 1 |-> RMul(LN2, Log2s[e.prices[k + 1]] - Log2s[e.prices[k]])]), dt)
      sq(x) == RMul(x, x)
      near(a, b) == RNear(a, b, "1/1000000000", "1/1000000000000")
  IN Req(near(sq(e.sd), sd2), "vol-normal")
     \cup Req(pw => near(sq(e.sig), sg2), "vol-lognormal")
     \cup Req(near(e.sig, e.sig7) /\ near(e.sig, e.siginv) /\ near(RMul("2", e.sig4), e.sig) /\ near(RMul("2", e.sd4), e.sd), "vol-lognormal")

JudgeGen(e) ==
  LET P == e.vals
      year == "31557600"                        \* seconds
      at(i) == RDiv(RMul(RMul(e.time, year), i), e.N)
  IN Req(e.cols = e.names, "gen-columns")
     \cup Req(Len(P) = e.paths + 2 /\ \A k \in DOMAIN P : Len(P[k]) = e.N + 1 /\ RNear(P[k][1], e.s0, REL, "0") /\ \A i \in DOMAIN P[k] : Pos(P[k][i]), "gen-paths")
     \cup Req(Len(e.times) = e.N + 1 /\ Len(e.dts) = e.N + 1 /\ e.dts = e.dtg
              /\ \A i \in 0 .. e.N : /\ RNear(e.times[i + 1], RDiv(RMul(e.time, i), e.N), REL, "0")
                                     /\ RNear(e.dts[i + 1], at(i), "0", "1/1000"), "gen-times")
     \* no volatility: every path is the same exponential;  with volatility no two are
     \cup Req(IF e.flat THEN \A k \in DOMAIN P : \A i \in 1 .. e.N :
                               /\ i = 1 \/ RNear(RMul(P[k][i], P[k][i]), RMul(P[k][i - 1], P[k][i + 1]), "1/1000000000", "0")
                               /\ e.still => RNear(P[k][i + 1], P[k][i], REL, "0")
              ELSE e.distinct, "gen-volatility")

SLACK == "1000"                                 \* nanoseconds
JudgeRead(e) ==
  LET all == SelectSeq(e.orig, LAMBDA p : e.min < 0 \/ RGe(T(p), RMul(e.min, RMul("1440", MINUTE))))
      DAY == RMul("1440", MINUTE)
      first == T(all[1])  last == T(all[Len(all)])
      span == RSub(last, first)
      from == CASE e.frm = "ts" -> RMax(first, RMul(e.fd, DAY))
                [] e.frm = "pc" -> RAdd(first, RMul(e.fpc, span))
                [] OTHER -> first
      to == CASE e.per = "days" -> RAdd(from, RMul(e.pd, DAY))
              [] e.per = "pc" -> RAdd(from, RMul(e.ppc, span))
              [] OTHER -> last
      must == SelectSeq(all, LAMBDA p : RGe(T(p), RAdd(from, SLACK)) /\ RLe(T(p), RSub(to, SLACK)))
      may  == SelectSeq(all, LAMBDA p : RGe(T(p), RSub(from, SLACK)) /\ RLe(T(p), RAdd(to, SLACK)))
      refuse == e.frm = "both" \/ e.per = "both" \/ (e.col = "none" /\ e.invert) \/ e.col = "bad"
      \* without fractions the bounds are exact
      crisp == e.frm # "pc" /\ e.per # "pc"
      val(p) == LET v == p[e.which + 2] IN IF e.invert THEN RDiv("1", v) ELSE v
      isrow(q, p) == IF e.col = "none" THEN q = p ELSE T(q) = T(p) /\ Near(V(q), val(p))
      inall(q) == \E j \in DOMAIN all : isrow(q, all[j])
      tk == LET t == IF e.col = "name" /\ e.which = 0 THEN <<"ETH", "USDC">> ELSE <<"RSK", "CSH">> IN IF e.invert THEN <<t[2], t[1]>> ELSE t
  IN IF refuse THEN Req(~e.ok, "read-accepted")
     ELSE IF ~e.ok THEN {"read-refused"}
     ELSE Req(e.frame = (e.col = "none"), "read-kind")
          \cup Req(/\ \A j \in 1 .. Len(e.res) - 1 : RLt(T(e.res[j]), T(e.res[j + 1]))
                   /\ \A j \in DOMAIN e.res : inall(e.res[j])
                   /\ LET ts == {T(e.res[j]) : j \in DOMAIN e.res}
                          a == {T(must[j]) : j \in DOMAIN must}  b == {T(may[j]) : j \in DOMAIN may}
                      IN IF crisp THEN ts = b ELSE a \subseteq ts /\ ts \subseteq b, "read-rows")
          \cup Req(e.tk = (IF e.tkns /\ e.col # "none" THEN tk ELSE <<"", "">>), "read-tokens")
          \cup Req("time" \notin DOMAIN e \/ LET d == RDiv(RSub(T(e.res[Len(e.res)]), T(e.res[1])), DAY) IN
                     /\ Near(e.time[3], d) /\ Near(e.time[1], RDiv(d, "1461/4")) /\ Near(e.time[2], e.time[1]), "read-time")

\* start conditions: a valuation split by weights, at the first price; the path covers the year 2020
JudgeConds(e) ==
  LET N == Len(e.prices)
      sh == RDiv(e.val, RAdd(e.w[1], e.w[2]))
      r == Make([Plain(e.ranges[2], e.ranges[1], e.ranges[3], e.ranges[4]) EXCEPT !.psm = e.marg[1], !.pbm = e.marg[2],
                 !.ar = RDiv(RMul(sh, e.w[1]), e.prices[1]), !.ac = RMul(sh, e.w[2])])
  IN Req(Same(e.s, r.s), "conditions")
     \cup Req(/\ e.n = N /\ Len(e.res) = N
              /\ \A i \in DOMAIN e.res : /\ V(e.res[i]) = e.prices[i]
                                        /\ RNear(T(e.res[i]), RDiv(RMul(RMul("366", RMul("1440", MINUTE)), i - 1), N - 1), "0", RMul("2", N)), "conditions")

-----------------------------------------------------------------------------
Judge(e) ==
  IF ~e.wf THEN {"crash"}
  ELSE CASE e.op = "made" -> JudgeMade(e)
    [] e.op = "rescale" -> LET r == Rescaled(e.before, e.new, e.old, e.force) IN
         Req(e.same /\ (e.ok => e.fresh), "strategy-original")
         \cup (IF r.ok # e.ok THEN {"strategy-rescale"} ELSE IF e.ok THEN Req(Same(e.s, r.s), "strategy-rescale") ELSE {})
    [] e.op = "tvl" -> Req(e.same /\ e.fresh, "strategy-original") \cup Req(Same(e.s, Tvl(e.before, e.spot, e.pc, e.tvl)), "strategy-tvl")
    [] e.op = "dct" -> JudgeDct(e)
    [] e.op = "diff" -> JudgeDiff(e)
    [] e.op = "run" -> JudgeRun(e)
    [] e.op = "at" -> JudgeAt(e, NextBook(e))
    [] e.op = "interp" -> JudgeInterp(e)
    [] e.op = "vol" -> JudgeVol(e)
    [] e.op = "gen" -> JudgeGen(e)
    [] e.op = "conds" -> JudgeConds(e)
    [] e.op = "read" -> JudgeRead(e)
    [] OTHER -> {"unknown-event"}

NoRun == [k |-> 0, book |-> <<>>]
Init == tid \in DOMAIN Traces /\ l = 0 /\ m = NoRun
Next == /\ l < Len(Traces[tid].evs)
        /\ l' = l + 1 /\ tid' = tid
        /\ LET e == Traces[tid].evs[l'] IN
           /\ Report(Traces[tid].tid, l', e.op, Judge(e))
           /\ m' = CASE e.wf /\ e.op = "run" /\ e.ok /\ RunOK(e) ->
                          LET b == StartBook([k \in DOMAIN e.strats |-> Scaled(e)[k].s])
                              r == e.strats[1].rsk  c == e.strats[1].csh
                          IN [k |-> 0, book |-> b, rsk |-> r, csh |-> c, r0 |-> Amount(b, r), c0 |-> Amount(b, c), pr |-> "0", pc |-> "0"]
                     [] e.wf /\ e.op = "at" -> [m EXCEPT !.k = @ + 1, !.book = IF m.k = 0 THEN @ ELSE NextBook(e), !.pr = e.rsk, !.pc = e.csh]
                     [] OTHER -> m
Spec == Init /\ [][Next]_tvars
=============================================================================
