----------------------------- MODULE Trace_Cpc ------------------------------
(* Validates recorded curves, containers and optimizations against CpcCore. *)
EXTENDS CpcCore, Integers, Verdict

VARIABLES tid, l, cs              \* cs: the container
tvars == <<tid, l, cs>>

EPS == "1/1000000000000"
\* what the tokens of the generator are called without their suffix, their rank as numeraires (-1: none) and by name
Short == [t \in {"ETH-6Cc2", "USDC-eB48", "DAI-1d0F", "WBTC-C599", "LINK-86CA", "AAVE-DaE9", "USDC-1130", "SHIB-C4cE"} |->
           CASE t = "ETH-6Cc2" -> "ETH" [] t = "USDC-eB48" -> "USDC" [] t = "DAI-1d0F" -> "DAI" [] t = "WBTC-C599" -> "WBTC"
             [] t = "LINK-86CA" -> "LINK" [] t = "AAVE-DaE9" -> "AAVE" [] t = "USDC-1130" -> "USDC" [] t = "SHIB-C4cE" -> "SHIB"]
Num == [t \in DOMAIN Short |-> CASE Short[t] = "USDC" -> 0 [] Short[t] = "DAI" -> 2 [] Short[t] = "ETH" -> 14 [] Short[t] = "WBTC" -> 16 [] OTHER -> -1]
Ord == [t \in DOMAIN Short |-> CASE t = "AAVE-DaE9" -> 1 [] t = "DAI-1d0F" -> 2 [] t = "ETH-6Cc2" -> 3 [] t = "LINK-86CA" -> 4
                                 [] t = "SHIB-C4cE" -> 5 [] t = "USDC-1130" -> 6 [] t = "USDC-eB48" -> 7 [] t = "WBTC-C599" -> 8]
Prim(b, q) == Primary(b, q, Num, Ord)

Rng(s) == {s[i] : i \in DOMAIN s}
Near(a, b, rel, abs) == IF a = None \/ b = None THEN a = b ELSE RNear(a, b, rel, abs)

-----------------------------------------------------------------------------
(* making curves *)
Expected(e) ==
  LET a == e.a IN
  CASE e.how \in {"kx", "plain"} -> Curve0(a.k, a.x, a.xa, a.ya)
    [] e.how = "ky" -> Curve0(a.k, RDiv(a.k, a.y), a.xa, a.ya)
    [] e.how = "xy" -> Curve0(RMul(a.x, a.y), a.x, a.xa, a.ya)
    [] e.how = "pk" -> Curve0(a.k, RSqrt(RDiv(a.k, a.p)), a.xa, a.ya)
    [] e.how = "px" -> Curve0(RMul(a.p, RMul(a.x, a.x)), a.x, a.xa, a.ya)
    [] e.how = "py" -> Curve0(RDiv(RMul(a.y, a.y), a.p), RDiv(a.y, a.p), a.xa, a.ya)
    [] e.how = "pkpp" -> FromRange(a.k, a.p, IF a.pmin = None THEN a.p ELSE a.pmin, IF a.pmax = None THEN a.p ELSE a.pmax)
    [] e.how = "uv2" -> (CASE a.skip = "k" -> Curve0(RMul(a.x, a.y), a.x, None, None) [] a.skip = "x" -> Curve0(a.k, RDiv(a.k, a.y), None, None)
                           [] OTHER -> Curve0(a.k, a.x, None, None))
    [] e.how = "uv3" -> FromRange(RMul(a.L, a.L), a.p, a.pmin, a.pmax)
    [] OTHER -> LET inv == ~a.ab /\ a.flip /\ a.sell = e.b
                    pa0 == IF inv THEN Inv(a.pa) ELSE a.pa  pb0 == IF inv THEN Inv(a.pb) ELSE a.pb
                    flat == RNear(pa0, pb0, EPS, "0")
                    pa == IF flat THEN RMul(pa0, "10000001/10000000") ELSE pa0
                    pb == IF flat THEN RDiv(pb0, "10000001/10000000") ELSE pb0
                IN IF a.ab THEN FromOrder(a.y, a.yint, a.A, a.B)
                   ELSE FromOrder(a.y, a.yint, RSub(RSqrt(pa), RSqrt(pb)), RSqrt(pb))
Label(how) == CASE how = "plain" -> "default" [] how = "carb" -> "carb" [] OTHER -> how
\* a flat order is a range of a ten-millionth, so its parameters are that much less precise
Prec(e) == IF e.how = "carb" THEN "1/1000000" ELSE EPS
Close(c, w, rel) == /\ RNear(c.k, w.k, rel, "0") /\ RNear(c.x, w.x, rel, "0")
                    /\ RNear(c.xa, w.xa, EPS, RMul(EPS, c.x)) /\ RNear(c.ya, w.ya, EPS, RMul(EPS, Y(c)))

JudgeNew(e) ==
  IF e.ok # e.must THEN {IF e.ok THEN "curve-accepted" ELSE "curve-refused"}
  ELSE IF ~e.ok THEN {}
  ELSE LET c == e.c
           b == IF e.how = "carb" /\ e.a.sell = e.b THEN e.q ELSE e.b
           q == IF e.how = "carb" THEN e.a.sell ELSE e.q
           z == [c EXCEPT !.cid = IF @ = None THEN ToString(Len(cs)) ELSE @]
       IN Req(Close(c, Expected(e), Prec(e)), "curve-state")
          \cup Req(c.tx = b /\ c.ty = q /\ c.cid = e.cid /\ c.fee = e.fee /\ c.ex = e.ex /\ c.constr = Label(e.how), "curve-fields")
          \cup Req(e.cs = Append(cs, z), "container-add")

(* trades with a curve *)
Axis(e) == IF e.wrap THEN (IF e.side = "x" THEN "y" ELSE "x") ELSE e.side
JudgeExec(e) ==
  LET c == cs[e.i]
      x == Axis(e) = "x"
      \* all there is (of an unbounded curve), or more
      left == IF x THEN RDiv(RAdd(c.x, e.d), c.x) ELSE RDiv(RAdd(Y(c), e.d), Y(c))
      far == RLe(left, EPS)
      beyond == RLt(left, RNeg(EPS))
      n == IF x THEN MovedX(c, e.d) ELSE MovedY(c, e.d)
      \* at a bound, float rounding decides
      tol(v) == RMul("1/10000000000", v)
      slack == RGe(n.xa, RNeg(tol(RMax(c.x, n.x)))) /\ RGe(n.ya, RNeg(tol(RMax(Y(c), Y(n)))))
      clear == RGe(n.xa, tol(RMax(c.x, n.x))) /\ RGe(n.ya, tol(RMax(Y(c), Y(n))))
      zero == Zero(e.d)
      near(o, m) == /\ o.k = c.k /\ RNear(o.x, m.x, EPS, RMul(EPS, c.x))
                    /\ RNear(o.xa, m.xa, "0", RMul(EPS, RMax(c.x, m.x)))
                    /\ RNear(o.ya, m.ya, "0", RMul("1/100000000000", RMax(Y(c), Y(m))))
  IN IF e.both THEN Req(~e.ok, "execute-accepted")
     ELSE IF ~e.ok THEN Req(far \/ ~((clear \/ zero) \/ e.ignore), "execute-refused") \cup Req(e.cs = cs, "container-changed")
     ELSE (IF far THEN Req(e.ignore \/ ~beyond, "execute-accepted") ELSE
           Req(e.ignore \/ slack, "execute-accepted")
           \cup Req(near(e.c, n), "execute-off-curve")
           \cup Req(e.c.tx = c.tx /\ e.c.ty = c.ty /\ e.c.fee = c.fee /\ e.c.ex = c.ex /\ e.c.par = c.par /\ e.c.cid = c.cid \o "-x", "execute-fields"))
          \cup Req(e.before = cs, "container-changed")
          \cup Req(e.cs = IF e.kept THEN [cs EXCEPT ![e.i] = e.c] ELSE cs, "container-changed")

\* so close to being close to a bound that rounding decides
AtEdge(c) == LET near(b) == ~Zero(b) /\ RNear(RAbs(RSub(RDiv(c.x, b), "1")), NEAR, "0", "1/1000000000000")
             IN near(XMin(c)) \/ (XMax(c) # None /\ near(XMax(c)))
(* the functions of a curve, or of its mirror image *)
Seen(e) == IF e.wrap THEN Mirror(cs[e.i]) ELSE cs[e.i]
RELF == "1/100000000000"
\* a bound may be missing, or anywhere, if what it is computed from is nothing but rounding
BoundIs(got, want, left, scale) ==
  \/ Near(got, want, "1/100000000", "0")
  \/ RLt(RAbs(left), RMul(EPS, scale)) /\ (got = None \/ RGt(got, RMul("100000", scale)))
\* bounds that are the difference of large numbers are only that precise
BoundNear(c, got, want, left, scale) ==
  BoundIs(got, want, left, scale) \/ (got # None /\ want # None /\ RNear(got, want, RDiv(RMul(EPS, RMul("4", scale)), RAbs(left)), "0"))

JudgeFn(e) ==
  LET c == Seen(e)
      p == IF e.v = None THEN P(c) ELSE e.v
      xy == IF e.ignore THEN Free(c, p) ELSE AtPrice(c, p)
      ok(r, want, scale) == RNear(r, want, RELF, RMul("1/100000000000", scale))
      \* in range: v is the resulting y, between its bounds
      single(new, lo, hi, sub, scale) ==
        LET t == RMul("1/10000000000", RMax(scale, RAbs(new)))
            in  == RGe(new, RAdd(lo, t)) /\ (hi = None \/ RLe(new, RSub(hi, t)))
            out == RLt(new, RSub(lo, t)) \/ (hi # None /\ RGt(new, RAdd(hi, t)))
            good == e.res[1] # None /\ ok(e.res[1], RSub(new, sub), RMax(scale, RAbs(new)))
        IN IF e.ignore \/ in THEN good ELSE IF out THEN e.res[1] = None ELSE e.res[1] = None \/ good
      yOf(x) == RDiv(c.k, x)
      xOf(y) == RDiv(c.k, y)
      named == IF e.units THEN e.un = <<Short[c.tx], Short[c.ty], Short[c.tx] \o "/" \o Short[c.ty]>> ELSE e.un = <<>>
  IN Req(e.cs = cs, "container-changed")
     \cup (CASE e.fn \in {"xyfromp", "dxdyfromp"} ->
                  LET d == e.fn = "dxdyfromp"
                      fx == Free(c, p)
                  IN Req(/\ ok(e.res[1], IF d THEN RSub(xy[1], c.x) ELSE xy[1], RMax(c.x, xy[1]))
                         /\ ok(e.res[2], IF d THEN RSub(xy[2], Y(c)) ELSE xy[2], RMax(Y(c), xy[2]))
                         /\ RNear(e.res[3], p, EPS, "0"), e.fn)
                     \cup Req(named, "units")
             [] e.fn = "yfromx" -> Req(single(yOf(e.v), YMin(c), YMax(c), "0", Y(c)), "yfromx")
             [] e.fn = "xfromy" -> Req(single(xOf(e.v), XMin(c), XMax(c), "0", c.x), "xfromy")
             [] e.fn = "dyfromdx" -> Req(single(yOf(RAdd(c.x, e.v)), YMin(c), YMax(c), Y(c), Y(c)), "dyfromdx")
             [] e.fn = "dxfromdy" -> Req(single(xOf(RAdd(Y(c), e.v)), XMin(c), XMax(c), c.x, c.x), "dxfromdy"))

JudgeAttrs(e) ==
  LET c == Seen(e)  a == e.a
      y == Y(c)
      s == <<c.tx, c.ty, Short[c.tx], Short[c.ty]>>
      pr == c.tx \o "/" \o c.ty  rp == c.ty \o "/" \o c.tx
      prim == Prim(c.tx, c.ty)
      n(u, v) == RNear(u, v, RELF, "0")
      xr == RSub(c.x, c.xa)  yr == RSub(y, c.ya)
      nb(u, v, scale) == RNear(u, v, "0", RMul(EPS, scale))
  IN Req(e.cs = cs, "container-changed")
     \cup Req(/\ n(a.x, c.x) /\ n(a.y, y) /\ n(a.k, c.k) /\ n(a.p, P(c)) /\ nb(a.x_act, c.xa, c.x) /\ nb(a.y_act, c.ya, y), "curve-attributes")
     \cup Req(/\ nb(a.x_min, xr, c.x) /\ nb(a.y_min, yr, y)
              /\ BoundNear(c, a.x_max, XMax(c), yr, IF a.x_max = None THEN y ELSE y)
              /\ BoundNear(c, a.y_max, YMax(c), xr, c.x)
              /\ BoundNear(c, a.p_max, PMax(c), xr, c.x)
              /\ (BoundNear(c, a.p_min, PMin(c), yr, y) \/ (RLt(RAbs(yr), RMul(EPS, y)) /\ (a.p_min = None \/ RLt(a.p_min, RMul(EPS, P(c)))))), "curve-bounds")
     \cup Req(/\ e.s = <<s[1], s[2], s[1], s[2], pr, s[3], s[4], s[3], s[4], s[3] \o "/" \o s[4], s[4] \o " per " \o s[3]>> /\ e.cid = cs[e.i].cid, "curve-tokens")
     \cup Req(/\ e.po = <<s[1], s[2], pr, rp, IF prim THEN pr ELSE rp, IF prim THEN rp ELSE pr, s[1], s[2], s[2], s[1]>>
              /\ e.prim = prim /\ n(e.pp, IF prim THEN P(c) ELSE Inv(P(c))), "curve-primary")
     \cup (IF e.wrap THEN {} ELSE
           LET q == e.q  v == RMul(q.mult, RAdd(RMul(P(c), c.xa), c.ya)) IN
           Req(/\ n(q.kbar, RSqrt(c.k)) /\ n(q.pp, IF prim THEN P(c) ELSE Inv(P(c))) /\ n(q.tvlq, v) /\ n(q.tvl, v) /\ n(q.tvlb, RDiv(v, P(c))), "curve-value")
           \cup Req(/\ REq(q.dxmin, RNeg(c.xa)) /\ REq(q.dymin, RNeg(c.ya))
                    /\ IF RLt(RAbs(yr), RMul(EPS, y)) THEN TRUE ELSE q.dxmax # None /\ RNear(q.dxmax, RSub(XMax(c), c.x), "0", RDiv(RMul(RMul("1/100000000000", XMax(c)), y), yr))
                    /\ IF RLt(RAbs(xr), RMul(EPS, c.x)) THEN TRUE ELSE q.dymax # None /\ RNear(q.dymax, RSub(YMax(c), y), "0", RDiv(RMul(RMul("1/100000000000", YMax(c)), c.x), xr)), "curve-bounds")
           \cup Req(AtEdge(c) \/ e.at = AtBound(c), "curve-at-bound"))

-----------------------------------------------------------------------------
(* the container *)
Ids(s) == [i \in DOMAIN s |-> s[i].cid]
Where(T(_)) == Ids(SelectSeq(cs, T))
Same(res, want) == Len(res) = Len(want) /\ Rng(res) = Rng(want)
Pr(b, q) == b \o "/" \o q
AllPairs == {<<cs[i].tx, cs[i].ty>> : i \in DOMAIN cs}
StdPairs == {IF Prim(x[1], x[2]) THEN x ELSE <<x[2], x[1]>> : x \in AllPairs}
Holds(cond, x, T) ==
  CASE cond = "bothin" -> x[1] \in T /\ x[2] \in T [] cond \in {"onein", "contains"} -> x[1] \in T \/ x[2] \in T
    [] cond = "notin" -> x[1] \notin T /\ x[2] \notin T [] cond = "tknbin" -> x[1] \in T [] cond = "tknbnotin" -> x[1] \notin T
    [] cond = "tknqin" -> x[2] \in T [] OTHER -> x[2] \notin T
PriceNear(a, b) == IF a = None \/ b = None THEN a = b ELSE RNear(a, b, RELF, "0")
Cols(s) == {s[i] : i \in DOMAIN s}
Stat(v) == LET m == Mean(v)
               RECURSIVE mn(_), mx(_)
               mn(i) == IF i = 1 THEN v[1] ELSE RMin(mn(i - 1), v[i])
               mx(i) == IF i = 1 THEN v[1] ELSE RMax(mx(i - 1), v[i])
           IN <<m, mn(Len(v)), mx(Len(v)), RSqrt(Mean([i \in DOMAIN v |-> RPow(RSub(v[i], m), 2)]))>>
\* the curves on the pairs that were asked for
Asked(e, c) == e.ps[1][1] = "*" \/ \E i \in DOMAIN e.ps : On(c, e.ps[i][1], e.ps[i][2])
Agg(target, v) == CASE target = "std" -> Stat(v)[4] [] target = "stdpc" -> RDiv(Stat(v)[4], Stat(v)[1]) [] target = "prices" -> Stat(v)[1] [] target = "max" -> Stat(v)[3] [] target = "min" -> Stat(v)[2] [] OTHER -> RCanon(Len(v))

JudgeAsk(e) ==
  LET r == e.res IN
  Req(e.cs = cs, "container-changed")
  \cup
  CASE e.q = "cids" -> Req(r = Ids(cs), "container-ids")
    [] e.q = "tokens" -> Req(Rng(r) = Tokens(cs), "container-tokens")
    [] e.q = "tknxs" -> Req(Rng(r) = {c.tx : c \in Rng(cs)}, "container-tokens")
    [] e.q = "tknys" -> Req(Rng(r) = {c.ty : c \in Rng(cs)}, "container-tokens")
    [] e.q = "pairs" -> Req(Rng(r) = {Pr(x[1], x[2]) : x \in StdPairs}, "container-pairs")
    [] e.q = "pairs0" -> Req(Rng(r) = {Pr(x[1], x[2]) : x \in AllPairs}, "container-pairs")
    [] e.q = "bypair" -> Req(Same(r, Where(LAMBDA c : (c.tx = e.b /\ c.ty = e.k) \/ (~e.directed /\ On(c, e.b, e.k)))), "container-filter")
    [] e.q = "bypairs" -> Req(Same(r, Where(LAMBDA c : \E i \in DOMAIN e.ps : LET b == e.ps[i][1]  k == e.ps[i][2] IN
                                                (c.tx = b /\ c.ty = k) \/ (~e.directed /\ On(c, b, k)))), "container-filter")
    [] e.q \in {"bytknx", "bytknxs"} -> Req(Same(r, Where(LAMBDA c : c.tx \in Rng(e.t) \/ e.t = <<"*">>)), "container-filter")
    [] e.q \in {"bytkny", "bytknys"} -> Req(Same(r, Where(LAMBDA c : c.ty \in Rng(e.t) \/ e.t = <<"*">>)), "container-filter")
    [] e.q = "bycids" -> Req(IF e.inc = <<"*">> THEN Same(r, Where(LAMBDA c : c.cid \notin Rng(e.exc)))
                             ELSE r = SelectSeq(e.inc, LAMBDA i : i \notin Rng(e.exc)), "container-filter")
    [] e.q = "bycid" -> Req(r = IF \E c \in Rng(cs) : c.cid = e.cid THEN <<e.cid>> ELSE <<>>, "container-filter")
    [] e.q = "fp" -> LET ok(x) == LET h1 == Holds(e.conds[1], x, Rng(e.t))
                                      h2 == Holds(e.conds[2], x, Rng(e.u))
                                  IN IF e.conds[2] = "none" THEN h1 ELSE IF e.all THEN h1 /\ h2 ELSE h1 \/ h2
                     IN Req(Rng(r) = {Pr(x[1], x[2]) : x \in {y \in StdPairs : ok(y)}}, "container-pairs")
    [] e.q = "price" -> Req(PriceNear(r, IF e.b = e.k THEN None ELSE PriceOf(cs, e.b, e.k, Num, Ord)), "container-price")
    [] e.q = "pe" -> LET w == EstimateOf(cs, e.b, e.k) IN
                     Req(IF r = "raised" THEN e.throws /\ w = None ELSE (w # None \/ ~e.throws) /\ PriceNear(r, w), "price-estimate")
    [] e.q = "pes" -> LET w == [i \in DOMAIN e.t |-> [j \in DOMAIN e.u |-> EstimateOf(cs, e.u[j], e.t[i])]]
                          missing == \E i \in DOMAIN w : \E j \in DOMAIN w[i] : w[i][j] = None
                      IN Req(IF r = <<<<"raised">>>> THEN e.throws /\ missing
                             ELSE /\ ~(e.throws /\ missing)
                                  /\ Len(r) = Len(w) /\ \A i \in DOMAIN w : Len(r[i]) = Len(w[i]) /\ \A j \in DOMAIN w[i] : PriceNear(r[i][j], w[i][j]), "price-estimate")
    [] e.q = "table" -> Req(/\ {r[i].t : i \in DOMAIN r} = Tokens(cs) /\ Len(r) = Cardinality(Tokens(cs))
                            /\ \A i \in DOMAIN r : /\ Rng(r[i].x) = {j \in DOMAIN cs : cs[j].tx = r[i].t}
                                                   /\ Rng(r[i].y) = {j \in DOMAIN cs : cs[j].ty = r[i].t}, "container-table")
    [] e.q = "member" -> Req(e["in"] /\ e.ix = e.i /\ ~e.out /\ e.oix, "container-member")
    [] e.q \in {"dicts", "frame"} -> Req(r = cs, "container-round-trip")
    [] e.q = "stats" -> LET s == SelectSeq(cs, LAMBDA c : c.tx = e.b /\ c.ty = e.k)
                            w == <<Stat([i \in DOMAIN s |-> s[i].x]), Stat([i \in DOMAIN s |-> Y(s[i])])>>
                        IN Req(\A a \in 1 .. 2 : \A b \in 1 .. 4 : RNear(r[a][b], w[a][b], RELF, RMul(RELF, w[a][3])), "container-stats")
    [] e.q = "analysis" ->
         LET sel == SelectSeq(cs, LAMBDA c : Asked(e, c))
             bs == {c.tx : c \in Rng(sel)}  qs == {c.ty : c \in Rng(sel)}
             sym == e.target \in {"pivotbqs", "pivotxys"}
             of(b, q) == SelectSeq(sel, LAMBDA c : (c.tx = b /\ c.ty = q) \/ (sym /\ On(c, b, q)))
             grid == IF sym THEN (bs \cup qs) \X (bs \cup qs) ELSE bs \X qs
             val(b, q) == LET s == of(b, q) IN IF s = <<>> THEN "0" ELSE Agg(e.target, [k \in DOMAIN s |-> P(s[k])])
             \* the standard deviation may be that of the sample or of the population
             sd(z) == LET s == of(z[1], z[2])  n == Len(s)  v == val(z[1], z[2])  w == IF n <= 1 THEN v ELSE RMul(v, RSqrt(RDiv(RCanon(n), RCanon(n - 1))))
                          m == IF s = <<>> THEN "0" ELSE IF e.target = "stdpc" THEN "1" ELSE Agg("prices", [k \in DOMAIN s |-> P(s[k])])
                      IN IF z[3] = None THEN n <= 1 ELSE RNear(z[3], v, "1/1000000", RMul("1/1000000000", m)) \/ RNear(z[3], w, "1/1000000", RMul("1/1000000000", m))
             good(z) == IF e.target \in {"std", "stdpc"} THEN sd(z) ELSE z[3] # None /\ RNear(z[3], val(z[1], z[2]), RELF, "0")
         IN Req(/\ \A k \in DOMAIN r : <<r[k][1], r[k][2]>> \in grid /\ good(r[k])
                \* every pair is there, once (what is left out is nothing)
                /\ \A x \in grid : LET hits == {k \in DOMAIN r : <<r[k][1], r[k][2]>> = x} IN
                       Cardinality(hits) = 1 \/ (hits = {} /\ (e.target = "stdpc" \/ of(x[1], x[2]) = <<>> \/ (e.target = "std" /\ Len(of(x[1], x[2])) = 1))), "container-analysis")
    [] e.q = "listed" ->
         LET sel == SelectSeq(cs, LAMBDA c : Asked(e, c))
             row(k, c) == LET prim == Prim(c.tx, c.ty)  z == r[k] IN
                          /\ <<z[1], z[2], z[3], z[4], z[5]>> = <<c.tx, c.ty, c.tx, c.ty, Pr(c.tx, c.ty)>>
                          /\ z[6] = (IF prim THEN Pr(c.tx, c.ty) ELSE Pr(c.ty, c.tx)) /\ z[7] = prim
                          /\ RNear(z[8], P(c), RELF, "0") /\ RNear(z[9], IF prim THEN P(c) ELSE Inv(P(c)), RELF, "0")
                          /\ RNear(z[10], c.x, RELF, "0") /\ RNear(z[11], c.xa, RELF, RMul(RELF, c.x)) /\ RNear(z[12], Y(c), RELF, "0") /\ RNear(z[13], c.ya, RELF, RMul(RELF, Y(c)))
         IN Req(/\ Len(r) = Len(sel) /\ \A k \in DOMAIN sel : \E m \in DOMAIN r : r[m][14] = sel[k].cid /\ row(m, sel[k]), "container-analysis")
    [] e.q = "pricelist" ->
         LET sel == SelectSeq(cs, LAMBDA c : Asked(e, c)) IN
         Req(/\ Len(r) = Len(sel)
             /\ \A k \in DOMAIN sel : LET c == sel[k]  prim == Prim(c.tx, c.ty) IN \E m \in DOMAIN r : LET z == r[m] IN
                  /\ z[1] = c.tx /\ z[2] = c.ty /\ z[3] = c.cid /\ RNear(z[4], P(c), RELF, "0") /\ RNear(z[5], IF prim THEN P(c) ELSE Inv(P(c)), RELF, "0")
                  /\ z[6] = Pr(c.tx, c.ty) /\ z[7] = IF prim THEN Pr(c.tx, c.ty) ELSE Pr(c.ty, c.tx), "container-analysis")
    [] e.q = "plaggr" ->
         LET sel == SelectSeq(cs, LAMBDA c : Asked(e, c))
             dirs == {<<c.tx, c.ty>> : c \in Rng(sel)}
             good(z) == LET prim == Prim(z[1], z[2])
                            s == SelectSeq(sel, LAMBDA c : c.tx = z[1] /\ c.ty = z[2])
                            v == [k \in DOMAIN s |-> IF prim THEN P(s[k]) ELSE Inv(P(s[k]))]
                            st == Stat(v)  n == Len(v)
                            pct(a) == RMul("100", RDiv(a, st[1]))
                            sdn == IF n = 1 THEN "1" ELSE RSqrt(RDiv(RCanon(n), RCanon(n - 1)))
                        IN /\ z[3] = (IF prim THEN Pr(z[1], z[2]) ELSE Pr(z[2], z[1]))
                           /\ RNear(z[4], st[1], RELF, "0") /\ REq(z[5], RCanon(n)) /\ RNear(z[6], st[2], RELF, "0") /\ RNear(z[7], st[3], RELF, "0")
                           /\ RNear(z[8], RMul("100", RDiv(RSub(st[3], st[2]), st[3])), "1/1000000", "1/10000000")
                           /\ IF z[9] = None THEN n = 1 ELSE RNear(z[9], pct(st[4]), "1/1000000", "1/100000") \/ RNear(z[9], pct(RMul(sdn, st[4])), "1/1000000", "1/100000")
                           /\ RNear(z[10], RDiv(SumSeq([k \in DOMAIN v |-> RMul(v[k], v[k])]), RPow(SumSeq(v), 2)), "1/1000000", "0")
         IN Req(/\ {<<r[k][1], r[k][2]>> : k \in DOMAIN r} = dirs /\ Len(r) = Cardinality(dirs) /\ \A k \in DOMAIN r : good(r[k]), "container-analysis")
    [] e.q = "pedata" ->
         LET want == {k \in DOMAIN cs : On(cs[k], e.b, e.k) /\ ~AtBound(cs[k])}
             edge == \E k \in DOMAIN cs : On(cs[k], e.b, e.k) /\ AtEdge(cs[k])
             pr(c) == IF c.tx = e.b THEN P(c) ELSE Inv(P(c))
         IN IF edge THEN {} ELSE
            Req(/\ Len(r) = Cardinality(want) /\ Len(e.data) = Len(r)
                /\ \A k \in want : \E m \in DOMAIN r : /\ r[m][1] = cs[k].cid /\ RNear(r[m][2], pr(cs[k]), RELF, "0") /\ RNear(r[m][3], cs[k].k, RELF, "0")
                                                       /\ RNear(e.data[m][1], pr(cs[k]), RELF, "0") /\ RNear(e.data[m][2], RSqrt(cs[k].k), RELF, "0"), "price-estimate")
    [] e.q = "volumes" ->
         Req(/\ Len(r) = 2 * Len(cs)
             /\ \A i \in DOMAIN cs : \A t \in {cs[i].tx, cs[i].ty} : \E j \in DOMAIN r :
                   /\ r[j][1] = t /\ r[j][2] = cs[i].cid
                   /\ RNear(r[j][3], IF t = cs[i].tx THEN cs[i].x ELSE Y(cs[i]), RELF, "0")
                   /\ RNear(r[j][4], IF t = cs[i].tx THEN cs[i].xa ELSE cs[i].ya, RELF, "0"), "container-analysis")
    [] OTHER -> {"unknown-event"}

-----------------------------------------------------------------------------
(* arbitrage *)
Scale(s, t) == SumSeq([i \in DOMAIN s |-> IF s[i].tx = t THEN s[i].x ELSE IF s[i].ty = t THEN Y(s[i]) ELSE "0"])
Full(s) == \A i \in DOMAIN s : REq(s[i].xa, s[i].x) /\ RNear(s[i].ya, Y(s[i]), EPS, "0")
\* a starting point for every price: a curve with the target that is not at a bound
HasStart(s, tgt) == \A t \in Tokens(s) \ {tgt} : EstimateOf(s, t, tgt) # None
Prices(e) == [t \in Tokens(cs) |-> IF t = e.target THEN "1" ELSE e.pr[t]]

DustOf(s, i) == RMul("1/10000000000", RAdd(s[i].x, "0"))
JudgeInstructions(e, s, dx, dy) ==
  IF ~e.tiok THEN {"instructions-refused"}
  ELSE LET live == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : ~Zero(dx[i]) \/ ~Zero(dy[i]))
           tiny(i) == RLe(RAbs(dx[i]), RMul(EPS, s[i].x)) /\ RLe(RAbs(dy[i]), RMul(EPS, Y(s[i])))
           is(z, i) == /\ z.cid = s[i].cid
                       /\ \/ z.tin = s[i].tx /\ z.tout = s[i].ty /\ z.ain = dx[i] /\ z.aout = dy[i] /\ Pos(dx[i]) /\ RLt(dy[i], "0")
                          \/ z.tin = s[i].ty /\ z.tout = s[i].tx /\ z.ain = dy[i] /\ z.aout = dx[i] /\ Pos(dy[i]) /\ RLt(dx[i], "0")
                          \/ z.empty /\ Zero(z.ain) /\ Zero(z.aout) /\ RLe(RAbs(dx[i]), RMax("1/10000000", RMul(RELF, s[i].x))) /\ RLe(RAbs(dy[i]), RMax("1/10000000", RMul(RELF, Y(s[i]))))
           sum(t, f(_)) == SumSeq([k \in DOMAIN e.ti |-> RAdd(IF e.ti[k].tin = t THEN f(e.ti[k].ain) ELSE "0", IF e.ti[k].tout = t THEN f(e.ti[k].aout) ELSE "0")])
           near(a, b, t) == RNear(a, b, EPS, RMul(EPS, sum(t, RAbs)))
       IN Req(/\ Len(e.ti) = Len(live) /\ \A k \in DOMAIN live : is(e.ti[k], live[k]), "instructions")
          \cup Req(/\ {e.tot[k].t : k \in DOMAIN e.tot} = {e.ti[k].tin : k \in DOMAIN e.ti} \cup {e.ti[k].tout : k \in DOMAIN e.ti}
                   /\ \A k \in DOMAIN e.tot : LET z == e.tot[k] IN
                        /\ near(z.net, sum(z.t, LAMBDA v : v), z.t) /\ near(z["in"], sum(z.t, LAMBDA v : RMax(v, "0")), z.t)
                        /\ near(z.out, sum(z.t, LAMBDA v : RMin(v, "0")), z.t), "instructions-total")

STEP == "100002/100000"
JudgeMargp(e) ==
  LET pr == Prices(e)
      want == [i \in DOMAIN cs |-> DAtPrice(cs[i], At(cs[i], pr))]
      full == Full(cs)
      trades == /\ Len(e.dx) = Len(cs) /\ Len(e.dy) = Len(cs)
                /\ \A i \in DOMAIN cs : RNear(e.dx[i], want[i][1], RELF, RMul(RELF, RMax(cs[i].x, RAdd(cs[i].x, want[i][1])))) 
                                        /\ RNear(e.dy[i], want[i][2], RELF, RMul(RELF, RMax(Y(cs[i]), RAdd(Y(cs[i]), want[i][2]))))
      noise(t) == RMul("2/10000000000000", Scale(cs, t))
      flow(t) == IF t = e.target THEN e.res ELSE e.dt[t]
      full1(c, d) == [MovedX(c, d) EXCEPT !.cid = c.cid \o "-x"]
      new(o, c, d) == LET m == full1(c, d) IN
           /\ o.k = c.k /\ RNear(o.x, m.x, EPS, "0") /\ RNear(o.xa, m.xa, "0", RMul(RELF, RMax(c.x, m.x))) /\ RNear(o.ya, m.ya, "0", RMul(RELF, RMax(Y(c), Y(m))))
           /\ o.cid = m.cid /\ o.tx = c.tx /\ o.ty = c.ty /\ o.fee = c.fee
  IN Req(\A t \in Tokens(cs) : RNear(flow(t), Flow(cs, pr, t), RELF, RMul(RELF, Scale(cs, t))), "arbitrage-flows")
     \* the flow of a token falls with its price; it must change sign at the price found
     \cup Req(\A t \in Tokens(cs) \ {e.target} : /\ RGe(Flow(cs, [pr EXCEPT ![t] = RDiv(@, STEP)], t), RNeg(noise(t)))
                                                 /\ RLe(Flow(cs, [pr EXCEPT ![t] = RMul(@, STEP)], t), noise(t)), "arbitrage-not-balanced")
     \* what the AMMs receive is the least they can: the trader loses nothing
     \cup Req(RLe(RSub(e.res, Bound(cs, pr)), SumSeq([i \in DOMAIN cs |-> RMul("1/10000", RMul(pr[cs[i].ty], Y(cs[i])))])), "arbitrage-not-optimal")
     \cup (IF e.how = "minimal" THEN {} ELSE
           Req(trades, "arbitrage-trades")
           \cup Req(RNear(e.price, RDiv(pr[e.ptoks[1]], pr[e.ptoks[2]]), EPS, "0"), "arbitrage-price")
           \cup Req(e.fresh /\ Len(e.next) = Len(cs) /\ \A i \in DOMAIN cs : new(e.next[i], cs[i], e.dx[i]), "arbitrage-new-curves")
           \cup JudgeInstructions(e, cs, e.dx, e.dy))

Sub(e) == [k \in DOMAIN e.cids |-> CHOOSE c \in Rng(cs) : c.cid = e.cids[k]]
\* no price with flows of either sign is left if (but for rounding) nothing flows at one end
JudgeSimpleRaised(e) ==
  LET s0 == Sub(e)
      s == [k \in DOMAIN s0 |-> IF Prim(s0[k].tx, s0[k].ty) THEN s0[k] ELSE Mirror(s0[k])]
      f(p, z) == SumSeq([k \in DOMAIN s |-> DAtPrice(s[k], p)[z]])
      zero(p) == /\ RLe(RAbs(f(p, 1)), RMul(RELF, SumSeq([k \in DOMAIN s |-> s[k].x])))
                 /\ RLe(RAbs(f(p, 2)), RMul(RELF, SumSeq([k \in DOMAIN s |-> Y(s[k])])))
      low == CHOOSE k \in DOMAIN s : \A j \in DOMAIN s : RLe(P(s[k]), P(s[j]))
      high == CHOOSE k \in DOMAIN s : \A j \in DOMAIN s : RGe(P(s[k]), P(s[j]))
  IN Req(zero(RMul(P(s[low]), "99/100")) \/ zero(RMul(P(s[high]), "101/100")), "arbitrage-failed")
JudgeSimple(e) ==
  LET s0 == Sub(e)
      s == [k \in DOMAIN s0 |-> IF Prim(s0[k].tx, s0[k].ty) THEN s0[k] ELSE Mirror(s0[k])]
      tx == s[1].tx
      d(p) == [k \in DOMAIN s |-> DAtPrice(s[k], p)]
      want == d(e.p)
      sx(p) == SumSeq([k \in DOMAIN s |-> DAtPrice(s[k], p)[1]])
      sy(p) == SumSeq([k \in DOMAIN s |-> DAtPrice(s[k], p)[2]])
      f(p) == IF e.target = e.tx THEN sy(p) ELSE RNeg(sx(p))        \* increasing in p; zero at the solution
      tol == RMax(RMul("1/1000000", RMin("1", e.p)), RMul("1/1000000000000000", e.p))
      X == SumSeq([k \in DOMAIN s |-> RMax(s[k].x, RAdd(s[k].x, want[k][1]))])  YY == SumSeq([k \in DOMAIN s |-> RMax(Y(s[k]), RAdd(Y(s[k]), want[k][2]))])
      noise == RMul(RELF, IF e.target = e.tx THEN YY ELSE X)
      dn == RSub(e.p, tol)  up == RAdd(e.p, tol)
      n(a, b, z) == RNear(a, b, RELF, RMul(RELF, z))
  IN Req(Same(e.cids, Where(LAMBDA c : On(c, e.tx, e.ty))) /\ Same(e.sub, e.cids) /\ e.tx = tx /\ e.ty = s[1].ty /\ e.target \in {e.tx, e.ty}, "simple-curves")
     \cup Req(RLe(f(dn), noise) /\ RGe(f(up), RNeg(noise)), "arbitrage-not-balanced")
     \cup Req(/\ Len(e.dx) = Len(s) /\ \A k \in DOMAIN s : n(e.dx[k], want[k][1], RMax(s[k].x, RAdd(s[k].x, want[k][1]))) /\ n(e.dy[k], want[k][2], RMax(Y(s[k]), RAdd(Y(s[k]), want[k][2]))), "arbitrage-trades")
     \cup Req(/\ n(e.sum[1], sx(e.p), X) /\ n(e.sum[2], sy(e.p), YY) /\ n(e.res, IF e.target = e.tx THEN sx(e.p) ELSE sy(e.p), IF e.target = e.tx THEN X ELSE YY)
              /\ n(e.valy, RAdd(RMul(e.p, sx(e.p)), sy(e.p)), RAdd(YY, RMul(X, e.p))) /\ n(e.valx, RAdd(sx(e.p), RDiv(sy(e.p), e.p)), RAdd(X, RDiv(YY, e.p))), "arbitrage-flows")
     \cup JudgeInstructions(e, s, e.dx, e.dy)

JudgeConvex(e) ==
  LET d == [i \in DOMAIN cs |-> <<e.dx[i], e.dy[i]>>]
      pr == Prices(e)
      val(t) == RMul(pr[t], Scale(cs, t))
      all == SumSeq([i \in DOMAIN cs |-> RMul(pr[cs[i].ty], Y(cs[i]))])
  IN IF e.cerr THEN {}
     ELSE Req(\A t \in Tokens(cs) \ {e.target} : e.err \/ RLe(RAbs(Net(cs, d, t)), RMul("1/1000", Scale(cs, t))), "convex-not-balanced")
          \cup Req(RNear(e.res, Net(cs, d, e.target), "1/1000", RMul("1/1000", Scale(cs, e.target))), "convex-result")
          \cup Req(\A i \in DOMAIN cs : LET c == cs[i] IN
                     \* (the precision of the solver is that of the whole market)
                     /\ e.err \/ /\ Pos(RAdd(c.x, e.dx[i]))
                                 /\ RGe(RAdd(RAdd(Y(c), e.dy[i]), RDiv(RMul("1/1000", all), pr[c.ty])), RMul("999/1000", RDiv(c.k, RAdd(c.x, e.dx[i]))))
                     /\ RGe(RAdd(c.xa, e.dx[i]), RNeg(RMul("1/1000", c.x))) /\ RGe(RAdd(c.ya, e.dy[i]), RNeg(RMul("1/1000", Y(c)))), "convex-off-curve")
          \cup Req(e.err \/ RLe(RSub(e.res, Bound(cs, pr)), RMul("1/1000", all)), "convex-not-optimal")

JudgeOpt(e) ==
  Req(e.before = cs, "container-changed")
  \cup (IF e.how = "simple" THEN (IF e.raised THEN JudgeSimpleRaised(e) ELSE IF e.err THEN {"arbitrage-failed"} ELSE JudgeSimple(e))
        ELSE IF e.raised THEN Req(~e.pstart /\ ~HasStart(cs, e.target), "arbitrage-failed")
        ELSE (IF e.err THEN Req(~Full(cs) \/ ~Calm(cs) \/ e.maxiter # 0, "arbitrage-failed")
              ELSE IF e.how = "convex" THEN {} ELSE JudgeMargp(e))
             \cup (IF e.how = "convex" THEN JudgeConvex(e) ELSE {})
             \cup Req(e.adopted \/ e.cs = cs, "container-changed")
             \cup Req(~e.adopted \/ e.cs = e.next, "arbitrage-new-curves"))

Judge(e) ==
  IF ~e.wf THEN {"crash"}
  ELSE CASE e.op = "new" -> JudgeNew(e)
    [] e.op = "reset" -> {}
    [] e.op = "exec" -> JudgeExec(e)
    [] e.op = "fn" -> JudgeFn(e)
    [] e.op = "attrs" -> JudgeAttrs(e)
    [] e.op = "ask" -> JudgeAsk(e)
    [] e.op = "opt" -> JudgeOpt(e)
    [] OTHER -> {"unknown-event"}

Init == tid \in DOMAIN Traces /\ l = 0 /\ cs = <<>>
Next == /\ l < Len(Traces[tid].evs)
        /\ l' = l + 1 /\ tid' = tid
        /\ LET e == Traces[tid].evs[l'] IN
           /\ Report(Traces[tid].tid, l', e.op, Judge(e))
           /\ cs' = IF ~e.wf THEN cs ELSE IF e.op = "reset" THEN <<>> ELSE IF e.op = "new" /\ ~e.ok THEN cs ELSE e.cs
Spec == Init /\ [][Next]_tvars
=============================================================================
