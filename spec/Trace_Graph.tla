---------------------------- MODULE Trace_Graph ----------------------------
(* Validates recorded arbitrage graphs against GraphCore. *)
EXTENDS GraphCore, Integers, Verdict

VARIABLES tid, l, g                \* g: the graph as last recorded
tvars == <<tid, l, g>>

E12 == "1/1000000000000"
Near(a, b) == RNear(a, b, "1/1000000000", E12)
AllNear(s, t) == Len(s) = Len(t) /\ \A k \in DOMAIN s : Near(s[k], t[k])
Rng(s) == {s[k] : k \in DOMAIN s}
Minus1(s) == [k \in DOMAIN s |-> s[k] - 1]
Graph(x) == [nodes |-> x.nodes, edges |-> x.edges]
Shaped(x) == /\ x.nix = [k \in DOMAIN x.nodes |-> k - 1] /\ x.eix = [k \in DOMAIN x.edges |-> k - 1]
             /\ x.found /\ Cardinality(Tokens(x)) = Len(x.nodes)
             /\ x.len = <<Len(x.edges), Len(x.edges), Len(x.nodes)>>
             /\ x.kind = (IF Kind(x) = "none" THEN None ELSE Kind(x)) /\ x.isamount = (Kind(x) = "amount")
             /\ \A k \in DOMAIN x.edges : Amounts(x.edges[k]) = Amounts(x.edges[1])
\* equal up to rounding; the size of what a balance or a remainder came from decides its precision
EdgeNear(x, w) == /\ x.i = w.i /\ x.o = w.o /\ x.inv = w.inv /\ RNear(x.a, w.a, E12, "0") /\ RNear(x.b, w.b, E12, "0")
                  /\ x.uid = w.uid \/ (x.uid = None /\ w.uid = "None-r")
                  /\ IF w.rem = None THEN x.rem = None ELSE x.rem # None /\ RNear(x.rem, w.rem, E12, RMul(E12, RAdd(RAbs(w.a), RAbs(w.rem))))
BalNear(a, b, size) == RNear(a, b, E12, RMul(E12, size))
NodeNear(x, w, size) == /\ x.t = w.t /\ BalNear(x.bal, w.bal, size) /\ Len(x.hist) = Len(w.hist)
                        /\ \A k \in DOMAIN x.hist : BalNear(x.hist[k], w.hist[k], size)
Size(n) == LET RECURSIVE M(_) M(k) == IF k = 0 THEN "0" ELSE RMax(RAbs(n.hist[k]), M(k - 1)) IN M(Len(n.hist))
NodesNear(x, w) == Len(x) = Len(w) /\ \A k \in DOMAIN w : NodeNear(x[k], w[k], Size(w[k]))
EdgesNear(x, w) == Len(x) = Len(w) /\ \A k \in DOMAIN w : EdgeNear(x[k], w[k])
\* the same edges in any order
EdgesAmong(x, w) == Len(x) = Len(w) /\ \A k \in DOMAIN w : \E j \in DOMAIN x : EdgeNear(x[j], w[k])
GraphNear(x, w) == NodesNear(x.nodes, w.nodes) /\ EdgesNear(x.edges, w.edges)
Now(e) == Graph(e.g)
Unchanged(e) == Now(e) = g

\* the outcome must be ok or not; what a good one must satisfy; nothing changes otherwise
Outcome(e, must, tags, good, after) ==
  IF e.ok # must THEN {IF e.ok THEN tags[1] ELSE tags[2]}
  ELSE IF ~e.ok THEN Req(Unchanged(e), tags[3])
  ELSE good \cup Req(GraphNear(Now(e), after), tags[4])
Asked(e, must, tag, good) ==
  Req(e.ok = must, tag) \cup Req(Unchanged(e), "question-changed") \cup (IF e.ok /\ must THEN Req(good, tag) ELSE {})

-----------------------------------------------------------------------------
(* construction *)
Built(e, must, after) ==
  Req(e.ok = must, IF e.ok THEN "graph-accepted" ELSE "graph-refused")
  \cup (IF e.ok THEN Req(GraphNear(Now(e), after), "graph-built") \cup Req(e.self, "graph-chain")
        ELSE \* tokens may have been added before the edge turned out not to fit
             Req(/\ e.g.edges = g.edges /\ Len(e.g.nodes) >= Len(g.nodes) /\ SubSeq(e.g.nodes, 1, Len(g.nodes)) = g.nodes
                 /\ \A k \in Len(g.nodes) + 1 .. Len(e.g.nodes) : e.g.nodes[k] = NewNode(e.g.nodes[k].t), "graph-refusal-changed"))
One(e, edge, must) == LET ok == must /\ Fits(g, edge) IN Built(e, ok, IF ok THEN WithEdge(g, edge) ELSE g)
JudgeXY(e) ==
  LET p == RMul(e.dx, e.dy) IN
  IF Neg(p) THEN One(e, IF Pos(e.dx) THEN EdgeOf(e.i, e.dx, e.o, RNeg(e.dy), e.inv, e.uid) ELSE EdgeOf(e.o, e.dy, e.i, RNeg(e.dx), e.inv, e.uid), TRUE)
  ELSE Built(e, RLe(p, "1/100000000"), g)
JudgeC(e) ==
  LET w == IF e.w = None THEN "1" ELSE e.w
      p == IF e.how = "none" THEN "1" ELSE e.p
      a == Connection(e.i, e.o, p, w, e.inv, e.uid)
      b == Connection(e.o, e.i, p, w, ~e.inv, e.uid \o "-r")
      ok == Pos(w) /\ e.how \notin {"two", "outinv"} /\ Fits(g, [a EXCEPT !.a = "-1"])
  IN Built(e, ok, IF ~ok THEN g ELSE IF e.sym THEN WithEdge(WithEdge(g, a), b) ELSE WithEdge(g, a))
RECURSIVE WithCurves(_, _, _)
WithCurves(h, e, k) ==
  IF k > Len(e.ps) THEN h
  ELSE LET c == e.cs[k] IN
       WithCurves(WithEdge(WithEdge(h, Connection(c.b, c.q, e.ps[k], "1", FALSE, c.cid)), Connection(c.q, c.b, e.ps[k], "1", TRUE, c.cid \o "-r")), e, k + 1)
JudgeCpc(e) == LET base == IF e.how = "from" THEN EmptyGraph ELSE g
                   ok == base.edges = <<>> \/ Kind(base) = "connection"
                   \* a single curve is the first one
                   n == [e EXCEPT !.ps = IF e.how = "single" THEN SubSeq(e.ps, 1, 1) ELSE @]
               IN Built(e, ok, IF ok THEN WithCurves(base, n, 1) ELSE g)
               \cup Req(\A k \in DOMAIN e.cs : Near(e.ps[k], RDiv(e.cs[k].y, e.cs[k].x)), "graph-built")
RECURSIVE WithTrades(_, _, _)
WithTrades(h, e, k) ==
  IF k > Len(e.d) THEN h
  ELSE LET c == e.cs[k]  dx == e.d[k][1]  dy == e.d[k][2] IN
       WithTrades(IF ~Neg(RMul(dx, dy)) THEN h
                  ELSE WithEdge(h, IF Pos(dx) THEN EdgeOf(c.b, dx, c.q, RNeg(dy), FALSE, c.cid) ELSE EdgeOf(c.q, dy, c.b, RNeg(dx), FALSE, c.cid)), e, k + 1)

-----------------------------------------------------------------------------
(* transports *)
Slack(x, f) == RGe(x, RNeg(RMul(Eps, f)))
\* whether something is allowed is left open just at the limit
Open2(sure, maybe, ok) == IF sure THEN TRUE ELSE IF maybe THEN ok ELSE FALSE
JudgeTrE(e) ==
  LET k == e.ix + 1  x == g.edges[k]
      amt == IF e.amt # None \/ e.how = "wrong" THEN (IF e.amt = None THEN "1" ELSE e.amt) ELSE IF Amounts(x) THEN x.a ELSE "1"
      Fine(f) == /\ e.how # "wrong" /\ (e.rec => Amounts(x))
                 /\ Amounts(x) => Slack(RSub(x.a, amt), f) /\ Slack(amt, f)
                 /\ (e.rec /\ e.rse) => Slack(RSub(x.rem, amt), f) /\ Slack(RSub(g.nodes[NodeOf(g, x.i)].bal, amt), f)
      must == Open2(Fine("9/10"), Fine("11/10"), e.ok)
      after == IF must /\ e.rec THEN Used(g, k, amt) ELSE g
  IN Outcome(e, must, <<"transport-accepted", "transport-refused", "transport-refusal-changed", "transport-state">>,
             IF ~e.ok THEN {}
             ELSE Req(Near(e.res.v, Output(x, amt)) /\ e.res.t = x.o /\ e.isnode, "transport-out")
                  \cup (IF Kind(g) # "amount" THEN {}
                        ELSE Req(e.cap = RGt(e.g.edges[k].rem, Eps) /\ e.empty = RLe(RAbs(e.g.edges[k].rem), Eps), "capacity")), after)

\* shares that are differences of larger numbers have no precision
Stable(ks) == LET s == SumAll([j \in DOMAIN ks |-> RAbs(g.edges[ks[j]].rem)]) IN RGt(RAbs(Left(g, ks)), RMax(Eps, RMul("1/1000000", s)))
JudgeTrG(e) ==
  LET known == e.i \in Tokens(g) /\ e.o \in Tokens(g)
      ks == IF known THEN Positions(g, e.i, e.o) ELSE <<>>
      real == e.how \in {"str", "node", "amount"} /\ ks # <<>> /\ Kind(g) = "amount" IN
  IF real /\ ~Stable(ks) THEN Req(e.ok \/ Unchanged(e), "transport-refusal-changed")
  ELSE
  LET sp == IF real THEN Split(g, ks, e.amt) ELSE <<>>
      Fine(f) == /\ real
                 /\ \A j \in DOMAIN ks : Slack(RSub(g.edges[ks[j]].a, sp[j]), f) /\ Slack(sp[j], f)
                 /\ (e.rec /\ e.rse) => /\ \A j \in DOMAIN ks : Slack(RSub(g.edges[ks[j]].rem, sp[j]), f)
                                        /\ Slack(RSub(g.nodes[NodeOf(g, e.i)].bal, e.amt), f)
      must == Open2(Fine("9/10"), Fine("11/10"), e.ok)
      after == IF must /\ e.rec THEN UsedAll(g, ks, sp) ELSE g
      outs == [j \in DOMAIN ks |-> Output(g.edges[ks[j]], sp[j])]
  IN Outcome(e, must, <<"route-accepted", "route-refused", "transport-refusal-changed", "route-state">>,
             IF ~e.ok THEN {}
             ELSE Req(/\ Near(e.res.ain.v, e.amt) /\ e.res.ain.t = e.i /\ Near(e.res.aout.v, SumAll(outs)) /\ e.res.aout.t = e.o
                      /\ AllNear(e.res.ains, sp) /\ AllNear(e.res.aouts, outs) /\ e.res.ixs = Minus1(ks), "route-result"), after)

-----------------------------------------------------------------------------
(* questions about edges *)
MadeOK(x, must, w) == x.ok = must /\ (must => EdgeNear(x.e, w) /\ x.fresh /\ x.ix = -1)
Slash(a, b) == a \o "/" \o b
Per(a, b) == a \o " per " \o b
JudgeEdge(e) ==
  LET x == g.edges[e.ix + 1]  y == g.edges[e.jx + 1]  q == e.q
      same == x.i = y.i /\ x.o = y.o
      dup == EdgeOf(x.i, x.a, x.o, x.b, x.inv, x.uid)
  IN Req(/\ Near(q.price, PriceOfEdge(x, x.inv)) /\ Near(q.pt, PriceOfEdge(x, TRUE)) /\ Near(q.pf, PriceOfEdge(x, FALSE))
         /\ Near(q.out, POut(x)) /\ Near(q.out2, POut(x)) /\ Near(q.p, PriceOfEdge(x, x.inv)), "edge-price")
     \cup Req(/\ q.pairf = Slash(x.i, x.o) /\ q.pairt = Slash(x.o, x.i) /\ q.pair = (IF x.inv THEN q.pairt ELSE q.pairf)
              /\ q.convf = Per(x.o, x.i) /\ q.convt = Per(x.i, x.o) /\ q.conv = (IF x.inv THEN q.convt ELSE q.convf) /\ q.convo = q.convf
              /\ q.tin = x.i /\ q.tout = x.o /\ q.eq = (e.ix = e.jx)
              /\ q.isamount = Amounts(x) /\ q.type = (IF Amounts(x) THEN "amount" ELSE "connection") /\ e.asserts = <<Amounts(x), ~Amounts(x)>>, "edge-names")
     \cup Req(MadeOK(e.sum, same, Sum2(x, y)) /\ MadeOK(e.sum3, same, Sum2(Sum2(x, y), x)), "edge-sum")
     \cup Req(MadeOK(e.mul, Pos(e.m), Times(x, e.m)) /\ MadeOK(e.rmul, Pos(e.m), Times(x, e.m)), "edge-times")
     \cup Req(MadeOK(e.rev, TRUE, Reversed(x)), "edge-reverse")
     \cup Req(MadeOK(e.dup, TRUE, dup) /\ MadeOK(e.plus0, TRUE, dup), "edge-copy")
     \cup Req(Unchanged(e), "question-changed")

Knows(t) == t = None \/ t \in Tokens(g)
JudgeCap(e) ==
  LET s == Between(g, e.i, e.o)
      must == Knows(e.i) /\ Knows(e.o) /\ (s = <<>> \/ Amounts(s[1])) IN
  Asked(e, must, "capacity", e.res = \E k \in DOMAIN s : RGt(s[k].rem, Eps))

StatsOK(x, i, o, ks) ==
  IF ks = <<>> THEN x.none
  ELSE LET s == [j \in DOMAIN ks |-> g.edges[ks[j]]]
           a == SumAll(Col(s, "a"))  b == SumAll(Col(s, "b"))  r == SumAll(Col(s, "rem")) IN
       /\ ~x.none /\ x.len = Len(s) /\ x.ixs = Minus1(ks)
       /\ Near(x.ain.v, a) /\ x.ain.t = i /\ Near(x.rem.v, r) /\ x.rem.t = i /\ Near(x.aout.v, b) /\ x.aout.t = o
       /\ Near(x.price, RDiv(b, a)) /\ Near(x.util, RSub("1", RDiv(r, a)))
       /\ AllNear(x.ains, Col(s, "a")) /\ AllNear(x.rems, Col(s, "rem")) /\ AllNear(x.aouts, Col(s, "b"))
       /\ AllNear(x.prices, [j \in DOMAIN s |-> POut(s[j])]) /\ AllNear(x.utils, [j \in DOMAIN s |-> RSub("1", RDiv(s[j].rem, s[j].a))])
JudgeEs(e) ==
  LET known == e.i \in Tokens(g) /\ e.o \in Tokens(g)
      f == IF known THEN Positions(g, e.i, e.o) ELSE <<>>
      b == IF known THEN Positions(g, e.o, e.i) ELSE <<>>
      one == g.edges # <<>> /\ \A k \in DOMAIN g.edges : g.edges[k].i = g.edges[1].i /\ g.edges[k].o = g.edges[1].o
      must == Kind(g) = "amount" /\ (CASE e.how = "alledges" -> one [] e.how = "edges" -> f # <<>> [] OTHER -> known)
  IN Asked(e, must, "edge-statistics",
           CASE e.how = "alledges" -> Len(e.res) = 1 /\ StatsOK(e.res[1], g.edges[1].i, g.edges[1].o, [k \in DOMAIN g.edges |-> k])
             [] e.how \in {"both", "pair"} -> Len(e.res) = 2 /\ StatsOK(e.res[1], e.i, e.o, f) /\ StatsOK(e.res[2], e.o, e.i, b)
             [] OTHER -> Len(e.res) = 1 /\ StatsOK(e.res[1], e.i, e.o, f))

AtNode(t, end) == Pick2(g, {k \in DOMAIN g.edges : g.edges[k][end] = t}, 1)
JudgeNs(e) ==
  IF Kind(g) = "connection" THEN Req(Unchanged(e), "question-changed")
  ELSE LET ins == AtNode(e.t, "o")  outs == AtNode(e.t, "i")
           I == [j \in DOMAIN ins |-> g.edges[ins[j]]]  O == [j \in DOMAIN outs |-> g.edges[outs[j]]] IN
       Asked(e, e.t \in Tokens(g), "node-statistics",
             LET r == e.res IN
             /\ r.t = e.t /\ r.ins = Minus1(ins) /\ r.outs = Minus1(outs)
             /\ Rng(r.nin) = Rng(Col(I, "i")) /\ Len(r.nin) = Cardinality(Rng(r.nin)) /\ Rng(r.nout) = Rng(Col(O, "o")) /\ Len(r.nout) = Cardinality(Rng(r.nout))
             /\ Near(r.ain.v, SumAll(Col(I, "b"))) /\ Near(r.aout.v, SumAll(Col(O, "a"))) /\ Near(r.rem.v, SumAll(Col(O, "rem")))
             /\ r.ain.t = e.t /\ r.aout.t = e.t /\ r.rem.t = e.t)

Matching(i, o) == Pick2(g, {k \in DOMAIN g.edges : (i = None \/ g.edges[k].i = i) /\ (o = None \/ g.edges[k].o = o)}, 1)
AtEither(t) == Pick2(g, {k \in DOMAIN g.edges : t = None \/ g.edges[k].i = t \/ g.edges[k].o = t}, 1)
JudgeFe(e) ==
  LET both == IF e.both = "None" THEN e.how = "pair" ELSE e.both = "yes"
      f == Matching(e.i, e.o)  b == Matching(e.o, e.i)
      must == CASE e.how \in {"nodes", "objs"} -> Knows(e.i) /\ Knows(e.o)
                [] e.how = "pair" -> e.i # None /\ e.o # None /\ Knows(e.i) /\ Knows(e.o)
                [] e.how = "node" -> Knows(e.i)
                [] e.how = "nodeand" -> e.o = None /\ (IF e.i = None THEN "ETH" ELSE e.i) \in Tokens(g)
                [] OTHER -> FALSE
  IN Asked(e, must, "edges-found",
           CASE e.how = "node" -> IF both THEN Rng(e.res) = Rng(Minus1(AtEither(e.i))) ELSE e.res = Minus1(AtEither(e.i))
             [] e.how = "nodeand" -> e.res = Minus1(AtEither(IF e.i = None THEN "ETH" ELSE e.i))
             [] both -> IF e.i = e.o THEN Rng(e.res) = Rng(Minus1(f)) ELSE e.res = Minus1(f) \o Minus1(b)
             [] OTHER -> e.res = Minus1(f))

JudgeDup(e) ==
  LET w == Copy(g, e.cons) IN
  Req(Shaped(e.res) /\ NodesNear(e.res.nodes, w.nodes) /\ (IF e.cons THEN EdgesAmong(e.res.edges, w.edges) ELSE EdgesNear(e.res.edges, w.edges)) /\ e.fresh, "graph-copy")
  \cup Req(Unchanged(e), "copy-shared")

-----------------------------------------------------------------------------
(* cycles, paths, prices *)
SameCycles(s, C) == Len(s) = Cardinality(C) /\ {Canonical(g, s[k]) : k \in DOMAIN s} = C
IsCycle(s) == Len(s) >= 2 /\ (\A a, b \in DOMAIN s : a # b => s[a] # s[b]) /\ Rng(s) \subseteq Tokens(g) /\ Closed(g, s)
JudgeCyc(e) ==
  LET C == Cycles(g) IN
  Req((\A k \in DOMAIN e.res : IsCycle(e.res[k])) /\ SameCycles(e.res, C), "cycles")
  \cup Req((\A k \in DOMAIN e.gen : IsCycle(e.gen[k])) /\ SameCycles(e.gen, C), "cycles")
  \cup Req(e.own /\ e.byid /\ Cardinality(Rng(e.uids)) = Len(e.uids), "cycle-ids")
  \cup Req(Unchanged(e), "question-changed")

RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o ", " \o Join(Tail(s))
Pos1(s, t) == CHOOSE a \in DOMAIN s : s[a] = t
Start(c, t) == IF t \in Rng(c) THEN Rotated(c, Pos1(c, t)) ELSE c
RunOK(r, c, t, full) ==
  LET s == Start(c, t)  in == RunIn(g, s)  out == RunOut(g, s)  gain == RSub(out, in)  n == ToString(Len(c))
      ret == RSub(RDiv(out, in), "1")  P(a, b) == RNear(a, b, "1/1000000000", RMul(E12, RAdd(in, out))) IN
  /\ r.token = s[1] /\ P(r.ain, in) /\ P(r.aout, out) /\ P(r.profit, gain)
  /\ full => /\ r.length = Len(c) /\ RNear(r.r, ret, "1/1000000000", RMul(E12, RAdd("1", RDiv(out, in)))) /\ RNear(r.rpcs, RDiv(ret, n), "1/1000000000", RMul(E12, RAdd("1", RDiv(out, in)))) /\ P(r.ppcs, RDiv(gain, n))
             /\ r.tokens = Join(c)
JudgeRun(e) ==
  LET must == e.token = None \/ e.any \/ e.token \in Rng(e.cyc) IN
  Asked(e, must, "cycle-run", IsCycle(e.cyc) /\ e.same /\ e.res.cycle = e.cyc /\ RunOK(e.res, e.cyc, e.token, TRUE) /\ e.res.start = Pos1(e.cyc, Start(e.cyc, e.token)[1]) - 1)

Mean(s) == RDiv(SumAll(s), ToString(Len(s)))
JudgeRuns(e) ==
  LET kinds == [x \in {"None", "tuple", "dicts"} |-> "tuple"] @@ [x \in {"gen"} |-> "generator"] @@ [x \in {"df", "aggrdf"} |-> "DataFrame"]
      n == Len(e.cycs) IN
  Asked(e, e.format # "bad", "cycles-run",
    LET rows == e.rows IN
    /\ e.kind = kinds[e.format]
    /\ IF e.format # "aggrdf"
       THEN Len(rows) = n /\ \A k \in DOMAIN rows : RunOK(rows[k], e.cycs[k], e.token, e.format # "df") /\ rows[k].uid = ToString(k - 1)
       ELSE LET toks == {Start(e.cycs[k], e.token)[1] : k \in 1 .. n}
                head == SubSeq(rows, 1, n)
                Of(t) == SelectSeq(head, LAMBDA r : r.token = t) IN
            /\ Len(rows) = n + Cardinality(toks)
            /\ {head[k].uid : k \in 1 .. n} = {ToString(k - 1) : k \in 1 .. n}
            /\ \A k \in 1 .. n : \E j \in 1 .. n : head[k].uid = ToString(j - 1) /\ RunOK(head[k], e.cycs[j], e.token, FALSE)
            /\ {rows[k].token : k \in n + 1 .. Len(rows)} = toks
            /\ \A k \in n + 1 .. Len(rows) :
                 LET s == Of(rows[k].token)
                     M(f) == RNear(rows[k][f], Mean(Col(s, f)), "1/1000000000", RMul(E12, RAdd(Mean(Col(s, "ain")), Mean(Col(s, "aout"))))) IN
                 rows[k].uid = "" /\ M("profit") /\ M("ain") /\ M("aout"))

JudgePt(e) ==
  LET s == e.nodes
      path == IF e.how = "path" THEN Shortest(g, e.i, e.o) ELSE {}
      must == e.how = "cycle" \/ path # {} IN
  Asked(e, must, "path-price",
    /\ IF e.how = "path" THEN s \in path ELSE IsCycle(SubSeq(s, 1, Len(s) - 1)) /\ s[Len(s)] = s[1]
    /\ AllNear(e.res.prices, [k \in 1 .. Len(s) - 1 |-> StepPrice(g, s[k], s[k + 1])])
    /\ e.res.nums = [k \in 1 .. Len(s) - 1 |-> Len(Positions(g, s[k], s[k + 1]))]
    /\ Near(e.res.m, PathPrice(g, s)) /\ e.res.same)
JudgeSp(e) == LET S == Shortest(g, e.i, e.o) IN Asked(e, S # {}, "shortest-path", e.res \in S)

PriceIs(p, i, o) == IF i = o THEN p = "1" ELSE \E s \in Shortest(g, i, o) : Near(p, PathPrice(g, s))
JudgePrice(e) ==
  LET known == e.i \in Tokens(g) /\ e.o \in Tokens(g)
      must == Kind(g) # "amount" /\ known /\ (e.i = e.o \/ Shortest(g, e.i, e.o) # {}) IN
  IF ~known /\ e.i = e.o /\ Kind(g) # "amount" THEN Req(Unchanged(e), "question-changed")
  ELSE Asked(e, must, "price", PriceIs(e.res, e.i, e.o) /\ e.unit = (IF e.units THEN Per(e.o, e.i) \o " [" \o Slash(e.i, e.o) \o "]" ELSE None))
JudgePtab(e) ==
  LET ts == [k \in DOMAIN g.nodes |-> g.nodes[k].t]
      inc == CASE e.inc = "first2" -> SubSeq(ts, 1, 2) [] e.inc = "last" -> Tail(ts) [] OTHER -> ts
      lab == IF e.exc = "first" THEN SelectSeq(inc, LAMBDA t : t # ts[1]) ELSE inc
      must == Kind(g) # "amount" /\ \A a, b \in DOMAIN lab : a # b => Shortest(g, lab[a], lab[b]) # {} IN
  IF lab = <<>> THEN Req(Unchanged(e), "question-changed")
  ELSE Asked(e, must, "price-table",
         /\ e.res.cols = lab /\ e.res.rows = lab /\ Len(e.res.data) = Len(lab)
         /\ \A a \in DOMAIN lab : Len(e.res.data[a]) = Len(lab) /\ \A b \in DOMAIN lab : PriceIs(e.res.data[a][b], lab[a], lab[b]))

-----------------------------------------------------------------------------
(* the graph as matrices and tables *)
JudgeShape(e) ==
  LET N == DOMAIN g.nodes
      T(k) == g.nodes[k].t
      L1(a, b) == Linked(g, T(a), T(b))
      U(a, b) == L1(a, b) \/ L1(b, a)
      B(p) == IF p THEN 1 ELSE 0
      deg == [a \in N |-> Cardinality({b \in N : U(a, b)})]
      pairs == {<<a - 1, b - 1>> : a \in N, b \in N} IN
  Req(e.adj = [a \in N |-> [b \in N |-> B(L1(a, b))]] /\ e.adjp = e.adj /\ e.adju = [a \in N |-> [b \in N |-> B(U(a, b))]], "adjacency")
  \cup Req(e.lap = [a \in N |-> [b \in N |-> IF a = b THEN deg[a] ELSE 0 - B(U(a, b))]] /\ e.lap2 = e.lap, "laplacian")
  \cup Req(/\ e.deg = deg /\ e.ind = [a \in N |-> Cardinality({b \in N : L1(b, a)})] /\ e.outd = [a \in N |-> Cardinality({b \in N : L1(a, b)})]
           /\ e.degm = [a \in N |-> [b \in N |-> IF a = b THEN deg[a] ELSE 0]], "degrees")
  \cup Req(e.weak = Connected(g), "connected")
  \cup Req(/\ e.nx.n = Len(g.nodes) /\ e.nx.tkn = [k \in N |-> T(k)]
           /\ Rng(e.nx.e) = {p \in pairs : L1(p[1] + 1, p[2] + 1)} /\ Len(e.nx.e) = Cardinality(Rng(e.nx.e)), "as-graph")
  \cup Req(Unchanged(e), "question-changed")

\* the base token of a pair is the one of the higher rank
Rank(t) == CASE t = "USDC" -> 0 [] t = "ETH" -> 14 [] t = "WBTC" -> 16 [] OTHER -> 100
Ord(t) == CASE t = "BNT(2)" -> 1 [] t = "ETH" -> 2 [] t = "LINK-x1" -> 3 [] t = "USDC" -> 4 [] OTHER -> 5
IsPrimary(i, o) == IF Rank(i) = Rank(o) THEN Ord(i) < Ord(o) ELSE Rank(o) < Rank(i)
Prim(x) == IF IsPrimary(x.i, x.o) THEN Slash(x.i, x.o) ELSE Slash(x.o, x.i)
PPrice(x) == IF IsPrimary(x.i, x.o) THEN POut(x) ELSE RDiv("1", POut(x))
Key(x) == <<Prim(x), x.i, x.o>>
JudgeDf(e) ==
  LET s == IF e.sub THEN SubSeq(g.edges, 1, 1) ELSE g.edges
      rows == e.rows IN
  Asked(e, TRUE, "edge-table",
    IF Kind(g) = "amount"
    THEN IF e.cons
         THEN LET K == {Key(s[k]) : k \in DOMAIN s}
                  Of(q) == SelectSeq(s, LAMBDA x : Key(x) = q) IN
              /\ Len(rows) = Cardinality(K) /\ {<<rows[k].pair, rows[k].tkn_in, rows[k].tkn_out>> : k \in DOMAIN rows} = K
              /\ \A k \in DOMAIN rows : LET o == Of(<<rows[k].pair, rows[k].tkn_in, rows[k].tkn_out>>) IN
                   Near(rows[k].amount_in, SumAll(Col(o, "a"))) /\ Near(rows[k].amount_out, SumAll(Col(o, "b")))
              /\ e.index = IF e.resetindex THEN <<None>> ELSE <<"pair", "tkn_in", "tkn_out">>
         ELSE /\ Len(rows) = Len(s) /\ e.index = <<"uid">>
              /\ \A k \in DOMAIN s : LET r == rows[k]  x == s[k] IN
                   r.uid = x.uid /\ r.pair = Prim(x) /\ r.tkn_in = x.i /\ r.tkn_out = x.o /\ Near(r.amount_in, x.a) /\ Near(r.amount_out, x.b)
    ELSE IF e.cons
         THEN LET K == {Prim(s[k]) : k \in DOMAIN s}
                  Fwd(q) == SelectSeq(s, LAMBDA x : Prim(x) = q /\ IsPrimary(x.i, x.o))
                  Rev(q) == SelectSeq(s, LAMBDA x : Prim(x) = q /\ ~IsPrimary(x.i, x.o))
                  W(o, v) == IF o = <<>> THEN v \in {"None", "nan"} ELSE Near(v, RNeg(SumAll(Col(o, "a")))) IN
              /\ Len(rows) = Cardinality(K) /\ {rows[k].pair : k \in DOMAIN rows} = K
              /\ \A k \in DOMAIN rows : LET r == rows[k]  f == Fwd(r.pair)  b == Rev(r.pair)  p == IF f = <<>> THEN b ELSE f IN
                   W(f, r.n) /\ W(b, r.n_rev) /\ Near(r.price, Mean([j \in DOMAIN p |-> PPrice(p[j])]))
              /\ e.index = IF e.resetindex THEN <<None>> ELSE <<"pair">>
         ELSE /\ Len(rows) = Len(s)
              /\ \A k \in DOMAIN s : LET r == rows[k]  x == s[k] IN
                   /\ r.pair = Prim(x) /\ r.tkn_in = x.i /\ r.tkn_out = x.o /\ Near(r.n, RNeg(x.a)) /\ Near(r.price_outin, POut(x)) /\ Near(r.price, PPrice(x))
                   /\ r.is_reverse = (IF IsPrimary(x.i, x.o) THEN "false" ELSE "true"))

-----------------------------------------------------------------------------
(* cycles and amounts by themselves *)
RECURSIVE SubSeqOf(_, _)
SubSeqOf(s, t) == IF s = <<>> THEN TRUE ELSE IF t = <<>> THEN FALSE
                  ELSE IF s[1] = t[1] THEN SubSeqOf(Tail(s), Tail(t)) ELSE SubSeqOf(s, Tail(t))
Adjacent(s) == [k \in 1 .. Len(s) - 1 |-> <<s[k], s[k + 1]>>]
JudgeCycle(e) ==
  LET c == IF e.how = "none" THEN e.main ELSE Rotated(e.main, e.ix + 1)
      closed == Append(c, c[1])
      in == e.sub[1] \in Rng(e.main) /\ SubSeqOf(e.sub, Rotated(e.main, Pos1(e.main, e.sub[1]))) IN
  Req(e.ok = (e.how # "both"), "cycle-items")
  \cup (IF ~e.ok THEN {} ELSE Req(e.items = closed /\ e.pairs = Adjacent(closed), "cycle-items"))
  \cup Req(e.len = Len(e.main) /\ e.pitems = e.main /\ e.ppairs = Adjacent(e.main), "cycle-items")
  \cup Req(e.sub1 = in /\ e.self1 /\ e.filtered = (IF in THEN <<"s">> ELSE <<>>) \o (IF e.list THEN <<"m">> ELSE <<>>), "subcycles")
  \cup Req(Unchanged(e), "question-changed")

HalfEven(x) == LET f == RFloor(RAdd(x, "1/2")) IN
               IF REq(RSub(x, RFloor(x)), "1/2") /\ ~RIsInt(RDiv(f, "2")) THEN RSub(f, "1") ELSE f
Truncated(x) == IF Neg(x) THEN RCeil(x) ELSE RFloor(x)
JudgeAmt(e) ==
  LET x == e.x  y == e.y
      pair == {"add", "sub", "div", "lt", "le", "gt", "ge"}
      must == e.f \notin {"addn", "muln", "radd", "rsub"} /\ (e.f \in pair => e.same)
      B(p) == IF p THEN "1" ELSE "0"
      val == CASE e.f = "add" -> RAdd(x, y) [] e.f = "sub" -> RSub(x, y) [] e.f \in {"mul", "rmul"} -> RMul(x, y) [] e.f \in {"div", "divs"} -> RDiv(x, y)
               [] e.f = "neg" -> RNeg(x) [] e.f \in {"pos", "copy"} -> x [] e.f = "abs" -> RAbs(x)
               [] e.f = "lt" -> B(RLt(x, y)) [] e.f = "le" -> B(RLe(x, y)) [] e.f = "gt" -> B(RGt(x, y)) [] e.f = "ge" -> B(RGe(x, y))
               [] e.f = "eq" -> B(e.same /\ REq(x, y)) [] e.f = "round" -> HalfEven(x) [] e.f = "floor" -> RFloor(x) [] e.f = "ceil" -> RCeil(x)
               [] OTHER -> Truncated(x)
      kind == IF e.f \in {"lt", "le", "gt", "ge", "eq"} THEN "bool" ELSE IF e.f = "div" THEN "number" ELSE "amount"
  IN Req(e.ok = must /\ e.kept /\ (must => Near(e.res.v, val) /\ e.res.kind = kind /\ (kind = "amount" => e.res.node)), "amounts")
     \cup Req(Unchanged(e), "question-changed")

-----------------------------------------------------------------------------
Judge(e) ==
  IF ~e.wf THEN {"crash"}
  ELSE Req(Shaped(e.g), "graph-shape") \cup
   (CASE e.op = "new" -> Req(Now(e) = [nodes |-> [k \in DOMAIN e.toks |-> NewNode(e.toks[k])], edges |-> <<>>], "graph-built")
      [] e.op = "addE" -> One(e, EdgeOf(e.i, e.a, e.o, e.b, e.inv, e.uid), Pos(e.a) /\ Pos(e.b))
      [] e.op = "addXY" -> JudgeXY(e)
      [] e.op = "addC" -> JudgeC(e)
      [] e.op = "addCpc" -> JudgeCpc(e)
      [] e.op = "fromT" -> Built(e, TRUE, WithTrades(EmptyGraph, e, 1))
      [] e.op = "fund" -> Req(GraphNear(Now(e), LET k == NodeOf(g, e.t) IN Shift(g, e.t, IF e.inc THEN e.v ELSE RSub(e.v, g.nodes[k].bal))), "balance-set")
      [] e.op = "fundall" -> Req(GraphNear(Now(e), [g EXCEPT !.nodes = [k \in DOMAIN @ |-> [@[k] EXCEPT !.bal = e.v, !.hist = Append(@, e.v)]]]), "balance-set")
      [] e.op = "nreset" -> Req(GraphNear(Now(e), [g EXCEPT !.nodes[NodeOf(g, e.t)] = [@ EXCEPT !.bal = e.v, !.hist = <<e.v>>]]), "balance-set")
      [] e.op = "ereset" -> Req(GraphNear(Now(e), IF Amounts(g.edges[e.ix + 1]) THEN [g EXCEPT !.edges[e.ix + 1].rem = e.v] ELSE g), "balance-set")
      [] e.op = "trE" -> JudgeTrE(e)
      [] e.op = "trG" -> JudgeTrG(e)
      [] e.op = "reset" -> Req(e.self /\ Now(e) = Reset(g), "graph-reset")
      [] e.op = "edge" -> JudgeEdge(e)
      [] e.op = "cap" -> JudgeCap(e)
      [] e.op = "es" -> JudgeEs(e)
      [] e.op = "ns" -> JudgeNs(e)
      [] e.op = "fe" -> JudgeFe(e)
      [] e.op = "dup" -> JudgeDup(e)
      [] e.op = "cyc" -> JudgeCyc(e)
      [] e.op = "run" -> JudgeRun(e)
      [] e.op = "runs" -> JudgeRuns(e)
      [] e.op = "pt" -> JudgePt(e)
      [] e.op = "sp" -> JudgeSp(e)
      [] e.op = "price" -> JudgePrice(e)
      [] e.op = "ptab" -> JudgePtab(e)
      [] e.op = "shape" -> JudgeShape(e)
      [] e.op = "df" -> JudgeDf(e)
      [] e.op = "cycle" -> JudgeCycle(e)
      [] e.op = "amt" -> JudgeAmt(e)
      [] OTHER -> {"unknown-event"})

Init == tid \in DOMAIN Traces /\ l = 0 /\ g = EmptyGraph
Next == /\ l < Len(Traces[tid].evs)
        /\ l' = l + 1 /\ tid' = tid
        /\ LET e == Traces[tid].evs[l'] IN
             /\ Report(Traces[tid].tid, l', e.op, Judge(e))
             /\ g' = IF e.wf THEN Graph(e.g) ELSE g
Spec == Init /\ [][Next]_tvars
=============================================================================
