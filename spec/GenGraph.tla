------------------------------ MODULE GenGraph ------------------------------
(* Generates arbitrage graphs, transports through them, and questions about them. *)
EXTENDS GraphCore, Integers, Json, IOUtils

CONSTANT Depth
PROFILE == IOEnv.PROFILE
VARIABLES n, hist, g             \* g: the graph the plan has built so far
vars == <<n, hist, g>>

One(s) == {s[RandomElement(DOMAIN s)]}
Pick(s) == s[RandomElement(DOMAIN s)]
Pct(k) == RandomElement(1 .. 100) <= k
OneOf(S) == {RandomElement(S)}

Toks == <<"ETH", "USDC", "WBTC", "LINK-x1", "BNT(2)">>
Sub == << <<>>, <<>>, <<"ETH", "USDC">>, <<"USDC", "ETH", "WBTC">>, <<"LINK-x1", "BNT(2)", "WBTC", "ETH", "USDC">> >>
Amts == <<"1", "2", "5", "10", "1/2", "1/3", "2000", "3/1000", "7/4">>
Prices == <<"1", "2", "2000", "1/2", "1/5", "21/20", "19/20", "1/3000", "1000001/1000000">>
Weights == <<"None", "None", "1", "2", "1/4", "10">>
Uids == <<"None", "e1", "e2", "pool">>
Other(t) == Pick(SelectSeq(Toks, LAMBDA u : u # t))
Others(t) == SelectSeq(Toks, LAMBDA u : u # t)
Does(op, h) == hist' = Append(hist, op) /\ g' = h

New == \E s \in One(Sub) : \E how \in One(<<"list", "string", "nodes">>) :
         Does([op |-> "new", toks |-> s, how |-> how], [nodes |-> [k \in DOMAIN s |-> NewNode(s[k])], edges |-> <<>>])

\* a token: mostly one of the graph
Known == IF g.nodes = <<>> THEN Toks ELSE [k \in DOMAIN g.nodes |-> g.nodes[k].t]
SomeTok == IF Pct(85) THEN Known ELSE Toks
NotIn(s, t) == LET r == SelectSeq(s, LAMBDA u : u # t) IN IF r = <<>> THEN Others(t) ELSE r
Ends(A(_, _)) == \E old \in {Pct(55)} : \E i \in One(IF old THEN Known ELSE Toks) : \E o \in One(NotIn(IF old THEN Known ELSE Toks, i)) : A(i, o)

AddE == LET A(i, o) == \E inv \in {Pct(25)} : \E u \in One(Uids) : \E bad \in {Pct(6)} :
              \E a \in One(IF bad THEN <<"0", "-1", "1">> ELSE Amts) : \E b \in One(IF bad THEN <<"0", "-2">> ELSE Amts) :
                LET e == EdgeOf(i, a, o, b, inv, u) IN
                Does([op |-> "addE", i |-> i, a |-> a, o |-> o, b |-> b, inv |-> inv, uid |-> u], IF ~bad /\ Fits(g, e) THEN WithEdge(g, e) ELSE g)
        IN Ends(A)
\* both ways at about the same price, so that there are cycles
AddBoth == LET A(i, o) == \E a \in One(Amts) : \E p \in One(Prices) : \E w \in One(<<"1", "101/100", "99/100", "11/10">>) :
                LET e == EdgeOf(i, a, o, RCanon(RMul(a, p)), FALSE, "f")  f == EdgeOf(o, RCanon(RMul(a, p)), i, RCanon(RMul(a, w)), FALSE, "b") IN
                /\ hist' = Append(Append(hist, [op |-> "addE", i |-> i, a |-> a, o |-> o, b |-> e.b, inv |-> FALSE, uid |-> "f"]),
                                  [op |-> "addE", i |-> o, a |-> f.a, o |-> i, b |-> f.b, inv |-> FALSE, uid |-> "b"])
                /\ g' = IF Fits(g, e) THEN WithEdge(WithEdge(g, e), f) ELSE g
           IN Ends(A)
Tiny == "1/100000"
AddXY == LET A(i, o) == \E k \in {RandomElement(1 .. 10)} : \E a, b \in {RandomElement({Amts[j] : j \in DOMAIN Amts})} : \E u \in One(Uids) : \E inv \in {Pct(20)} :
                LET dx == CASE k <= 4 -> a [] k \in 5 .. 8 -> RNeg(a) [] k = 9 -> Pick(<<"0", Tiny, RNeg(Tiny)>>) [] OTHER -> a
                    dy == CASE k <= 4 -> RNeg(b) [] k \in 5 .. 8 -> b [] k = 9 -> Pick(<<"0", Tiny, RNeg(Tiny)>>) [] OTHER -> Pick(<<b, "0", Tiny>>)
                    e == IF Pos(dx) THEN EdgeOf(i, dx, o, RNeg(dy), inv, u) ELSE EdgeOf(o, dy, i, RNeg(dx), inv, u) IN
                \E x \in {dx} : \E y \in {dy} :
                LET e2 == IF Pos(x) THEN EdgeOf(i, x, o, RNeg(y), inv, u) ELSE EdgeOf(o, y, i, RNeg(x), inv, u) IN
                Does([op |-> "addXY", i |-> i, dx |-> RCanon(x), o |-> o, dy |-> RCanon(y), inv |-> inv, uid |-> u],
                     IF Neg(RMul(x, y)) /\ Fits(g, e2) THEN WithEdge(g, e2) ELSE g)
         IN Ends(A)
AddC == LET A(i, o) == \E p \in One(Prices) : \E how \in One(<<"price", "price", "outperin", "none", "outinv", "two">>) : \E inv \in {Pct(35)} : \E w \in One(Weights) :
              \E badw \in {Pct(3)} : \E sym \in {Pct(70)} : \E u \in One(Uids) :
                LET wt == IF badw THEN "0" ELSE IF w = None THEN "1" ELSE w
                    pp == IF how = "none" THEN "1" ELSE p
                    iv == inv /\ how # "outperin"
                    e == Connection(i, o, pp, wt, iv, u)  f == Connection(o, i, pp, wt, ~iv, u \o "-r")
                    ok == ~badw /\ Fits(g, e) /\ how # "two" /\ ~(how = "outinv") IN
                Does([op |-> "addC", i |-> i, o |-> o, p |-> p, how |-> how, inv |-> inv /\ how # "outperin", w |-> IF badw THEN "0" ELSE w, sym |-> sym, uid |-> u],
                     IF ok THEN (IF sym THEN WithEdge(WithEdge(g, e), f) ELSE WithEdge(g, e)) ELSE g)
        IN Ends(A)
Curves1 == \E num \in {RandomElement(1 .. 3)} : \E how \in One(<<"cc", "list", "gen", "single", "from">>) :
           \E ts \in {[k \in 1 .. 3 |-> LET b == Pick(Toks) IN <<b, Pick(Others(b))>>]} : \E xs \in {[k \in 1 .. 3 |-> <<Pick(Amts), Pick(Prices)>>]} :
             LET m == IF how = "single" THEN 1 ELSE num
                 cs == [k \in 1 .. m |-> [b |-> ts[k][1], q |-> ts[k][2], x |-> xs[k][1], y |-> RCanon(RMul(xs[k][1], xs[k][2])), cid |-> "c" \o ToString(k)]]
                 RECURSIVE All(_, _)
                 All(h, k) == IF k > m THEN h ELSE
                    All(WithEdge(WithEdge(h, Connection(cs[k].b, cs[k].q, xs[k][2], "1", FALSE, cs[k].cid)), Connection(cs[k].q, cs[k].b, xs[k][2], "1", TRUE, cs[k].cid \o "-r")), k + 1)
                 base == IF how = "from" THEN EmptyGraph ELSE g
             IN Does([op |-> "addCpc", cs |-> cs, how |-> how], IF base.edges = <<>> \/ Kind(base) = "connection" THEN All(base, 1) ELSE g)
Trades == \E num \in {RandomElement(1 .. 4)} : \E how \in One(<<"cc", "r">>) : \E ign \in {Pct(85)} :
          \E ts \in {[k \in 1 .. 4 |-> LET b == Pick(Toks) IN <<b, Pick(Others(b))>>]} :
          \E dd \in {[k \in 1 .. 4 |-> LET j == RandomElement(1 .. 7)  a == Pick(Amts)  b == Pick(Amts) IN
                        CASE j <= 3 -> <<a, RCanon(RNeg(b))>> [] j \in 4 .. 6 -> <<RCanon(RNeg(a)), b>> [] OTHER -> <<"0", "0">>]} :
            LET cs == [k \in 1 .. num |-> [b |-> ts[k][1], q |-> ts[k][2], x |-> "10000000", y |-> "10000000", cid |-> "c" \o ToString(k)]]
                RECURSIVE All(_, _)
                All(h, k) == IF k > num THEN h ELSE
                   All(IF ~Neg(RMul(dd[k][1], dd[k][2])) THEN h
                       ELSE IF Pos(dd[k][1]) THEN WithEdge(h, EdgeOf(ts[k][1], dd[k][1], ts[k][2], RNeg(dd[k][2]), FALSE, cs[k].cid))
                       ELSE WithEdge(h, EdgeOf(ts[k][2], dd[k][2], ts[k][1], RNeg(dd[k][1]), FALSE, cs[k].cid)), k + 1)
            IN Does([op |-> "fromT", cs |-> cs, d |-> [k \in 1 .. num |-> dd[k]], how |-> how, ignore |-> ign], All(EmptyGraph, 1))

Fund == g.nodes # <<>> /\ \E t \in One(Known) : \E a \in One(Amts \o <<"10000", "100000">>) : \E inc \in {Pct(20)} :
          LET v == IF inc THEN RAdd(g.nodes[NodeOf(g, t)].bal, a) ELSE a IN
          Does([op |-> "fund", t |-> t, v |-> a, inc |-> inc], [g EXCEPT !.nodes[NodeOf(g, t)].bal = v])
\* funds every node
FundAll == g.nodes # <<>> /\ Does([op |-> "fundall", v |-> "100000"], [g EXCEPT !.nodes = [k \in DOMAIN g.nodes |-> [g.nodes[k] EXCEPT !.bal = "100000"]]])

NodeReset == g.nodes # <<>> /\ \E t \in One(Known) : \E a \in One(Amts \o <<"0", "50000">>) :
               Does([op |-> "nreset", t |-> t, v |-> a], [g EXCEPT !.nodes[NodeOf(g, t)].bal = a])
EdgeReset == g.edges # <<>> /\ \E k \in OneOf(DOMAIN g.edges) : \E a \in One(Amts) :
               Does([op |-> "ereset", ix |-> k - 1, v |-> a], IF Amounts(g.edges[k]) THEN [g EXCEPT !.edges[k].rem = a] ELSE g)

Fracs == <<"1", "1/2", "1/4", "9/10", "1/3", "1", "3/2", "101/100", "0", "-1/10", "2">>
TrE == g.edges # <<>> /\ \E k \in OneOf(DOMAIN g.edges) : \E f \in One(Fracs) : \E whole \in {Pct(12)} : \E rec \in {Pct(75)} : \E rse \in {Pct(85)} : \E how \in One(<<"num", "num", "amount", "wrong">>) :
         LET e == g.edges[k]
             base == IF Amounts(e) THEN (IF Pct(70) /\ Pos(e.rem) THEN e.rem ELSE e.a) ELSE "2" IN
         \E amt \in {RCanon(RMul(base, f))} :
         LET used == IF whole THEN e.a ELSE amt
             ok == Amounts(e) /\ rec /\ Admits(e, used) /\ (~rse \/ Covered(g, k, used)) /\ how # "wrong" IN
         Does([op |-> "trE", ix |-> k - 1, amt |-> IF whole THEN None ELSE amt, rec |-> rec, rse |-> rse, how |-> how], IF ok THEN Used(g, k, used) ELSE g)
TrG == g.edges # <<>> /\ \E k \in OneOf(DOMAIN g.edges) : \E f \in One(Fracs) : \E rec \in {Pct(75)} : \E rse \in {Pct(90)} : \E how \in One(<<"str", "node", "amount", "wrong", "algo", "miss">>) :
         LET e == g.edges[k]  ks == Positions(g, e.i, e.o) IN
         /\ Amounts(e)
         /\ \E amt \in {RCanon(RMul(LET r == Left(g, ks) IN IF Pos(r) THEN r ELSE "1", f))} : \E o \in One(<<e.o, e.o, Other(e.i)>>) :
            LET real == how \in {"str", "node", "amount"} /\ o = e.o /\ Pos(Left(g, ks))
                sp == Split(g, ks, amt)
                ok == real /\ rec /\ RLe(amt, Left(g, ks)) /\ ~Neg(amt) /\ RLe(amt, g.nodes[NodeOf(g, e.i)].bal) IN
            Does([op |-> "trG", i |-> e.i, o |-> o, amt |-> amt, rec |-> rec, rse |-> rse, how |-> how], IF ok THEN UsedAll(g, ks, sp) ELSE g)
Reset1 == Does([op |-> "reset"], Reset(g))

Ask(op) == Does(op, g)
QE == \E k \in OneOf(DOMAIN g.edges) : \E j \in OneOf(DOMAIN g.edges) : \E m \in One(<<"2", "1/2", "3", "0", "-1">>) :
        Ask([op |-> "edge", ix |-> k - 1, jx |-> (IF Pct(50) THEN j ELSE k) - 1, m |-> m])
\* two edges of the same pair, if there are
QE2 == \E k \in OneOf(DOMAIN g.edges) : \E m \in One(<<"2", "1/2", "3">>) : 
         \E j \in OneOf({q \in DOMAIN g.edges : g.edges[q].i = g.edges[k].i /\ g.edges[q].o = g.edges[k].o}) : Ask([op |-> "edge", ix |-> k - 1, jx |-> j - 1, m |-> m])
QCap == \E i \in One(<<None>> \o SomeTok) : \E o \in One(<<None>> \o SomeTok) : Ask([op |-> "cap", i |-> i, o |-> o])
QEs == \E i \in One(SomeTok) : \E o \in One(NotIn(SomeTok, i)) : \E how \in One(<<"nodes", "nodes", "objs", "both", "pair", "edges", "alledges">>) : Ask([op |-> "es", i |-> i, o |-> o, how |-> how])
QNs == \E t \in One(SomeTok) : Ask([op |-> "ns", t |-> t])
QFe == \E i \in One(<<None>> \o SomeTok) : \E o \in One(<<None>> \o SomeTok) : \E both \in One(<<"None", "yes", "no">>) : \E how \in One(<<"nodes", "objs", "pair", "node", "nodeand", "pairand">>) :
         Ask([op |-> "fe", i |-> i, o |-> o, both |-> both, how |-> how])
QDup == \E c \in {Pct(50)} : \E then \in One(<<"none", "fund", "add">>) : Ask([op |-> "dup", cons |-> c, then |-> then])
QCyc == Ask([op |-> "cyc"])
QRun == \E k \in {RandomElement(0 .. 20)} : \E t \in One(<<None, None>> \o Toks) : \E any \in {Pct(70)} : \E how \in One(<<"graph", "cycle">>) : Ask([op |-> "run", k |-> k, token |-> t, any |-> any, how |-> how])
QRuns == \E t \in One(<<None>> \o Toks) : \E f \in One(<<"None", "gen", "tuple", "dicts", "df", "aggrdf", "bad">>) : Ask([op |-> "runs", token |-> t, format |-> f])
QPt == \E k \in {RandomElement(0 .. 20)} : \E how \in One(<<"cycle", "path">>) : \E i \in One(Known) : \E o \in One(Known) : Ask([op |-> "pt", k |-> k, how |-> how, i |-> i, o |-> o])
QPrice == \E i \in One(SomeTok) : \E o \in One(SomeTok) : \E how \in One(<<"str", "objs", "mix">>) : \E units \in {Pct(30)} : Ask([op |-> "price", i |-> i, o |-> o, how |-> how, units |-> units])
QPtab == \E inc \in One(<<"None", "None", "first2", "last">>) : \E exc \in One(<<"None", "None", "first">>) : \E df \in {Pct(40)} : Ask([op |-> "ptab", inc |-> inc, exc |-> exc, df |-> df])
QSp == \E i \in One(Known) : \E o \in One(Known) : Ask([op |-> "sp", i |-> i, o |-> o])
QShape == Ask([op |-> "shape"])
QDf == \E c \in {Pct(60)} : \E r \in {Pct(40)} : \E sub \in {Pct(25)} : Ask([op |-> "df", cons |-> c, resetindex |-> r, sub |-> sub])

\* cycles and amounts by themselves
Ints == <<1, 2, 3, 4, 5, 6, 7>>
QCycle == \E num \in {RandomElement(1 .. 6)} : \E off \in {RandomElement(0 .. 5)} : \E ix \in OneOf(0 .. num - 1) :
          \E sub \in {[k \in 1 .. RandomElement(1 .. 4) |-> RandomElement(1 .. 8)]} :
          \E real \in {Pct(60)} : \E S \in OneOf(SUBSET (1 .. num)) : \E r \in OneOf(0 .. 5) :
            LET main == [k \in 1 .. num |-> ((k + off) % 7) + 1]
                RECURSIVE Part(_)
                Part(k) == IF k > num THEN <<>> ELSE (IF k \in S THEN <<main[k]>> ELSE <<>>) \o Part(k + 1)
                p == Part(1)
                distinct == \A a, b \in DOMAIN sub : a # b => sub[a] # sub[b] IN
            \E c2 \in {IF real /\ p # <<>> THEN Rotated(p, (r % Len(p)) + 1) ELSE IF distinct THEN sub ELSE <<sub[1]>>} :
            Ask([op |-> "cycle", main |-> main, ix |-> ix, how |-> Pick(<<"ix", "val", "none", "both">>), sub |-> c2, list |-> Pct(40)])
QAmt == \E f \in One(<<"add", "sub", "mul", "rmul", "div", "divs", "neg", "pos", "abs", "lt", "le", "gt", "ge", "round", "floor", "ceil", "trunc", "eq", "copy", "addn", "muln", "radd", "rsub">>) :
        \E x \in One(<<"1", "-7/2", "5/2", "0", "1/3", "-1", "100">>) : \E y \in One(<<"2", "1", "-1/2", "7/4", "5/2">>) : \E same \in {Pct(75)} :
          Ask([op |-> "amt", f |-> f, x |-> x, y |-> y, same |-> same])

Build == LET k == RandomElement(1 .. 100) IN
  IF PROFILE = "price" THEN (CASE k <= 8 -> New [] k \in 9 .. 74 -> AddC [] k \in 75 .. 95 -> Curves1 [] OTHER -> AddE)
  ELSE CASE k <= 8 -> New [] k \in 9 .. 40 -> AddE [] k \in 41 .. 66 -> AddBoth [] k \in 67 .. 82 -> AddXY [] k \in 83 .. 97 -> Trades [] OTHER -> AddC
Flow == LET k == RandomElement(1 .. 100) IN
  CASE k <= 10 -> Fund [] k \in 11 .. 22 -> FundAll [] k \in 23 .. 48 -> TrE [] k \in 49 .. 72 -> TrG [] k \in 73 .. 74 -> Reset1 [] k = 75 -> NodeReset [] k = 76 -> EdgeReset
    [] k \in 77 .. 82 -> QCap [] k \in 83 .. 90 -> QEs [] k \in 91 .. 95 -> QNs [] OTHER -> QDup
Arb == LET k == RandomElement(1 .. 100) IN
  CASE k <= 15 -> QCyc [] k \in 16 .. 60 -> QRun [] k \in 61 .. 80 -> QRuns [] k \in 81 .. 85 -> TrE [] k \in 86 .. 90 -> QPt [] k \in 91 .. 95 -> AddBoth [] OTHER -> QShape
Look == LET k == RandomElement(1 .. 100) IN
  CASE k <= 12 -> QE [] k \in 13 .. 28 -> QE2 [] k \in 29 .. 42 -> QFe [] k \in 43 .. 52 -> QDup [] k \in 53 .. 62 -> QShape [] k \in 63 .. 72 -> QDf
    [] k \in 73 .. 86 -> QCycle [] OTHER -> QAmt
Worth1 == LET k == RandomElement(1 .. 100) IN
  CASE k <= 30 -> QPrice [] k \in 31 .. 45 -> QPtab [] k \in 46 .. 55 -> QSp [] k \in 56 .. 70 -> QPt [] k \in 71 .. 78 -> QCyc [] k \in 79 .. 84 -> QE2 [] k \in 85 .. 90 -> TrE
    [] k \in 91 .. 95 -> QDf [] OTHER -> QShape

Init == n = 0 /\ hist = <<>> /\ g = EmptyGraph
Next == /\ n <= Depth /\ n' = n + 1
        /\ \E act \in {IF n <= 5 THEN "build" ELSE IF Pct(6) THEN "build" ELSE IF PROFILE = "look" /\ Pct(25) THEN "build" ELSE "use"} :
           IF act = "build" \/ g.edges = <<>> THEN Build
           ELSE CASE PROFILE = "flow" -> Flow [] PROFILE = "arb" -> Arb [] PROFILE = "price" -> Worth1 [] PROFILE = "look" -> Look
Emit == n = Depth + 1 => PrintT("PLAN " \o ToJson([ops |-> hist]))
Spec == Init /\ [][Next]_vars
=============================================================================
