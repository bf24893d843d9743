----------------------------- MODULE GraphCore -----------------------------
(***************************************************************************)
(* Arbitrage graphs.  A graph has                                          *)
(*   nodes: tokens, each with a balance (and the history of balances);     *)
(*   edges: offers to turn one token into another.  An amount edge turns   *)
(*          up to a of token i into b of token o, pro rata; rem of the a   *)
(*          have not been used yet.  A connection edge only has a price    *)
(*          b/a and a weight -a (the amounts are negative).                *)
(* All edges of a graph are of the same kind.                              *)
(*                                                                         *)
(* The transitions are the construction of the graph, and the transports   *)
(* that use capacity of edges and move balances; everything else is a      *)
(* question about the graph: which cycles there are, what running one of   *)
(* them yields, what one token is worth in another.                        *)
(***************************************************************************)
EXTENDS Rat, Naturals, Sequences, FiniteSets, TLC

None == "None"
Eps == "1/1000000000"
Neg(a) == RLt(a, "0")
Pos(a) == RGt(a, "0")
EmptyGraph == [nodes |-> <<>>, edges |-> <<>>]

Tokens(g) == {g.nodes[k].t : k \in DOMAIN g.nodes}
NodeOf(g, t) == CHOOSE k \in DOMAIN g.nodes : g.nodes[k].t = t
NewNode(t) == [t |-> t, bal |-> "0", hist |-> <<"0">>]
WithNode(g, t) == IF t \in Tokens(g) THEN g ELSE [g EXCEPT !.nodes = Append(@, NewNode(t))]
Amounts(e) == ~Neg(e.a)
Kind(g) == IF g.edges = <<>> THEN "none" ELSE IF Amounts(g.edges[1]) THEN "amount" ELSE "connection"

EdgeOf(i, a, o, b, inv, uid) == [i |-> i, a |-> a, o |-> o, b |-> b, inv |-> inv, uid |-> uid, rem |-> IF Neg(a) THEN None ELSE a]
WithEdge(g, e) == LET h == WithNode(WithNode(g, e.i), e.o) IN [h EXCEPT !.edges = Append(@, e)]
Fits(g, e) == g.edges = <<>> \/ Amounts(g.edges[1]) = Amounts(e)

\* a connection at price p: of what comes out per what goes in, or (inverse) the other way round
Connection(i, o, p, w, inv, uid) ==
  LET q == IF inv /\ ~REq(p, "0") THEN RDiv("1", p) ELSE p IN EdgeOf(i, RNeg(w), o, RNeg(RMul(q, w)), inv, uid)

POut(e) == RDiv(e.b, e.a)
PriceOfEdge(e, inverse) == IF inverse THEN RDiv(e.a, e.b) ELSE POut(e)
Reversed(e) == EdgeOf(e.o, e.b, e.i, e.a, ~e.inv, None)
Sum2(e, f) == EdgeOf(e.i, RAdd(e.a, f.a), e.o, RAdd(e.b, f.b), e.inv, None)
Times(e, k) == EdgeOf(e.i, RMul(e.a, k), e.o, RMul(e.b, k), e.inv, None)

RECURSIVE SumAll(_)
SumAll(s) == IF s = <<>> THEN "0" ELSE RAdd(s[1], SumAll(Tail(s)))
Col(s, f) == [k \in DOMAIN s |-> s[k][f]]

Selected(s, Test(_)) == SelectSeq(s, Test)
\* edges from i to o; None stands for any
Between(g, i, o) == LET T(e) == (i = None \/ e.i = i) /\ (o = None \/ e.o = o) IN SelectSeq(g.edges, T)
Touching(g, t) == LET T(e) == e.i = t \/ e.o = t IN SelectSeq(g.edges, T)
\* positions, in order
RECURSIVE Pick2(_, _, _)
Pick2(g, S, k) == IF k > Len(g.edges) THEN <<>> ELSE (IF k \in S THEN <<k>> ELSE <<>>) \o Pick2(g, S, k + 1)
Positions(g, i, o) == Pick2(g, {k \in DOMAIN g.edges : g.edges[k].i = i /\ g.edges[k].o = o}, 1)

-----------------------------------------------------------------------------
(* Transports *)
Output(e, amt) == RDiv(RMul(amt, e.b), e.a)
\* no amount edge takes more than it was made for, whatever it has left
Admits(e, amt) == Amounts(e) => RLe(amt, RAdd(e.a, Eps)) /\ RGe(amt, RNeg(Eps))

Shift(g, t, d) == LET k == NodeOf(g, t)  v == RAdd(g.nodes[k].bal, d) IN
                  [g EXCEPT !.nodes[k].bal = v, !.nodes[k].hist = Append(@, v)]
Used(g, k, amt) ==
  LET e == g.edges[k]
      h == [g EXCEPT !.edges[k].rem = RSub(@, amt)]
  IN Shift(Shift(h, e.o, Output(e, amt)), e.i, RNeg(amt))
\* the edge has the capacity left, and the node the balance
Covered(g, k, amt) == /\ RGe(RSub(g.edges[k].rem, amt), RNeg(Eps))
                      /\ RGe(RSub(g.nodes[NodeOf(g, g.edges[k].i)].bal, amt), RNeg(Eps))

\* an amount that goes through several edges is split in proportion to what they have left
Split(g, ks, amt) == LET cap == SumAll([j \in DOMAIN ks |-> g.edges[ks[j]].rem]) IN
                     [j \in DOMAIN ks |-> RDiv(RMul(g.edges[ks[j]].rem, amt), cap)]
RECURSIVE UsedAll(_, _, _)
UsedAll(g, ks, amts) == IF ks = <<>> THEN g ELSE UsedAll(Used(g, ks[1], amts[1]), Tail(ks), Tail(amts))
Left(g, ks) == SumAll([j \in DOMAIN ks |-> g.edges[ks[j]].rem])

Reset(g) == [nodes |-> [k \in DOMAIN g.nodes |-> NewNode(g.nodes[k].t)],
             edges |-> [k \in DOMAIN g.edges |-> [g.edges[k] EXCEPT !.rem = IF Amounts(g.edges[k]) THEN g.edges[k].a ELSE None]]]

-----------------------------------------------------------------------------
(* Copies *)
Fresh(g) == [k \in DOMAIN g.nodes |-> NewNode(g.nodes[k].t)]
RECURSIVE SumEdges(_)
SumEdges(s) == IF Len(s) = 1 THEN s[1] ELSE Sum2(SumEdges(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
\* one edge per connected ordered pair of tokens, in the order of the nodes
RECURSIVE Consolidated(_, _, _)
Consolidated(g, i, o) ==
  IF i > Len(g.nodes) THEN <<>>
  ELSE IF o > Len(g.nodes) THEN Consolidated(g, i + 1, 1)
  ELSE LET s == Between(g, g.nodes[i].t, g.nodes[o].t)
           e == SumEdges(s)
       IN (IF i = o \/ s = <<>> THEN <<>> ELSE <<EdgeOf(e.i, e.a, e.o, e.b, s[1].inv, IF Len(s) = 1 THEN s[1].uid ELSE None)>>) \o Consolidated(g, i, o + 1)
Copy(g, consolidate) == [nodes |-> Fresh(g), edges |-> IF consolidate THEN Consolidated(g, 1, 1)
                           ELSE [k \in DOMAIN g.edges |-> EdgeOf(g.edges[k].i, g.edges[k].a, g.edges[k].o, g.edges[k].b, g.edges[k].inv, g.edges[k].uid)]]

-----------------------------------------------------------------------------
(* Cycles and paths *)
Linked(g, i, o) == \E k \in DOMAIN g.edges : g.edges[k].i = i /\ g.edges[k].o = o
Simple(T, n) == {s \in [1 .. n -> T] : \A a, b \in 1 .. n : a # b => s[a] # s[b]}
Closed(g, s) == \A a \in DOMAIN s : Linked(g, s[a], s[(a % Len(s)) + 1])
Rotated(s, k) == [a \in DOMAIN s |-> s[((a + k - 2) % Len(s)) + 1]]
\* every cycle once, starting with its first node in the order of the graph
Cycles(g) ==
  LET ord(t) == NodeOf(g, t) IN
  {s \in UNION {Simple(Tokens(g), n) : n \in 2 .. Cardinality(Tokens(g))} :
     Closed(g, s) /\ \A a \in DOMAIN s : ord(s[1]) <= ord(s[a])}
Canonical(g, s) == CHOOSE r \in {Rotated(s, k) : k \in DOMAIN s} : \A a \in DOMAIN r : NodeOf(g, r[1]) <= NodeOf(g, r[a])

Open(g, s) == \A a \in 1 .. Len(s) - 1 : Linked(g, s[a], s[a + 1])
Paths(g, i, o) == {s \in UNION {Simple(Tokens(g), n) : n \in 1 .. Cardinality(Tokens(g))} : s[1] = i /\ s[Len(s)] = o /\ Open(g, s)}
Shortest(g, i, o) == LET P == Paths(g, i, o) IN {s \in P : \A r \in P : Len(s) <= Len(r)}

\* running a cycle: all edges of a leg are used in proportion, so a leg has a capacity and a rate
Cap(g, i, o) == SumAll(Col(Between(g, i, o), "a"))
Rate(g, i, o) == RDiv(SumAll(Col(Between(g, i, o), "b")), Cap(g, i, o))
Nxt(s, a) == s[(a % Len(s)) + 1]
RECURSIVE Gain(_, _, _)
\* how much arrives at s[a + 1], per unit put in at s[1]
Gain(g, s, a) == IF a = 0 THEN "1" ELSE RMul(Gain(g, s, a - 1), Rate(g, s[a], Nxt(s, a)))
RECURSIVE MostIn(_, _, _)
MostIn(g, s, a) == LET m == RDiv(Cap(g, s[a], Nxt(s, a)), Gain(g, s, a - 1)) IN IF a = 1 THEN m ELSE RMin(m, MostIn(g, s, a - 1))
\* the most that can be put in at s[1] and go all the way round, and what comes out
RunIn(g, s) == MostIn(g, s, Len(s))
RunOut(g, s) == RMul(RunIn(g, s), Gain(g, s, Len(s)))

\* estimate of a price along a path: the mean over the edges of each step
StepPrice(g, i, o) == LET s == Between(g, i, o) IN RDiv(SumAll([k \in DOMAIN s |-> POut(s[k])]), ToString(Len(s)))
RECURSIVE PathPrice(_, _)
PathPrice(g, s) == IF Len(s) <= 1 THEN "1" ELSE RMul(PathPrice(g, SubSeq(s, 1, Len(s) - 1)), StepPrice(g, s[Len(s) - 1], s[Len(s)]))

\* undirected reachability
RECURSIVE Reach(_, _)
Reach(g, S) == LET N == S \cup {g.edges[k].o : k \in {k \in DOMAIN g.edges : g.edges[k].i \in S}}
                            \cup {g.edges[k].i : k \in {k \in DOMAIN g.edges : g.edges[k].o \in S}}
               IN IF N = S THEN S ELSE Reach(g, N)
Connected(g) == Reach(g, {g.nodes[1].t}) = Tokens(g)
=============================================================================
