------------------------------ MODULE MC_Graph ------------------------------
(* Exhaustive check of GraphCore: small amount graphs, anyone may transport anything that is covered. *)
EXTENDS GraphCore, Integers

CONSTANTS Toks, Rates, Amts, MaxEdges, MaxMoves
VARIABLES g, moves, net          \* net[t]: what has been put into the balance of t from outside
vars == <<g, moves, net>>

Pairs == {p \in Toks \X Toks : p[1] # p[2]}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<NewNode(x)>> \o SeqOf(S \ {x})
Init == g = [nodes |-> SeqOf(Toks), edges |-> <<>>] /\ moves = -1 /\ net = [t \in Toks |-> "0"]

Offer == /\ moves = -1 /\ Len(g.edges) < MaxEdges
         /\ \E p \in Pairs : \E a \in Amts : \E r \in Rates :
              \* built in one order only: graphs that differ in the order of edges do not differ
              /\ IF g.edges = <<>> THEN TRUE ELSE LET e == g.edges[Len(g.edges)] IN NodeOf(g, e.i) * 10 + NodeOf(g, e.o) <= NodeOf(g, p[1]) * 10 + NodeOf(g, p[2])
              /\ g' = WithEdge(g, EdgeOf(p[1], a, p[2], RMul(a, r), FALSE, None))
         /\ UNCHANGED <<moves, net>>
Fund == /\ moves = -1 /\ g.edges # <<>>
        /\ \E t \in Toks : \E a \in Amts : g' = Shift(g, t, a) /\ net' = [net EXCEPT ![t] = a]
        /\ moves' = 0
Move == /\ moves >= 0 /\ moves < MaxMoves
        /\ \/ \E k \in DOMAIN g.edges : \E a \in Amts : Admits(g.edges[k], a) /\ Covered(g, k, a) /\ g' = Used(g, k, a)
           \/ \E p \in Pairs : \E a \in Amts :
                LET ks == Positions(g, p[1], p[2]) IN
                /\ Len(ks) > 1 /\ Pos(Left(g, ks)) /\ RLe(a, Left(g, ks)) /\ RLe(a, g.nodes[NodeOf(g, p[1])].bal)
                /\ g' = UsedAll(g, ks, Split(g, ks, a))
        /\ moves' = moves + 1 /\ UNCHANGED net
Next == Offer \/ Fund \/ Move
Spec == Init /\ [][Next]_vars

Within == /\ \A k \in DOMAIN g.edges : RGe(g.edges[k].rem, "0") /\ RLe(g.edges[k].rem, g.edges[k].a)
          /\ \A k \in DOMAIN g.nodes : RGe(g.nodes[k].bal, "0")
\* every token is where the edges put it
Conserved == \A k \in DOMAIN g.nodes :
  LET t == g.nodes[k].t  ins == Between(g, None, t)  outs == Between(g, t, None)
      usedIn(e) == RSub(e.a, e.rem) IN
  REq(g.nodes[k].bal, RAdd(net[t], RSub(SumAll([j \in DOMAIN ins |-> Output(ins[j], usedIn(ins[j]))]), SumAll([j \in DOMAIN outs |-> usedIn(outs[j])]))))
\* the splits add up, and are within what is left
Splits == \A p \in Pairs : LET ks == Positions(g, p[1], p[2]) IN
  (ks # <<>> /\ Pos(Left(g, ks))) => \A a \in Amts : RLe(a, Left(g, ks)) =>
     LET s == Split(g, ks, a) IN REq(SumAll(s), a) /\ \A j \in DOMAIN s : RLe(s[j], g.edges[ks[j]].rem)
ResetIsNew == Reset(Reset(g)) = Reset(g) /\ Copy(Reset(g), FALSE) = Copy(g, FALSE)
CopyKeeps == LET c == Copy(g, TRUE) IN
  /\ Copy(c, TRUE) = c
  /\ \A p \in Pairs : Linked(g, p[1], p[2]) = Linked(c, p[1], p[2]) /\ Len(Between(c, p[1], p[2])) <= 1
  /\ \A p \in Pairs : Linked(g, p[1], p[2]) => REq(Cap(g, p[1], p[2]), Cap(c, p[1], p[2])) /\ REq(Rate(g, p[1], p[2]), Rate(c, p[1], p[2]))
  /\ Cycles(c) = Cycles(g)
\* running a cycle goes through: executed step by step from a reset graph it uses up at least one leg, and is the same from everywhere
RECURSIVE Walked(_, _, _, _)
Walked(h, s, a, amt) == IF a > Len(s) THEN [h |-> h, out |-> amt]
  ELSE LET ks == Positions(h, s[a], Nxt(s, a))  sp == Split(h, ks, amt) IN
       Walked(UsedAll(h, ks, sp), s, a + 1, SumAll([j \in DOMAIN ks |-> Output(h.edges[ks[j]], sp[j])]))
RunsThrough == \A c \in Cycles(g) : \A k \in DOMAIN c :
  LET s == Rotated(c, k)  r == Reset(g)  h == Shift(r, s[1], RunIn(g, s))  w == Walked(h, s, 1, RunIn(g, s)) IN
  /\ REq(w.out, RunOut(g, s))
  /\ \A j \in DOMAIN w.h.edges : RGe(w.h.edges[j].rem, "0")
  /\ \A j \in DOMAIN w.h.nodes : RGe(w.h.nodes[j].bal, "0") /\ (w.h.nodes[j].t # s[1] => REq(w.h.nodes[j].bal, "0"))
  /\ \E a \in DOMAIN s : REq(Left(w.h, Positions(g, s[a], Nxt(s, a))), "0")
  /\ RGt(RunOut(g, s), RunIn(g, s)) = RGt(RunOut(g, c), RunIn(g, c))       \* profitable from everywhere, or from nowhere
  /\ Canonical(g, s) = c
PathsFit == \A p \in Pairs : \A s \in Shortest(g, p[1], p[2]) :
  /\ Len(s) >= 2 /\ (Linked(g, p[1], p[2]) => Len(s) = 2)
  /\ Open(g, s) /\ s[Len(s)] \in Reach(g, {s[1]})
=============================================================================
