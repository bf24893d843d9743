------------------------------- MODULE MC_Cpc -------------------------------
(* Exhaustive check of CpcCore: two curves of one pair, traded by anyone (to a state) or arbitraged (to a price). *)
EXTENDS CpcCore, Integers

CONSTANTS Ks, Rs, Xs, Deep       \* invariants; square roots of prices; states to trade to
VARIABLES c, c0
vars == <<c, c0>>

Sq(r) == RMul(r, r)
\* all curves with price r^2, between lo^2 and hi^2 ("0": unbounded)
Curves == {[k |-> k, x |-> RDiv(RSqrt(k), r), xa |-> IF hi = "0" THEN RDiv(RSqrt(k), r) ELSE RSub(RDiv(RSqrt(k), r), RDiv(RSqrt(k), hi)),
            ya |-> RMul(RSqrt(k), RSub(r, lo)), tx |-> "A", ty |-> "B"] :
              k \in Ks, r \in Rs, lo \in {"0", "1", "3/2"}, hi \in {"0", "2", "3/2"}}
Proper(z) == RGe(z.xa, "0") /\ RGe(z.ya, "0")
Num == [A |-> -1, B |-> 0]
Ord == [A |-> 1, B |-> 2]

Init == \E a, b \in {z \in Curves : Proper(z)} :
          /\ (Deep \/ a.k = CHOOSE k \in Ks : TRUE)
          /\ c = <<a, Mirror(b)>> /\ c0 = c
\* trades bring a curve to one of the states in Xs, so that there are finitely many
Trade(i) == \E X \in Xs : LET d == RSub(X, c[i].x) IN CanX(c[i], d) /\ c' = [c EXCEPT ![i] = MovedX(@, d)] /\ UNCHANGED c0
Arb(i) == \E r \in Rs : c' = [c EXCEPT ![i] = MovedTo(@, Sq(r))] /\ UNCHANGED c0
Next == \E i \in {1, 2} : Trade(i) \/ Arb(i)
Spec == Init /\ [][Next]_vars

Canon(z) == [z EXCEPT !.k = RCanon(@), !.x = RCanon(@), !.xa = RCanon(@), !.ya = RCanon(@)]

Inside    == \A i \in 1 .. 2 : Proper(c[i])
Conserved == \A i \in 1 .. 2 : c[i].k = c0[i].k /\ REq(XMin(c[i]), XMin(c0[i])) /\ REq(YMin(c[i]), YMin(c0[i]))
Limits    == \A i \in 1 .. 2 : /\ PMax(c[i]) # None => RLe(P(c[i]), PMax(c[i]))
                               /\ PMin(c[i]) # None => RGe(P(c[i]), PMin(c[i]))
Undone    == \A i \in 1 .. 2 : \A X \in Xs : LET d == RSub(X, c[i].x) IN
                CanX(c[i], d) => /\ Canon(MovedX(MovedX(c[i], d), RNeg(d))) = Canon(c[i])
                                 /\ CanX(MovedX(c[i], d), RNeg(d))
                                 /\ LET e == RSub(RDiv(c[i].k, X), Y(c[i])) IN CanY(c[i], e) /\ Canon(MovedY(c[i], e)) = Canon(MovedX(c[i], d))
\* where a curve goes does not depend on the way it takes
OnlyWhere == \A i \in 1 .. 2 : \A p, q \in Rs : Canon(MovedTo(MovedTo(c[i], Sq(p)), Sq(q))) = Canon(MovedTo(c[i], Sq(q)))
Mirrored  == \A i \in 1 .. 2 : LET m == Mirror(c[i]) IN
                /\ Canon(Mirror(m)) = Canon(c[i]) /\ REq(P(m), Inv(P(c[i])))
                /\ \A r \in Rs : LET d == DAtPrice(c[i], Sq(r))  e == DAtPrice(m, Inv(Sq(r))) IN REq(d[1], e[2]) /\ REq(d[2], e[1])
                /\ \A b, q \in {"A", "B"} : b # q => PriceIn(m, b) = PriceIn(c[i], b)
\* the curve loses (who trades wins) by going to a price, and no trade wins more there
BestAtPrice == \A i \in 1 .. 2 : \A r \in Rs : LET d == DAtPrice(c[i], Sq(r))  v == RAdd(RMul(Sq(r), d[1]), d[2]) IN
                /\ RLe(v, "0")
                /\ \A X \in Xs : LET t == RSub(X, c[i].x)  n == MovedX(c[i], t) IN
                      CanX(c[i], t) => RLe(v, RAdd(RMul(Sq(r), t), RSub(Y(n), Y(c[i]))))
\* weak duality: no self financing pair of trades extracts more than the bound at any price; it is met at the clearing price
Duality == \A r \in Rs : LET pr == [t \in {"A", "B"} |-> IF t = "A" THEN Sq(r) ELSE "1"]  bd == Bound(c, pr) IN
              /\ REq(bd, RAdd(RMul(pr["A"], Flow(c, pr, "A")), Flow(c, pr, "B")))
              /\ \A X \in Xs : LET t == RSub(X, c[1].x)  n == MovedX(c[1], t)  u == RNeg(t)      \* A in here, out there
                                   ok == CanX(c[1], t) /\ CanY(c[2], u) IN
                    ok => RLe(bd, RAdd(RSub(Y(n), Y(c[1])), RSub(MovedY(c[2], u).x, c[2].x)))
              /\ REq(Flow(c, pr, "A"), "0") => /\ REq(Flow(c, pr, "B"), bd) /\ RLe(bd, "0")
                                               /\ LET n == [i \in 1 .. 2 |-> MovedTo(c[i], At(c[i], pr))] IN REq(Bound(n, pr), "0")
Quoted == /\ REq(RMul(PriceOf(c, "A", "B", Num, Ord), PriceOf(c, "B", "A", Num, Ord)), "1")
          /\ RLe(RMin(PriceIn(c[1], "A"), PriceIn(c[2], "A")), PriceOf(c, "A", "B", Num, Ord))
          /\ RGe(RMax(PriceIn(c[1], "A"), PriceIn(c[2], "A")), PriceOf(c, "A", "B", Num, Ord))
          /\ LET e == EstimateOf(c, "A", "B") IN
             IF e = None THEN AtBound(c[1]) /\ AtBound(c[2])
             ELSE RLe(RMin(PriceIn(c[1], "A"), PriceIn(c[2], "A")), e) /\ RGe(RMax(PriceIn(c[1], "A"), PriceIn(c[2], "A")), e)
=============================================================================
