------------------------------- MODULE MC_Book -------------------------------
(* Exhaustive check of BookCore: the same curve in every description, at every balance; files of up to three orders. *)
EXTENDS BookCore

VARIABLES c, d, book
vars == <<c, d, book>>
D0 == [B |-> None, S |-> None, lo |-> None, hi |-> None, z |-> None, D |-> None, pm |-> None, y |-> None, rev |-> FALSE]
Roots == {"1/2", "1", "4"}  Qs == {"1", "2", "3"}  Caps == {"1", "12", "1/3"}  Parts == {"0", "1/3", "1/2", "1"}
Curves == {[B |-> b, S |-> RSub(RMul(b, RMul(q, q)), b), z |-> z, y |-> RMul(z, f), rev |-> FALSE] : b \in Roots, q \in Qs, z \in Caps, f \in Parts}
ByRoots(k)  == [D0 EXCEPT !.B = k.B, !.S = k.S, !.z = k.z, !.y = k.y]
ByPrices(k, sw) == LET r == [D0 EXCEPT !.lo = RMul(k.B, k.B), !.hi = RMul(Top(k), Top(k)), !.z = k.z, !.y = k.y]
                   IN IF sw THEN [r EXCEPT !.lo = r.hi, !.hi = r.lo] ELSE r
ByMarg(k)   == [ByRoots(k) EXCEPT !.z = None, !.pm = MargP(k)]
ByD(k)      == [ByRoots(k) EXCEPT !.z = None, !.D = k.z]
Ways(k) == {ByRoots(k), ByPrices(k, TRUE), ByPrices(k, FALSE), ByD(k)} \cup (IF Pos(k.y) /\ Pos(k.S) THEN {ByMarg(k)} ELSE {})
           \cup (IF k.y = k.z THEN {[ByRoots(k) EXCEPT !.z = None]} ELSE {})
Rec(k, kind) == IF kind = "csv" THEN [lo |-> RMul(k.B, k.B), hi |-> RMul(Top(k), Top(k)), z |-> k.z] ELSE [B |-> k.B, S |-> k.S, z |-> k.z, y |-> k.y]

Init == c \in Curves /\ d \in Ways(c) /\ book = <<>>
Next == \/ c' = [c EXCEPT !.y = RMul(c.z, "1/2")] /\ d' \in Ways(c') /\ book' = book            \* the balance changes
        \/ Len(book) < 3 /\ book' = Append(book, c) /\ UNCHANGED <<c, d>>
Spec == Init /\ [][Next]_vars

SameCurve == Described(d) /\ CurveOf(d) = c
Shape == /\ REq(Law(c, XofC(c)), KofC(c))
         /\ REq(RDiv(Y0(c), X0(c)), Mean(c))
         /\ REq(RMul(Mean(c), Mean(c)), RMul(PriceLo(c), PriceHi(c)))
         /\ RGe(Conc(c), "0") /\ RLt(Conc(c), "1") /\ (Zero(Conc(c)) = Flat(c))
Position == /\ RGe(XofC(c), "0") /\ (Zero(XofC(c)) = (c.y = c.z))
            /\ XofC(c) = DxFromDy([c EXCEPT !.y = c.z], RSub(c.z, c.y))                          \* the way from full to y, sold
            \* what is still to come, selling everything, adds up to the whole curve
            /\ (Pos(c.y) => REq(RAdd(XofC(c), DrainX(c)), XofC([c EXCEPT !.y = "0"])))
Reversed == LET r == CurveOf([ByRoots(c) EXCEPT !.rev = TRUE])
            IN REq(RMul(PriceLo(r), PriceHi(c)), "1") /\ REq(RMul(PriceHi(r), PriceLo(c)), "1") /\ RLe(PriceLo(r), PriceHi(r))
Files == \A kind \in {"json", "csv"} : \A m \in {0, 1, 2, 5} :
           LET b == BookOf([i \in DOMAIN book |-> Rec(book[i], kind)], kind, m)
           IN /\ Len(b) = IF kind = "json" /\ m > 0 /\ m < Len(book) THEN m ELSE Len(book)
              /\ \A i \in DOMAIN b : b[i] = IF kind = "csv" THEN [book[i] EXCEPT !.y = book[i].z] ELSE book[i]
=============================================================================
