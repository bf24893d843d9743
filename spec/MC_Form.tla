------------------------------ MODULE MC_Form -------------------------------
(* Exhaustive check of FormCore: two controls of three items used in all ways; the guard at its thresholds. *)
EXTENDS FormCore

VARIABLES c, d, steps
vars == <<c, d, steps>>
Ids == <<"a", "b", "c">>
Given == {[k |-> "none", x |-> TRUE, v |-> <<>>], [k |-> "all", x |-> TRUE, v |-> <<>>], [k |-> "seq", x |-> TRUE, v |-> <<TRUE, FALSE, TRUE>>], [k |-> "bad", x |-> TRUE, v |-> <<TRUE>>]}
GivenN == {[k |-> "none", x |-> "0", v |-> <<>>], [k |-> "all", x |-> "1/2", v |-> <<>>], [k |-> "all", x |-> "-1/2", v |-> <<>>], [k |-> "seq", x |-> "0", v |-> <<"1/2", "-1/2", "1">>]}
GivenR == {[k |-> "none", x |-> <<"0", "1">>, v |-> <<>>], [k |-> "all", x |-> <<"-2", "-1">>, v |-> <<>>]}
Objs == {[k |-> "none", x |-> "", v |-> <<>>], [k |-> "seq", x |-> "", v |-> <<"p", "q", "r">>]}
Made == {NewCheck(Ids, <<"A", "B", "C">>, v, w, o) : v \in Given, w \in Given, o \in Objs}
        \cup {NewSlide(Ids, Ids, v, w, p, r) : v \in GivenN, w \in Given, p \in Given, r \in GivenR}
        \cup {NewDrop(Ids, <<"A", "B", "C">>, v, i) : v \in {0, 2}, i \in {NoIx}} \cup {NewDrop(Ids, <<"A", "B", "C">>, 0, i) : i \in {-1, 0, 2, 3}}
Init == c \in Made /\ d \in {NewCheck(Ids, Ids, [k |-> "none", x |-> TRUE, v |-> <<>>], [k |-> "none", x |-> TRUE, v |-> <<>>], [k |-> "none", x |-> "", v |-> <<>>])} /\ steps = 0
Use(x) == CASE x.kind = "check" -> {Tick(x, i, b) : i \in 1 .. 3, b \in BOOLEAN}
            [] x.kind = "slide" -> {Slide(x, i, v) : i \in 1 .. 3, v \in {"-3/2", "0", "1/4", "2"}}
            [] x.kind = "drop" -> {Choose(x, i) : i \in 1 .. 3} [] OTHER -> {x}
Next == /\ steps < 3 /\ steps' = steps + 1
        /\ \/ c' \in Use(c) /\ d' = d
           \/ d' \in Use(d) /\ c' = c
Spec == Init /\ [][Next]_vars

Range(s) == {s[k] : k \in DOMAIN s}
CheckOK(x) == x.kind = "check" => /\ Range(Checked(x, TRUE)) \cup Range(Checked(x, FALSE)) = Range(x.ids)
                                  /\ Range(Checked(x, TRUE)) \cap Range(Checked(x, FALSE)) = {}
                                  /\ Len(Checked(x, TRUE)) = Len(Objects(x, TRUE)) /\ Len(Objects(x, TRUE)) + Len(Objects(x, FALSE)) = 3
SlideOK(x) == x.kind = "slide" => \A k \in 1 .. 3 : RLe(x.lo[k], x.vals[k]) /\ RLe(x.vals[k], x.hi[k]) /\ RLt(x.lo[k], x.hi[k])
DropOK(x) == x.kind = "drop" => x.at \in 1 .. 3
ControlsOK == \A x \in {c, d} : CheckOK(x) /\ SlideOK(x) /\ DropOK(x)
\* one item of one control changes, nothing else
OneChange == [][/\ c' = c \/ d' = d
                /\ c'.kind = c.kind
                /\ c.kind \in {"check", "slide"} => /\ [c' EXCEPT !.vals = c.vals] = c
                                                    /\ Cardinality({k \in 1 .. 3 : c'.vals[k] # c.vals[k]}) <= 1]_vars
\* the guard: every number has one level; ok means precise and with room; raising implies an error class
Nums == {"-1", "0", "1", "99", "100", "9999", "10000", "123456"} \cup {RAdd(Max256, x) : x \in {"-1", "0", "1"}} \cup {RAdd(RCeil(RDiv(Max256, "10000")), x) : x \in {"-1", "0", "1"}}
ASSUME GuardOK == \A x \in Nums : LET g == Guard(x) IN
  /\ (g.level = 0) = (RGe(x, "10000") /\ RLt(RMul(x, "10000"), Max256))
  /\ (g.level = 2) = (RLt(x, "100") \/ RGe(x, Max256))
  /\ \A pl \in {0, 1, 2, 9}, rl \in {1, 2, 9} : LET o == Outcome(x, "X", pl, rl) IN
       /\ (o.raised = None) = (o.val # None) /\ (o.raised # None => g.level >= rl)
       /\ (o.val # None => RGe(o.val, "0"))
=============================================================================
