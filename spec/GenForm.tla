------------------------------ MODULE GenForm -------------------------------
(* Generates histories of controls being made and used, and numbers for the range guard. *)
EXTENDS FormCore, Json, IOUtils

CONSTANT Depth
PROFILE == IOEnv.PROFILE
VARIABLES n, hist, kinds        \* kinds: what is (probably) in the slots, with its length
vars == <<n, hist, kinds>>
One(s) == {s[RandomElement(DOMAIN s)]}
Flip(k) == {RandomElement(1 .. k) = 1}
Pct(k) == RandomElement(1 .. 100) <= k
Push(r) == hist' = Append(hist, r)

Bools(m) == {[k \in 1 .. m |-> Pct(50)]}
Shares == <<"0", "1", "1/2", "1/8", "7/10", "-1", "-3/10", "999/1000", "3/2", "1/3">>
Len1(m, bad) == IF ~bad THEN m ELSE IF m = 0 \/ Pct(50) THEN m + 1 ELSE m - 1


DoCheck(slot) ==
  \E m \in {RandomElement(0 .. 5)} : \E how \in One(<<"list", "tuple", "dict", "idv", "ints">>) :
  \E kv \in One(<<"none", "all", "seq", "seq", "seq", "bad">>), kd \in One(<<"none", "none", "seq", "seq", "bad">>), ko \in One(<<"none", "none", "seq", "seq", "bad">>) :
  \E nv \in {Len1(m, kv = "bad")} : \E nd \in {Len1(m, kd = "bad")} : \E no \in {Len1(m, ko = "bad")} :
  \E v \in Bools(nv) : \E d \in Bools(nd) : \E x \in Flip(2) : \E f \in {RandomElement(1 .. 4)} :
  LET idv == how = "idv" IN
  /\ Push([op |-> "new", kind |-> "check", slot |-> slot, n |-> m, how |-> how, first |-> f, vk |-> IF idv THEN "seq" ELSE kv, x |-> x, v |-> IF idv THEN SubSeq(v \o Same(TRUE, m), 1, m) ELSE v,
           dk |-> kd, d |-> d, ok |-> IF idv THEN "none" ELSE ko, no |-> no])
  /\ kinds' = [kinds EXCEPT ![slot] = [kind |-> "check", n |-> m]]

Ranges == << <<"0", "1">>, <<"-1", "1">>, <<"0", "5">>, <<"1/2", "2">>, <<"-2", "-1/2">>, <<"0", "1/10">> >>
DoSlide(slot) ==
  \E m \in {RandomElement(1 .. 4)} : \E how \in One(<<"list", "tuple", "dict", "ints">>) :
  \E kv \in One(<<"none", "all", "seq", "seq", "seq", "bad">>), kd \in One(<<"none", "none", "seq", "bad">>), kp \in One(<<"none", "none", "none", "all", "all", "seq", "seq", "bad">>),
     kr \in One(<<"none", "none", "none", "none", "all", "seq", "bad">>) :
  \E nv \in {Len1(m, kv = "bad")} : \E nd \in {Len1(m, kd = "bad")} : \E np \in {Len1(m, kp = "bad")} : \E nr \in {IF m = 1 /\ kr = "bad" THEN 2 ELSE Len1(m, kr = "bad")} :
  \E v \in {[k \in 1 .. nv |-> Shares[RandomElement(DOMAIN Shares)]]} : \E d \in Bools(nd) : \E p \in Bools(np) : \E r \in {[k \in 1 .. nr |-> Ranges[RandomElement(DOMAIN Ranges)]]} :
  \E x \in One(Shares) : \E px \in Flip(2) : \E rx \in One(Ranges) : \E f \in {RandomElement(1 .. 4)} : \E both \in Flip(8) :
  LET kr2 == IF kp # "none" /\ ~both THEN "none" ELSE kr
      \* one value for all: at least what every slider can show
      x2 == IF RLt(x, "0") /\ ~(kp \in {"all", "none"}) THEN "1/2" ELSE x
  IN /\ Push([op |-> "new", kind |-> "slide", slot |-> slot, n |-> m, how |-> how, first |-> f, vk |-> kv, x |-> x2, v |-> v, dk |-> kd, d |-> d,
              pk |-> kp, px |-> px, p |-> p, rk |-> kr2, rx |-> rx, r |-> r])
     /\ kinds' = [kinds EXCEPT ![slot] = [kind |-> "slide", n |-> m]]

DoDrop(slot) ==
  \E m \in {RandomElement(1 .. 5)} : \E how \in One(<<"list", "tuple", "dict", "ints">>) : \E lab \in Flip(2) : \E w \in {RandomElement(1 .. 10)} :
  \E i \in {RandomElement(1 .. m)} : \E ix \in One(<<0, 1, 2, 3, 4, 7, -1>>) : \E ds \in Flip(2) : \E f \in {RandomElement(1 .. 4)} :
  /\ Push([op |-> "new", kind |-> "drop", slot |-> slot, n |-> m, how |-> how, first |-> f, lab |-> lab, dv |-> IF w \in {1, 2, 3, 9} THEN i ELSE 0,
           di |-> IF w \in {4, 5, 6, 9} THEN ToString(IF ix >= m /\ w = 4 THEN m - 1 ELSE ix) ELSE None, descr |-> ds])
  /\ kinds' = [kinds EXCEPT ![slot] = [kind |-> "drop", n |-> m]]

DoUse(slot) ==
  \E i \in {RandomElement(1 .. (IF kinds[slot].n = 0 THEN 1 ELSE kinds[slot].n))} : \E b \in Flip(2) :
  \E x \in One(<<"0", "1", "1/2", "1/1000", "333/1000", "-1/4", "2", "-1", "9", "987/1000">>) : \E how \in One(<<"value", "label", "index">>) :
  /\ Push([op |-> "use", slot |-> slot, i |-> i, b |-> b, x |-> x, how |-> how]) /\ kinds' = kinds
DoShow(slot) == \E v \in One(<<"yes", "no", "default", "call">>) : Push([op |-> "show", slot |-> slot, how |-> v]) /\ kinds' = kinds

Controls ==
  \E slot \in {RandomElement(1 .. 3)} : \E k \in {RandomElement(1 .. 12)} : \E w \in One(<<"check", "check", "slide", "slide", "drop">>) :
  IF kinds[slot].kind = "none" \/ k <= 2 THEN (CASE w = "check" -> DoCheck(slot) [] w = "slide" -> DoSlide(slot) [] OTHER -> DoDrop(slot))
  ELSE IF k = 3 THEN DoShow(slot) ELSE DoUse(slot)

Num ==
  \E how \in {RandomElement(1 .. 8)} : \E k \in {RandomElement(0 .. 300)} : \E low \in One(<<"-2", "-1", "0", "1", "2", "12345", "-777", "1048576">>) : \E a \in {RandomElement(0 .. 1000000)} : \E b \in {RandomElement(0 .. 1000000000)} :
  \E pl \in One(<<0, 1, 2, 9, -1>>), rl \in One(<<1, 2, 9, 9, -1, -1>>), lab \in One(<<"", "x", "Amount">>), via \in One(<<"call", "method", "log">>), fl \in Flip(5) :
  LET m == CASE how = 1 -> RAdd(RPow("2", k), low)
             [] how = 2 -> RAdd("100", low) [] how = 3 -> RAdd("10000", low)
             [] how = 4 -> RAdd(RPow("2", 256), low) [] how = 5 -> RFloor(RMul(RDiv(RPow("2", 256), "10000"), RAdd("1", RDiv(low, RPow("2", 44)))))
             [] how = 6 -> RAdd(RMul(ToString(b), RPow("2", k)), low) [] how = 7 -> RSub("50", ToString(a)) [] OTHER -> ToString(b)
  IN /\ Push([op |-> "num", x |-> m, frac |-> fl /\ RLe(RAbs(m), "1000000000000"), pl |-> pl, rl |-> rl, label |-> lab, via |-> via]) /\ kinds' = kinds

Init == n = 0 /\ hist = <<>> /\ kinds = [k \in 1 .. 3 |-> [kind |-> "none", n |-> 0]]
Next == n <= Depth /\ n' = n + 1 /\ (IF PROFILE = "guard" THEN Num ELSE Controls)
Emit == n = Depth + 1 => PrintT("PLAN " \o ToJson([ops |-> hist]))
Spec == Init /\ [][Next]_vars
=============================================================================
