------------------------------- MODULE GenBook -------------------------------
(* Generates descriptions of orders, and files of them which are read and routed through. *)
EXTENDS BookCore, Json, IOUtils

CONSTANT Depth
PROFILE == IOEnv.PROFILE
VARIABLES n, hist, have        \* have: a book has been read
vars == <<n, hist, have>>
One(s) == {s[RandomElement(DOMAIN s)]}
Flip(k) == {RandomElement(1 .. k) = 1}
Push(r) == hist' = Append(hist, r)

Roots == <<"1/2", "1", "4", "3/2", "1/1024", "39/16", "45", "1/3", "7/5", "1000", "17/128", "1/100000">>
Widths == <<"0", "1/16", "1/2", "1", "3", "1/100", "8", "1/5", "1/1000000", "99">>
Caps == <<"1", "10", "20", "1/8", "1234567", "1/1000", "7/3", "500", "1000000000">>
Parts == <<"0", "1", "1", "1/2", "1/4", "9/10", "1/1000", "999/1000", "1/3">>
Encs == <<"num", "num", "dec", "dec", "str", "int">>

Describe ==
  \E slot \in {RandomElement(1 .. 3)} : \E b \in One(Roots), w \in One(Widths), z \in One(Caps), f \in One(Parts), how \in One(<<"roots", "roots", "prices", "prices", "marg", "D", "zfree", "noY", "noRange", "half">>) :
  \E sw \in Flip(2) : \E rev \in Flip(4) : \E pr \in Flip(2) : \E both \in Flip(8) : \E e \in One(Encs) :
  LET s == RMul(b, w)  y == RMul(z, f)
      m == RAdd(b, RMul(s, f))
      base == [B |-> b, S |-> s, lo |-> None, hi |-> None, z |-> z, D |-> None, pm |-> None, y |-> y, rev |-> rev]
      asP == [base EXCEPT !.B = None, !.S = None, !.lo = IF sw THEN RMul(RAdd(b, s), RAdd(b, s)) ELSE RMul(b, b), !.hi = IF sw THEN RMul(b, b) ELSE RMul(RAdd(b, s), RAdd(b, s))]
      x == IF both THEN [asP EXCEPT !.B = b, !.S = s] ELSE IF pr THEN asP ELSE base
      marg == how = "marg" /\ Pos(s) /\ Pos(y)
  IN /\ Push([op |-> "order", slot |-> slot, enc |-> e,
              d |-> CASE marg -> [x EXCEPT !.z = None, !.pm = RMul(m, m), !.rev = FALSE]
                      [] how = "D" -> [x EXCEPT !.z = None, !.D = z]
                      [] how = "zfree" -> IF Pos(y) THEN [x EXCEPT !.z = None] ELSE x
                      [] how = "noY" -> [x EXCEPT !.y = None]
                      [] how = "noRange" -> [x EXCEPT !.B = None, !.S = None, !.lo = None, !.hi = None]
                      [] how = "half" -> IF sw THEN [x EXCEPT !.B = None, !.hi = None] ELSE [x EXCEPT !.S = None, !.lo = None]
                      [] how = "prices" -> asP [] how = "roots" -> base [] OTHER -> x])
     /\ have' = have
Change == \E slot \in {RandomElement(1 .. 3)}, f \in One(Parts) : Push([op |-> "sety", slot |-> slot, f |-> f]) /\ have' = have

Recs(m) == {[k \in 1 .. m |-> LET i == RandomElement(DOMAIN Roots) IN [i |-> i, w |-> RandomElement(2 .. Len(Widths)), z |-> RandomElement(DOMAIN Caps), f |-> RandomElement(2 .. Len(Parts)), sw |-> RandomElement(1 .. 2) = 1, y |-> RandomElement(1 .. 5) > 1]]}
Put(r, kind) == LET b == Roots[r.i]  s == RMul(b, Widths[r.w])  z == Caps[r.z]  y == RMul(z, Parts[r.f])  l == RMul(b, b)  h == RMul(RAdd(b, s), RAdd(b, s))
                IN IF kind = "csv" THEN [lo |-> IF r.sw THEN h ELSE l, hi |-> IF r.sw THEN l ELSE h, z |-> z]
                   ELSE [B |-> b, S |-> s, z |-> IF r.y THEN z ELSE None, y |-> y]
File ==
  \E m \in One(<<1, 2, 3, 4, 5, 6, 9, 10, 11, 13>>) : \E rs \in Recs(m) : \E kind \in One(<<"json", "json", "csv">>), top \in One(<<"list", "list", "dict">>), lim \in One(<<0, 0, 0, 1, 2, 5, 12>>), e \in One(<<"num", "str", "int", "str">>) :
  \E nix \in Flip(2) : \E junk \in Flip(2) : \E who \in One(<<"alpha", "fast">>) :
  /\ Push([op |-> "file", kind |-> kind, top |-> top, limit |-> IF kind = "csv" THEN 0 ELSE lim, enc |-> e, nix |-> nix, junk |-> junk, who |-> who, recs |-> [k \in DOMAIN rs |-> Put(rs[k], kind)]])
  /\ have' = TRUE
Route ==
  \E who \in One(<<"alpha", "alpha", "fast">>) : \E t \in Flip(2) : \E thr \in Flip(2) : \E f \in One(<<"1/2", "1/10", "1/100", "9/10", "99/100", "1/3">>) :
  /\ Push([op |-> "route", who |-> who, t |-> t, thr |-> thr, f |-> f]) /\ have' = have

Init == n = 0 /\ hist = <<>> /\ have = FALSE
Next == n <= Depth /\ n' = n + 1
        /\ (IF PROFILE = "orders" THEN (\E k \in {RandomElement(1 .. 3)} : IF k = 3 THEN Change ELSE Describe)
            ELSE (\E k \in {RandomElement(1 .. 3)} : IF k = 1 \/ ~have THEN File ELSE Route))
Emit == n = Depth + 1 => PrintT("PLAN " \o ToJson([ops |-> hist]))
Spec == Init /\ [][Next]_vars
=============================================================================
