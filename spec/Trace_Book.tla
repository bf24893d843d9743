----------------------------- MODULE Trace_Book -----------------------------
(* Validates recorded orders, books read from files and routes through them against BookCore. *)
EXTENDS BookCore, Verdict

VARIABLES tid, l, slots, book     \* the curves in the slots, and in the book last read
tvars == <<tid, l, slots, book>>

Tiny == "1/1000000000000"
Near(a, b) == RNear(a, b, "1/1000000000", "0")
Close(a, b) == RNear(a, b, "1/10000000", Tiny)
NoOrder == [k |-> "none"]
Cv(c) == [k |-> "order"] @@ c

AfterE(e) ==
  CASE e.op = "order" -> IF e.ok THEN [slots EXCEPT ![e.slot] = IF Described(e.d) THEN Cv(CurveOf(e.d)) ELSE NoOrder] ELSE slots
    [] e.op = "sety" -> IF slots[e.slot] = NoOrder THEN slots ELSE [slots EXCEPT ![e.slot].y = e.y]
    [] OTHER -> slots
Read(e) == IF e.op = "file" THEN (IF e.ok THEN BookOf(e.recs, e.kind, e.limit) ELSE <<>>) ELSE book

\* what an order shows of its curve
Shows(r, c) ==
  IF c = NoOrder THEN Req(r.k = "none", "order-accepted")
  ELSE IF r.k = "none" THEN {"order-refused"}
  ELSE Req(Near(r.B, c.B) /\ RNear(r.S, c.S, "1/1000000000", RMul(Tiny, c.B)) /\ Near(r.lo, PriceLo(c)) /\ Near(r.hi, PriceHi(c)), "order-range")
       \cup Req(Near(r.z, c.z) /\ REq(r.D, r.z) /\ RNear(r.y, c.y, "1/1000000000", RMul(Tiny, c.z)), "order-amounts")
       \cup IF ~r.ok THEN {"order-shape"} ELSE
            Req(/\ RNear(r.n, Conc(c), "1/1000000000", "1/100000000000000") /\ Near(r.p, Mean(c)) /\ Near(r.x0, X0(c)) /\ Near(r.y0, Y0(c)) /\ Near(r.kk, KofC(c))
                /\ Near(r.a, RSub(RMul(KofC(c), RSub(Conc(c), "1")), RMul(RMul(Conc(c), X0(c)), c.y))), "order-shape")
            \* the amount received since it was full (where prices are not reversed), and the curve's law
            \cup Req(c.rev \/ RNear(r.x, XofC(c), "1/10000000", RMul("1/100000000000", XofC([c EXCEPT !.y = "0"]))), "order-position")
            \cup Req(Close(RDiv(Law(c, r.x), KofC(c)), "1"), "order-position")

SameBook(e, b) ==
  IF Len(e.book) # Len(b) THEN {"file-count"}
  ELSE UNION {IF Shows(e.book[k], Cv(b[k])) = {} THEN {} ELSE {"file-order"} : k \in DOMAIN b}
JudgeFile(e) ==
  LET b == Read(e)  hi(k) == PriceHi(b[k])  lo(k) == PriceLo(b[k]) IN
  Req(e.ok, "file-refused") \cup SameBook(e, b)
  \cup (IF ~e.ok \/ ~e.nix THEN {} ELSE IF e.kind = "csv" THEN Req(e.map = <<>>, "file-map")
        ELSE Req(/\ Len(e.map) = Len(b)
                 /\ \A k \in DOMAIN e.map : k \in DOMAIN b => LET r == e.map[k] IN
                      r.i = k - 1 /\ Near(r.pa, hi(k)) /\ Near(r.pa2, hi(k)) /\ Near(r.pb, lo(k)) /\ Near(r.pb2, lo(k)) /\ Near(r.z, b[k].z) /\ Near(r.z2, b[k].z), "file-map"))

(* a route: amounts sold and received by orders of the book, each on its curve, for the amount asked *)
Dust == "1/10000000000"
Sold(e, a) == IF e.who = "alpha" THEN (IF e.t THEN a.out ELSE a.out) ELSE IF e.t THEN a.in ELSE a.out
Paid(e, a) == IF e.who = "alpha" THEN RAbs(a.in) ELSE IF e.t THEN a.out ELSE a.in
RECURSIVE Sum(_, _, _)
Sum(e, f, k) == IF k = 0 THEN "0" ELSE RAdd(RAbs(e.acts[k][f]), Sum(e, f, k - 1))
RECURSIVE Total(_, _, _)
Total(e, k, sold) == IF k = 0 THEN "0" ELSE RAdd(IF sold THEN RAbs(Sold(e, e.acts[k])) ELSE Paid(e, e.acts[k]), Total(e, k - 1, sold))
JudgeRoute(e) ==
  SameBook(e, book)
  \cup (IF book = <<>> THEN {} ELSE
        IF ~e.ok THEN {"route-refused"}
        ELSE Req(RNear(Total(e, Len(e.acts), e.t), e.x, "1/100000000", RMul(Dust, "20")), "route-total")
             \cup UNION {LET a == e.acts[k] IN
                IF a.i \notin DOMAIN book THEN {"route-order"}
                ELSE LET c == book[a.i]  s == RAbs(Sold(e, a)) IN
                     Req(RLe(s, RAdd(RMul(c.y, "1000000001/1000000000"), Dust)), "route-order")
                     \cup Req(RGe(s, c.y) \/ RLt(s, "1/10000000") \/ RLt(Paid(e, a), "1/10000000")
                             \* rounded to 12 decimals
                             \/ RNear(Paid(e, a), DxFromDy(c, s), "1/10000", "1/100000000"), "route-curve") : k \in DOMAIN e.acts}
             \* the totals so far
             \cup Req(\A k \in DOMAIN e.acts : RNear(RAbs(e.acts[k].ti), Sum(e, "in", k), "1/100000000", Dust) /\ RNear(RAbs(e.acts[k].to), Sum(e, "out", k), "1/100000000", Dust), "route-total")
             \cup Req(\A j, k \in DOMAIN e.acts : j # k => e.acts[j].i # e.acts[k].i, "route-order"))

Judge(e) ==
  IF ~e.wf THEN {"crash"}
  ELSE UNION {Shows(e.now[k], AfterE(e)[k]) : k \in 1 .. 3}
       \cup (IF e.op = "order" THEN Req(e.ok = Described(e.d), IF e.ok THEN "order-accepted" ELSE "order-refused") ELSE {})
       \cup (IF e.op = "file" THEN JudgeFile(e) ELSE {})
       \cup (IF e.op = "route" THEN JudgeRoute(e) ELSE {})

Init == tid \in DOMAIN Traces /\ l = 0 /\ slots = [k \in 1 .. 3 |-> NoOrder] /\ book = <<>>
Next == /\ l < Len(Traces[tid].evs)
        /\ l' = l + 1 /\ tid' = tid
        /\ LET e == Traces[tid].evs[l'] IN
           /\ Report(Traces[tid].tid, l', e.op, Judge(e))
           /\ slots' = IF e.wf THEN AfterE(e) ELSE slots
           /\ book' = IF e.wf THEN Read(e) ELSE book
Spec == Init /\ [][Next]_tvars
=============================================================================
