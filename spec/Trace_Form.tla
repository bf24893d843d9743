----------------------------- MODULE Trace_Form -----------------------------
(* Validates recorded histories of controls, and verdicts of the range guard, against FormCore. *)
EXTENDS FormCore, Verdict

VARIABLES tid, l, ctl
tvars == <<tid, l, ctl>>

Tiny == "1/1000000000000"
Near(a, b) == RNear(a, b, Tiny, Tiny)
NearSeq(v, w) == Len(v) = Len(w) /\ \A k \in DOMAIN v : Near(v[k], w[k])

\* the control that e makes
Made(e) ==
  CASE e.kind = "check" -> NewCheck(e.ids, e.descr, e.vals, e.dis, e.objs)
    [] e.kind = "slide" -> NewSlide(e.ids, e.descr, e.vals, e.dis, e.pm, e.range)
    [] OTHER -> IF e.clash THEN NoCtl ELSE NewDrop(e.ids, e.descr, e.byval, IF e.byix = None THEN NoIx ELSE RToInt(e.byix))
\* the control in its slot after e
After1(e) ==
  LET c == ctl[e.slot] IN
  IF e.op = "new" THEN (IF Made(e) = NoCtl THEN NoCtl ELSE [front |-> IF e.kind = "drop" THEN e.front ELSE ""] @@ Made(e))
  ELSE IF e.op # "use" \/ c = NoCtl THEN c
  ELSE CASE c.kind = "check" -> IF e.i <= Len(c.ids) THEN Tick(c, e.i, e.b) ELSE c
         [] c.kind = "slide" -> Slide(c, e.i, RDiv(e.x, "100"))
         [] OTHER -> Choose(c, e.i)
After(e) == [ctl EXCEPT ![e.slot] = After1(e)]

Last(ids, k) == \A j \in DOMAIN ids : j > k => ids[j] # ids[k]
Shows(r, c) ==
  IF c = NoCtl THEN Req(r.kind = "none", "form-accepted")
  ELSE IF r.kind # c.kind THEN {"form-refused"}
  ELSE CASE c.kind = "check" ->
              Req(/\ r.vals = c.vals /\ r.dct = [k \in DOMAIN c.ids |-> <<c.ids[k], c.vals[k]>>]
                  /\ r.on = Checked(c, TRUE) /\ r.off = Checked(c, FALSE), "form-values")
              \cup Req(r.oon = Objects(c, TRUE) /\ r.oon1 = r.oon /\ r.ooff = Objects(c, FALSE), "form-objects")
              \cup Req(r.box = [k \in DOMAIN c.ids |-> <<c.descr[k], c.vals[k], c.dis[k]>>], "form-shown")
         [] c.kind = "slide" ->
              Req(/\ NearSeq(r.vals, c.vals) /\ Len(r.dct) = Len(c.ids)
                  /\ \A k \in DOMAIN c.ids : r.dct[k][1] = c.ids[k] /\ Near(r.dct[k][2], c.vals[k]), "form-values")
              \cup Req(/\ Len(r.range) = Len(c.ids) /\ \A k \in DOMAIN c.ids : Near(r.range[k][1], c.lo[k]) /\ Near(r.range[k][2], c.hi[k]), "form-range")
              \cup Req(/\ r.dis = c.dis /\ Len(r.box) = Len(c.ids)
                       /\ \A k \in DOMAIN c.ids : LET b == r.box[k] IN
                            b[1] = c.descr[k] /\ Near(b[2], RMul("100", c.vals[k])) /\ Near(b[3], RMul("100", c.lo[k])) /\ Near(b[4], RMul("100", c.hi[k])), "form-shown")
         [] OTHER ->
              Req(r.value = c.ids[c.at] /\ r.label = c.descr[c.at] /\ r.result = <<r.value, r.label>>, "form-values")
              \cup Req(r.opts = [k \in DOMAIN c.ids |-> <<c.descr[k], c.ids[k]>>] /\ r.front = c.front, "form-shown")

JudgeForm(e) ==
  UNION {Shows(e.now[k], After(e)[k]) : k \in 1 .. 3}
  \cup (IF e.op = "new" THEN Req(e.ok = (Made(e) # NoCtl), IF e.ok THEN "form-accepted" ELSE "form-refused") ELSE {})
  \cup (IF e.op = "show" THEN Req(e.widget = (IF ctl[e.slot] = NoCtl THEN "none" ELSE IF ctl[e.slot].kind = "drop" THEN "drop" ELSE IF e.how = "no" THEN "hbox" ELSE "vbox"), "form-display") ELSE {})

JudgeNum(e) ==
  LET pl == IF e.pl < 0 THEN 1 ELSE e.pl  rl == IF e.rl < 0 THEN 9 ELSE e.rl
      g == Guard(e.x)  o == Outcome(e.x, e.upper, pl, rl)
      \* the upper warning threshold is only known to the precision of a floating point number
      vague == RNear(e.x, RDiv(Max256, "10000"), "1/1000000000000000", "0")
  IN IF vague THEN {}
     ELSE IF e.via = "log"
     THEN Req(/\ Len(e.log) = 1 /\ e.log[1].level = g.level /\ e.log[1].over = g.over /\ e.log[1].label = e.label, "guard-level")
          \cup Req(Len(e.log) = 1 /\ "[" \o Name(g) \o ":" \o e.upper \o "] " \o e.log[1].msg = Message(e.x, e.upper), "guard-message")
          \cup Req(e.val = Kept(e.x) /\ e.raised = None, "guard-value")
     ELSE Req(e.raised = o.raised, "guard-level") \cup Req(e.val = o.val, "guard-value") \cup Req(Len(e.printed) = Len(o.printed), "guard-level")
          \cup Req(Len(e.printed) # Len(o.printed) \/ e.printed = o.printed, "guard-message")

Judge(e) == IF ~e.wf THEN {"crash"} ELSE IF e.op = "num" THEN JudgeNum(e) ELSE JudgeForm(e)

Init == tid \in DOMAIN Traces /\ l = 0 /\ ctl = [k \in 1 .. 3 |-> NoCtl]
Next == /\ l < Len(Traces[tid].evs)
        /\ l' = l + 1 /\ tid' = tid
        /\ LET e == Traces[tid].evs[l'] IN
           /\ Report(Traces[tid].tid, l', e.op, Judge(e))
           /\ ctl' = IF e.wf /\ e.op \in {"new", "use"} THEN After(e) ELSE ctl
Spec == Init /\ [][Next]_tvars
=============================================================================
