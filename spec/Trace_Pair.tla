----------------------------- MODULE Trace_Pair -----------------------------
(* Validates recorded uses of CarbonPair against PairCore. *)
EXTENDS PairCore, Integers, Verdict

VARIABLES tid, l, p             \* p: the pair in use
tvars == <<tid, l, p>>

Near(a, b) == IF a = None \/ b = None THEN a = b ELSE RNear(a, b, "1/1000000000000000", "0")

\* the decimals a pair should have
Decs(e) ==
  LET d(x, t) == IF x >= 0 THEN x ELSE IF e.usedct /\ t \in DOMAIN e.dct THEN e.dct[t] ELSE -1
  IN IF e.how = "fromslash" THEN <<e.db, e.dq>> ELSE <<d(e.db, e.b.up), d(e.dq, e.q.up)>>

JudgeMake(e) ==
  LET \* which arguments make no sense
      isoOK == CASE e.how = "iso" -> Len(e.tokens) = 2 /\ e.bad # "foreign" [] OTHER -> TRUE
      r == e.r
      d == Decs(e)
      attrs(z) == /\ z.base = e.b.up /\ z.quote = e.q.up
                  /\ z.slash = e.b.up \o "/" \o e.q.up /\ z.iso = e.b.up \o e.q.up
                  /\ z.conv = e.q.up \o " per " \o e.b.up
                  /\ z.tb = e.b.up /\ z.tq = e.q.up
      orig == IF e.copy \in {"ctor", "create"} /\ e.copy # "create" THEN <<e.b.up, e.q.up>>
              ELSE IF e.how \in {"slash", "tokens", "create1", "create2"} THEN <<e.b.as, e.q.as>> ELSE <<e.b.up, e.q.up>>
  IN IF e.refuse THEN Req(~e.ok, "pair-accepted-wrongly")
     ELSE IF ~e.ok THEN {"pair-refused-wrongly"}
     ELSE IF e.ambiguous             \* the split of the name is not unique: any that has the token will do
     THEN Req(r.iso = e.b.up \o e.q.up /\ e.tkn \in {r.base, r.quote} /\ r.base \o r.quote = r.iso, "pair-tokens")
     ELSE Req(attrs(r), "pair-tokens")
          \cup Req(/\ r.db = d[1] /\ r.dq = d[2]
                   /\ r.diff = (IF d[1] >= 0 /\ d[2] >= 0 THEN d[2] - d[1] ELSE -99)
                   /\ r.has = (d[1] >= 0 /\ d[2] >= 0), "pair-decimals")
          \cup Req(r.bo = orig[1] /\ r.qo = orig[2] /\ r.so = orig[1] \o "/" \o orig[2]
                   /\ r.bd = (IF e.disp THEN orig[1] ELSE e.b.up) /\ r.qd = (IF e.disp THEN orig[2] ELSE e.q.up)
                   /\ r.sd = r.bd \o "/" \o r.qd, "pair-display")

Judge(e) ==
  IF ~e.wf THEN {"crash"}
  ELSE CASE e.op = "make" -> JudgeMake(e)
    [] e.op = "convert" -> Req(Near(e.res, Convert(p, e.a, e.t, e.u, e.x)), "convert")
    [] e.op = "price" -> Req(Near(e.res, Normal(p, e.x, e.t, e.u)), "normal-price")
    [] e.op = "convert_price" -> Req(Near(e.res, InConvention(p, IF e.none THEN None ELSE e.x, e.t)), "convert-price")
    [] e.op = "limit" ->
         LET m == LimitMet(p, e.t, e.x, e.side, e.y, e.rev)
         IN IF ~Has(p, e.t) THEN Req(e.res = None, "limit")
            ELSE IF e.phrase THEN Req(e.res = "phrase" /\ e.says = m, "limit-phrase")
            ELSE Req(e.res = IF m THEN "TRUE" ELSE "FALSE", "limit")
    [] e.op = "other" -> Req(/\ e.res = OtherTkn(p, e.t) /\ e.has = Has(p, e.t)
                             /\ e.isb = (e.t = p.base) /\ e.isq = (e.t = p.quote), "tokens")
    [] e.op = "reverse" -> Req(e.base = p.quote /\ e.quote = p.base, "reverse")
    [] e.op = "attrs" -> Req(e.base = p.base /\ e.quote = p.quote, "tokens")
    [] OTHER -> {"unknown-event"}

Init == tid \in DOMAIN Traces /\ l = 0 /\ p = [base |-> "", quote |-> ""]
Next == /\ l < Len(Traces[tid].evs)
        /\ l' = l + 1 /\ tid' = tid
        /\ LET e == Traces[tid].evs[l'] IN
           /\ Report(Traces[tid].tid, l', e.op, Judge(e) \cup (IF e.wf /\ e.op # "make" THEN Req(e.now = p, "pair-changed") ELSE {}))
           /\ p' = IF e.wf /\ e.op = "make" /\ e.ok THEN [base |-> e.r.base, quote |-> e.r.quote] ELSE p
Spec == Init /\ [][Next]_tvars
=============================================================================
