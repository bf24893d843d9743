----------------------------- MODULE Trace_Cc ------------------------------
(* Validates recorded histories of the market data client against CcCore. *)
EXTENDS CcCore, Verdict

VARIABLES tid, l, cache, dead
tvars == <<tid, l, cache, dead>>

Q(x) == IF x = None THEN None ELSE "'" \o x \o "'"
\* requests as recorded: parameters as a set
Reqs(e) == [k \in DOMAIN e.reqs |-> [url |-> e.reqs[k].url, params |-> {<<e.reqs[k].params[j][1], e.reqs[k].params[j][2]>> : j \in DOMAIN e.reqs[k].params}]]
File(i) == "query_" \o i \o ".pickle"
Recorded(e) == [f \in {e.cache[k][1] : k \in DOMAIN e.cache} |-> e.cache[CHOOSE k \in DOMAIN e.cache : e.cache[k][1] = f][2]]
OutOK(e, r) == e.out.res = r.res /\ (r.res = "value" => e.out.val = r.val)

JudgeGet(e) ==
  LET g == Get(e.roe, cache, e.srv, e.disk, File(e.item), e.v, e.rof, e.uof) IN
  Req(Len(e.reqs) = g.n, IF g.n = 0 THEN "cc-cache-asks" ELSE "cc-cache-silent")
  \cup Req(g.n = 0 \/ Len(e.reqs) # 1 \/ Reqs(e) = <<Request(e.key, Endpoint(e.item), {})>>, "cc-request")
  \cup Req(OutOK(e, g.r), "cc-cache-result")
  \cup Req(Recorded(e) = g.cache, "cc-cache-content")

JudgeRaw(e) ==
  LET f == e.item \o ".pickle" IN
  Req(e.reqs = <<>>, "cc-cache-asks") \cup
  (IF e.op = "read"
   THEN Req(OutOK(e, IF ~e.disk \/ Lookup(cache, f) = Absent THEN Failed(e.roe) ELSE Value(Lookup(cache, f))), "cc-cache-result")
        \cup Req(Recorded(e) = cache, "cc-cache-content")
   ELSE Req(OutOK(e, IF e.disk THEN Value(e.item) ELSE Failed(e.roe)), "cc-cache-result")
        \cup Req(Recorded(e) = IF e.disk THEN Store(cache, f, e.v) ELSE cache, "cc-cache-content"))

JudgeQuery(e) ==
  Req(Reqs(e) = <<Request(e.key, Endpoint(e.item), {})>>, "cc-request")
  \cup Req(OutOK(e, Ask(e.roe, e.srv, e.v)), "cc-query-result") \cup Req(Recorded(e) = cache, "cc-cache-content")

JudgeCall(e) ==
  IF e.method \in {"POST", "PUT"} THEN Req(e.out.res = "raised" /\ e.reqs = <<>>, "cc-request")
  ELSE Req(Reqs(e) = <<Request(e.key, e.endpoint, {<<e.ps[k][1], e.ps[k][2]>> : k \in DOMAIN e.ps})>>, "cc-request")
       \cup Req(OutOK(e, Ask(e.roe, e.srv, e.v)), "cc-query-result")

JudgeTs(e) == Req(e.got = e.t /\ e.sec = Epoch(e.t), "cc-timestamp")

HistUrl(f) == "/data/v2/histo" \o f
HistParams(fs, ts, x, lim, to) ==
  {<<"fsym", Q(fs)>>, <<"tsym", IF ts = None THEN "'usd'" ELSE Q(ts)>>, <<"e", Q(x)>>,
   <<"limit", IF lim = "False" THEN "2000" ELSE lim>>, <<"toTs", to>>}

\* a table: the columns, by name, of what was served, at its times
Cell(rows, c) == [k \in DOMAIN rows |-> rows[k][c]]
TimesOf(rows) == [k \in DOMAIN rows |-> rows[k].time]
ColSet(t) == {<<t.cols[k].c, t.cols[k].v>> : k \in DOMAIN t.cols}
IsTable(t, idx, cols) == t.idx = idx /\ Len(t.cols) = Cardinality(cols) /\ ColSet(t) = cols
Served(t, rows) == t.idx = TimesOf(rows) /\ t.cols = [k \in DOMAIN Columns |-> [c |-> <<Columns[k]>>, v |-> Cell(rows, Columns[k])]]

JudgeFreq(e) ==
  IF e.freq \notin {"day", "hour", "minute"} THEN Req(e.out.res = "raised" /\ e.reqs = <<>>, "cc-request")
  ELSE LET to == IF e.tk = "none" THEN None ELSE ToString(Epoch(e.t)) IN
       Req(Reqs(e) = <<Request(e.key, HistUrl(e.freq), HistParams(e.fsym, e.tsym, e.e, e.limit, to))>>, "cc-request")
       \cup Req(IF e.srv # "ok" THEN OutOK(e, Failed(e.roe)) ELSE e.out.res = "value" /\ Len(e.served) = 1 /\ Served(e.out.val, e.served[1]), "cc-history")

JudgeAggr(e) ==
  LET P == e.pairs
      nm(p) == p[1] \o "/" \o p[2]
      f == IF e.freq = None THEN "day" ELSE e.freq
      lim == IF e.limit = None THEN "2000" ELSE e.limit
      q(p) == Request(e.key, HistUrl(f), HistParams(p[1], p[2], e.e, lim, None))
      D == DOMAIN P
  IN IF e.srv # "ok" THEN Req(e.out.res = "raised", "cc-tables")
     ELSE IF e.out.res # "value" \/ Len(e.served) # Len(P) THEN {"cc-tables"}
     ELSE LET v == e.out.val  S == e.served  idx == TimesOf(S[1])
              Name(fd, k) == IF e.gaggr THEN <<fd, nm(P[k])>> ELSE <<nm(P[k])>>
          IN Req(Reqs(e) = [k \in D |-> q(P[k])], "cc-request")
             \cup Req(v.has = <<e.raw, e.rawaggr, e.gaggr>>, "cc-tables")
             \cup Req(IF e.raw THEN Len(v.raw) = Len(P) /\ \A k \in D : v.raw[k].p = nm(P[k]) /\ Served(v.raw[k].t, S[k]) ELSE v.raw = <<>>, "cc-tables")
             \cup Req(e.rawaggr => IsTable(v.rawaggr, idx, {<<<<nm(P[k]), Columns[c]>>, Cell(S[k], Columns[c])>> : k \in D, c \in DOMAIN Columns}), "cc-tables")
             \cup Req({v.aggr[k].f : k \in DOMAIN v.aggr} = {e.fields[k] : k \in DOMAIN e.fields} /\ Len(v.aggr) = Len(e.fields), "cc-tables")
             \cup Req(\A j \in DOMAIN v.aggr : LET fd == v.aggr[j].f IN
                        IsTable(v.aggr[j].t, idx, {<<Name(fd, k), Cell(S[k], fd)>> : k \in D}), "cc-tables")
             \cup Req(e.gaggr => IsTable(v.gaggr, idx, {<<<<e.fields[j], nm(P[k])>>, Cell(S[k], e.fields[j])>> : j \in DOMAIN e.fields, k \in D}), "cc-tables")

JudgePairs(e) ==
  LET w == Combos(e.coins, IF e.noq THEN e.coins ELSE e.quotes) IN
  Req(e.got = w, "cc-pairs")
  \cup Req(e.names = [k \in DOMAIN e.got |-> e.got[k][1] \o "/" \o e.got[k][2]] /\ e.back = e.got /\ e.listpt = e.got /\ e.joined = e.coins /\ e.listed = e.coins, "cc-names")

Judge(e) ==
  CASE e.op = "get" -> JudgeGet(e)
    [] e.op = "query" -> JudgeQuery(e)
    [] e.op \in {"read", "write"} -> JudgeRaw(e)
    [] e.op = "call" -> JudgeCall(e)
    [] e.op = "ts" -> JudgeTs(e)
    [] e.op = "freq" -> JudgeFreq(e)
    [] e.op = "aggr" -> JudgeAggr(e)
    [] e.op = "pairs" -> JudgePairs(e)
    [] OTHER -> {}

Init == /\ tid \in DOMAIN Traces /\ l = 0 /\ cache = <<>> /\ dead = FALSE
Next ==
  LET e == Traces[tid].evs[l + 1] IN
  /\ l < Len(Traces[tid].evs)
  /\ l' = l + 1 /\ tid' = tid
  /\ IF dead THEN UNCHANGED <<cache, dead>>
     ELSE IF ~e.wf THEN /\ Report(Traces[tid].tid, l + 1, e.op, {"crash"}) /\ dead' = TRUE /\ UNCHANGED cache
     ELSE /\ Report(Traces[tid].tid, l + 1, e.op, Judge(e))
          /\ cache' = Recorded(e) /\ dead' = dead
Spec == Init /\ [][Next]_tvars
=============================================================================
