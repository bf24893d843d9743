----------------------------- MODULE Trace_Tool -----------------------------
(* Validates recorded uses of the tools against ToolCore. *)
EXTENDS ToolCore, Verdict

VARIABLES tid, l, s             \* s: the state in use, as the tool at hand has it
tvars == <<tid, l, s>>

Tiny == "1/1000000000000"       \* relative error of a calculation with floats
Near(a, b) == RIsNum(a) /\ RNear(a, b, Tiny, "0")
Within(a, b, rel, abs) == RIsNum(a) /\ RNear(a, b, rel, abs)

(* ----------------------------- packed numbers ---------------------------*)
JudgePack(e) ==
  LET one == Two(e.one)
      n == CASE e.fn = "int" -> e.x [] e.fn = "float" -> Trunc(RMul(e.x, one)) [] OTHER -> "0"
      w == CASE e.fn = "max" -> [sig |-> RSub(RSub(Two(Mantissa), "1"), ToString(e.k)), exp |-> MaxExp]
             [] e.fn = "min" -> [sig |-> ToString(e.k + 1), exp |-> 0]
             [] e.fn = "raw" -> [sig |-> e.x, exp |-> e.k]
             [] OTHER -> Packed(n)
      bad == RLt(n, "0") \/ w.exp < 0
  IN IF bad THEN Req(~e.ok, "pack-accepted")
     ELSE IF w.exp = MaxExp + 1 THEN {}            \* the documentation contradicts itself about this exponent
     ELSE IF w.exp > MaxExp THEN Req(~e.ok, "pack-accepted")
     ELSE IF ~e.ok THEN {"pack-refused"}
     ELSE Req(REq(e.sig, w.sig) /\ e.exp = w.exp, "pack-number")
          \cup Req(/\ REq(e.asint, RMul(e.sig, Two(e.exp))) /\ REq(e.unit, one) /\ Near(e.asfloat, RDiv(e.asint, one)), "pack-value")
          \cup (IF e.fn \in {"int", "float"} THEN Req(RLe(e.asint, n) /\ RLt(RMul(RSub(n, e.asint), Two(Mantissa - 1)), RMax(n, "1")) /\ REq(e.again, e.asint), "pack-accuracy") ELSE {})

(* ----------------------------- shared numbers ---------------------------*)
IntOps == {"shl", "shr", "and", "or", "xor"}
\* the outcome expected of an operation: [w: value or None (refused), any: nothing is demanded of the value]
Outcome(e, vals, ints) ==
  LET two == e.fn \in {"bin2", "inp2"}
      back == e.fn = "bin" /\ e.refl
      u == IF back THEN e.x ELSE vals[e.i]
      v == IF back THEN vals[e.i] ELSE IF two THEN vals[e.j] ELSE e.x
      iu == IF back THEN e.xint ELSE ints[e.i]
      iv == IF back THEN ints[e.i] ELSE IF two THEN ints[e.j] ELSE e.xint
      shift == e.o \in {"shl", "shr"}
      \* (roots of negative numbers, and the like, are beyond this model, as are numbers that are too long)
      any == \/ e.o = "pow" /\ (~RIsInt(v) \/ RGt(RAbs(v), "64"))
             \/ shift /\ iu /\ iv /\ ~IsNat(v) /\ RGe(v, "0")
             \/ e.o \in IntOps /\ iu /\ iv /\ ~shift /\ ~(IsSmall(u) /\ IsSmall(v))
  IN [w |-> IF any THEN None ELSE IF e.o \in IntOps /\ ~(iu /\ iv) THEN None ELSE Binary(e.o, u, v), any |-> any, u |-> u, v |-> v, exact |-> iu /\ iv /\ e.o # "div"]

\* identity classes after putting object `id` (0: a new one) into slot k; a class is named by its first member
Slot(seq, k, x) == IF k > Len(seq) THEN Append(seq, x) ELSE [seq EXCEPT ![k] = x]
Renamed(objs) == [i \in DOMAIN objs |-> CHOOSE j \in 1 .. i : objs[j] = objs[i] /\ \A h \in 1 .. j - 1 : objs[h] # objs[i]]
Same(got, want, exact, tol) == IF exact THEN REq(got, want) ELSE RNear(got, want, Tiny, tol)

JudgeCell(e) ==
  LET vals == s.vals  ints == s.ints  ids == s.ids
      fresh == Len(ids) + 7
      keep == Req(e.vals = vals /\ e.ids = ids, "cell-frame")
      \* w at slot k, in a new object; the rest as it was
      New(k, w, exact, tol) ==
        Req(e.ids = Renamed(Slot(ids, k, fresh)), "cell-identity")
        \cup Req(Len(e.vals) = Len(Slot(ids, k, 0)) /\ \A i \in DOMAIN e.vals : i # k => e.vals[i] = vals[i], "cell-frame")
        \cup Req(Len(e.vals) >= k /\ Same(e.vals[k], w, exact, tol), "cell-value")
      \* the object of variable i has the value w now, whoever looks at it
      Upd(i, w, exact, tol) ==
        Req(e.ids = ids, "cell-identity")
        \cup Req(Len(e.vals) = Len(vals) /\ \A j \in DOMAIN e.vals : ids[j] # ids[i] => e.vals[j] = vals[j], "cell-frame")
        \cup Req(Len(e.vals) = Len(vals) /\ \A j \in DOMAIN e.vals : ids[j] = ids[i] => Same(e.vals[j], w, exact, tol), "cell-value")
  IN CASE e.fn = "new" -> IF e.ok THEN New(e.k, e.x, TRUE, "0") ELSE {"cell-refused"}
       [] e.fn = "alias" -> Req(e.ids = Renamed(Slot(ids, e.k, ids[e.i])), "cell-identity") \cup Req(e.vals = Slot(vals, e.k, vals[e.i]), "cell-frame")
       [] e.fn = "assign" -> Req(e.ids = Renamed([ids EXCEPT ![e.i] = ids[e.j]]), "cell-identity") \cup Req(e.vals = [vals EXCEPT ![e.i] = vals[e.j]], "cell-frame")
       [] e.fn \in {"bin", "bin2", "inp", "inp2"} ->
            LET o == Outcome(e, vals, ints)
                tol == IF e.o \in {"mod", "divmod"} THEN RMul(RAbs(o.v), Tiny) ELSE "0"
            IN IF o.any THEN {}
               ELSE IF o.w = None THEN Req(~e.ok, "cell-accepted") \cup (IF e.ok THEN {} ELSE keep)
               ELSE IF ~e.ok THEN {"cell-refused"}
               ELSE (IF e.fn \in {"bin", "bin2"} THEN New(e.k, o.w, o.exact, tol) ELSE Upd(e.i, o.w, o.exact, tol))
                    \cup (IF e.o = "divmod" THEN Req(Same(e.res, FloorMod(o.u, o.v), o.exact, tol), "cell-value") ELSE {})
       [] e.fn = "set" -> IF e.ok THEN Upd(e.i, e.x, TRUE, "0") ELSE {"cell-refused"}
       [] e.fn = "un" -> IF ~e.ok THEN {"cell-refused"}
                         ELSE IF e.u = "round"
                         THEN LET h == RDiv("1", RMul("2", RPow("10", e.d)))  m == RMul(e.vals[e.k], RPow("10", e.d))
                              IN Req(e.ids = Renamed(Slot(ids, e.k, fresh)), "cell-identity")
                                 \cup Req(RLe(RAbs(RSub(e.vals[e.k], vals[e.i])), RMul(h, "1000000001/1000000000")) /\ RNear(m, RFloor(RAdd(m, "1/2")), Tiny, Tiny), "cell-value")
                         ELSE New(e.k, Unary(e.u, vals[e.i], e.d), TRUE, "0")
       [] e.fn \in {"cmp", "cmp2"} -> (IF ~e.ok THEN {"cell-refused"} ELSE Req(e.says = Compare(e.c, vals[e.i], IF e.fn = "cmp2" THEN vals[e.j] ELSE e.x), "cell-compare")) \cup keep
       [] e.fn = "conv" -> (IF ~e.ok THEN {"cell-refused"} ELSE Req(/\ REq(e.conv[1], Trunc(vals[e.i])) /\ Near(e.conv[2], vals[e.i])
                                                                     /\ Near(e.conv[3], vals[e.i]) /\ Near(e.conv[4], vals[e.i]), "cell-convert")) \cup keep
       [] OTHER -> {"unknown-event"}

(* ----------------------------- parameters -------------------------------*)
JudgeParam(e) ==
  LET objs == s.objs
      o == objs[e.i]
      slot(x) == Slot(objs, e.slot, x)
      made(x) == IF ~e.ok THEN {"param-refused"} ELSE Req(e.now = slot(x), "param-state")
      kept == Req(e.now = objs, "param-frame")
      to(x) == IF ~e.ok THEN {"param-refused"} ELSE Req(e.now = [objs EXCEPT ![e.i] = x], "param-state")
      obj(p, d) == [p |-> p, d |-> d]
      G == IF e.withd THEN e.g ELSE EmptyF
      scale == IF e.k \in DOMAIN s.scale THEN s.scale[e.k] ELSE "0.01"
      read(w) == kept \cup (IF ~e.ok THEN {"param-refused"} ELSE Req(IF w = None THEN e.res = None ELSE RIsNum(e.res) /\ REq(e.res, w), "param-value"))
  IN CASE e.fn = "new" -> made(obj(e.f, EmptyF))
       [] e.fn = "construct" -> made(obj(e.f, G))
       [] e.fn = "copy" ->
            IF e.withd /\ DOMAIN o.d # {} THEN Req(~e.ok, "param-accepted") \cup Req(IF e.slot > Len(objs) THEN e.now = slot(obj(EmptyF, EmptyF)) ELSE e.now = objs, "param-frame")
            ELSE IF ~e.ok /\ e.withd THEN {}         \* (its defaults may have been set, and be empty)
            ELSE made(obj(o.p, Merge(o.d, G)))
       [] e.fn = "add" -> IF Disjoint(o.p, e.f) THEN to([o EXCEPT !.p = Merge(@, e.f)])
                          ELSE Req(~e.ok, "param-accepted")
                               \cup Req(/\ Len(e.now) = Len(objs) /\ \A j \in DOMAIN objs : j # e.i => e.now[j] = objs[j]
                                        /\ e.now[e.i].d = o.d /\ \A k \in DOMAIN o.p : k \in DOMAIN e.now[e.i].p /\ e.now[e.i].p[k] = o.p[k]
                                        /\ \A k \in DOMAIN e.now[e.i].p \ DOMAIN o.p : k \in DOMAIN e.f /\ e.now[e.i].p[k] = e.f[k], "param-frame")
       [] e.fn = "setitem" -> IF e.k \in DOMAIN o.p THEN Req(~e.ok, "param-accepted") \cup kept ELSE to(Put(o, e.k, e.v))
       [] e.fn = "set" -> IF e.k \in DOMAIN o.p /\ ~e.flag THEN Req(~e.ok, "param-accepted") \cup kept ELSE to(Put(o, e.k, e.v))
       [] e.fn = "getitem" -> read(Look(o, e.k))
       [] e.fn = "getattr" -> IF Look(o, e.k) = None THEN Req(~e.ok, "param-accepted") \cup kept ELSE read(Look(o, e.k))
       [] e.fn = "default" -> LET w == Look(obj(EmptyF, o.d), e.k) IN IF w = None /\ e.flag THEN Req(~e.ok, "param-accepted") \cup kept ELSE read(w)
       [] e.fn = "set_default" -> to(Default(o, e.f))
       [] e.fn = "params" -> kept \cup Req(e.ok /\ e.dict = o.p, "param-value")
       [] e.fn = "defaults" -> kept \cup Req(e.ok /\ e.dict = o.d, "param-value")
       [] e.fn = "repr" -> kept \cup Req(e.ok /\ e.dict = o.p /\ e.ddict = o.d, "param-value")
       [] e.fn \in {"scale_new", "scale_add"} -> kept \cup Req(e.ok, "param-refused")
       [] e.fn = "scale" -> kept \cup Req(e.ok /\ RIsNum(e.res) /\ Near(e.res, IF scale = "0.01" THEN "1/100" ELSE scale), "scale")
       [] e.fn = "scale1" -> kept \cup Req(e.ok /\ RIsNum(e.res) /\ REq(e.res, "1"), "scale")
       [] OTHER -> {"unknown-event"}
ScaleAfter(e) == IF ~e.ok THEN s.scale
                 ELSE IF e.fn = "scale_new" THEN e.f ELSE IF e.fn = "scale_add" THEN Merge(s.scale, e.k :> e.v) ELSE s.scale

(* ----------------------------- Uniswap positions ------------------------*)
JudgeUni(e) ==
  IF TickSize(e.fee) = 0 THEN Req(~e.ok, "uni-accepted")
  ELSE IF ~e.ok THEN {"uni-refused"}
  ELSE
  LET T == "1/1000000000"
      P == PriceOf(e)  A == PLo(e)  B == PHi(e)  L == Liq(e)
      e1 == RMul(RMul(L, RSqrt(P)), T)  e0 == RMul(RDiv(L, RSqrt(P)), T)
      R0 == Res0(e)  R1 == Res1(e)
      inside == RLt(RMul(A, "1000000001/1000000000"), P) /\ RLt(RMul(P, "1000000001/1000000000"), B)
      outside == RGt(A, RMul(P, "1000000001/1000000000")) \/ RGt(P, RMul(B, "1000000001/1000000000"))
  IN Req(e.pair = e.names[1] \o "/" \o e.names[2] /\ e.toks[1] = e.names[1] /\ e.toks[2] = e.names[2] /\ e.toks[3] = e.names[1] /\ e.toks[4] = e.names[2]
         /\ e.toks[5] = e.names[1] /\ e.toks[6] = e.names[2] /\ e.conv = e.pair \o " [" \o e.names[2] \o " per " \o e.names[1] \o "]", "uni-names")
     \cup Req(Within(e.p, P, T, "0") /\ Within(e.q, RDiv("1", P), T, "0") /\ Within(e.sp, e.sp96, T, "0"), "uni-price")
     \cup Req(/\ e.ticks = <<TickLo(e), TickHi(e)>> /\ Within(e.pa, A, T, "0") /\ Within(e.pb, B, T, "0")
              /\ Within(e.qa, RDiv("1", A), T, "0") /\ Within(e.qb, RDiv("1", B), T, "0")
              /\ Within(e.raw[1], TickPrice(TickLo(e)), T, "0") /\ Within(e.raw[2], TickPrice(TickHi(e)), T, "0"), "uni-range")
     \cup Req(Within(e.L, L, T, "0") /\ \A i \in 1 .. 3 : Within(e.L2[i], RMul(L, L), T, "0") /\ Within(e.f, RDiv(ToString(e.fee), "1000000"), T, "0"), "uni-liquidity")
     \cup Req(Within(e.r0, R0, T, e0) /\ Within(e.r1, R1, T, e1), "uni-reserves")
     \cup Req(Within(e.t1, RAdd(R1, RMul(R0, P)), T, RMul("3", e1)) /\ Within(e.t0, RAdd(R0, RDiv(R1, P)), T, RMul("3", e0)), "uni-value")
     \cup (IF inside /\ ~e.cpc.ok THEN {"uni-curve-refused"} ELSE IF outside THEN Req(~e.cpc.ok, "uni-curve-accepted")
           ELSE IF ~e.cpc.ok THEN {}
           ELSE Req(/\ e.cpc.pair = e.pair /\ Within(e.cpc.p, P, T, "0") /\ Within(e.cpc.k, RMul(L, L), T, "0") /\ Within(e.cpc.fee, RDiv(ToString(e.fee), "1000000"), T, "0")
                    /\ Within(e.cpc.xa, R0, T, RMul("3", e0)) /\ Within(e.cpc.ya, R1, T, RMul("3", e1))
                    /\ Within(e.cpc.lo, A, T, "0") /\ Within(e.cpc.hi, B, T, "0"), "uni-curve"))

(* ----------------------------- pairs and versions -----------------------*)
JudgeName(e) ==
  CASE e.fn = "pair" ->
         LET bad == e.how \in {"three", "one", "int"}
             bq == e.b.full \o "/" \o e.q.full  qb == e.q.full \o "/" \o e.b.full
             pr == IsPrimary(e.b, e.q)
             pp == IF REq(e.p, "0") THEN None ELSE IF pr THEN e.p ELSE RDiv("1", e.p)
         IN IF bad THEN Req(~e.ok, "name-accepted") ELSE IF ~e.ok THEN {"name-refused"}
            ELSE Req(/\ e.toks = <<e.b.full, e.q.full, e.b.full, e.q.full>> /\ e.norm = <<e.b.norm, e.q.norm, e.b.norm, e.q.norm>>
                     /\ e.names = <<bq, bq, qb>> /\ e.tup[1] = <<e.b.full, e.q.full>> /\ e.tup[2] = <<e.q.full, e.b.full>> /\ e.same, "name-tokens")
                 \cup (IF e.b.full = e.q.full THEN {}
                       ELSE Req(e.prim = pr /\ e.primary = (IF pr THEN bq ELSE qb) /\ e.secondary = (IF pr THEN qb ELSE bq), "name-primary")
                            \cup Req(\A i \in 1 .. 2 : IF pp = None THEN e.pp[i] = None ELSE RIsNum(e.pp[i]) /\ Near(e.pp[i], pp), "name-price"))
    [] e.fn = "wrap" -> IF ~e.ok THEN {"name-refused"}
                        ELSE LET want == << <<e.b.full, e.q.full>>, <<e.q.full, e.r.full>>, <<e.r.full, e.b.full>> >>
                             IN Req(e.toks = want /\ e.back = [i \in 1 .. 3 |-> want[i][1] \o "/" \o want[i][2]], "name-wrap")
    [] OTHER -> IF ~e.ok THEN {"name-refused"}
                ELSE Req(e.says = AtLeast(e.ver, e.req), "version") \cup Req(e.parts = <<e.ver, e.req>>, "version-parts")

(* ----------------------------- files ------------------------------------*)
StemRank(x) == CASE x = "Zed" -> 1 [] x = "a" -> 2 [] x = "b" -> 3 [] OTHER -> 4
ExtRank(x)  == CASE x = "" -> 1 [] x = ".JSON" -> 2 [] x = ".gz" -> 3 [] x = ".json" -> 4 [] OTHER -> 5
Lower(x) == IF x = ".JSON" THEN ".json" ELSE x
RECURSIVE Ordered(_)
Ordered(F) == IF F = {} THEN <<>>
              ELSE LET m == CHOOSE m \in F : \A f \in F : StemRank(m[1]) < StemRank(f[1]) \/ (m[1] = f[1] /\ ExtRank(m[2]) <= ExtRank(f[2]))
                   IN <<m>> \o Ordered(F \ {m})
JudgeFile(e) ==
  LET nm == <<e.st, e.ex>>
      F == DOMAIN s.files
  IN CASE e.fn = "save" -> Req(e.ok, "file-refused")
       [] e.fn = "load" -> IF nm \notin F THEN Req(~e.ok, "file-from-nowhere")
                           ELSE IF ~e.ok THEN {"file-lost"}
                           ELSE IF s.files[nm][1] # e.mode THEN {} ELSE Req(e.got = s.files[nm][2], "file-content")
       [] OTHER -> Req(e.names = (IF e.all THEN LET o == Ordered(F) IN [i \in DOMAIN o |-> o[i][1] \o o[i][2]]
                                  ELSE LET o == Ordered({f \in F : Lower(f[2]) = Lower(e.ex)}) IN [i \in DOMAIN o |-> o[i][1]]), "file-list")

Judge(e) ==
  IF ~e.wf THEN {"crash"}
  ELSE CASE e.op = "pack" -> JudgePack(e) [] e.op = "cell" -> JudgeCell(e) [] e.op = "param" -> JudgeParam(e)
         [] e.op = "uni" -> JudgeUni(e) [] e.op = "name" -> JudgeName(e) [] e.op = "file" -> JudgeFile(e) [] OTHER -> {"unknown-event"}

After(e) ==
  IF ~e.wf THEN s
  ELSE CASE e.op = "cell" -> [s EXCEPT !.vals = e.vals, !.ints = e.ints, !.ids = e.ids]
         [] e.op = "param" -> [s EXCEPT !.objs = e.now, !.scale = ScaleAfter(e)]
         [] e.op = "file" -> IF e.fn = "save" /\ e.ok THEN [s EXCEPT !.files = Merge(@, <<e.st, e.ex>> :> <<e.mode, e.c>>)] ELSE s
         [] OTHER -> s

Init == tid \in DOMAIN Traces /\ l = 0
        /\ s = [vals |-> <<>>, ints |-> <<>>, ids |-> <<>>, objs |-> <<>>, scale |-> EmptyF, files |-> EmptyF]
Next == /\ l < Len(Traces[tid].evs)
        /\ l' = l + 1 /\ tid' = tid
        /\ LET e == Traces[tid].evs[l'] IN Report(Traces[tid].tid, l', e.op, Judge(e)) /\ s' = After(e)
Spec == Init /\ [][Next]_tvars
=============================================================================
