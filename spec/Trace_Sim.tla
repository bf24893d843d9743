----------------------------- MODULE Trace_Sim -----------------------------
(***************************************************************************)
(* Validates recorded behaviours of CarbonSimulatorUI against SimCore.     *)
(*                                                                         *)
(* Every event carries the call, its result, and the state the simulator   *)
(* reports after it (state(): the order table and the trade log).  The     *)
(* state of the specification is re-anchored on the recorded balances      *)
(* after every event; curve parameters come from the creation arguments.   *)
(***************************************************************************)
EXTENDS SimCore, Verdict

VARIABLES tid, l, book, rows, log, numtr, quote, flow, dead,
          used                      \* all ids ever given out
tvars == <<tid, l, book, rows, log, numtr, quote, flow, dead, used>>

REL == "1/1000000000"                \* 1e-9
EPS == "1/500000000000"              \* 2e-12: routes are reported with 12 decimals

Close(a, b) == RNear(a, b, REL, EPS)
\* the same number up to the rounding of floats, for sums of terms up to scale
Sum(a, b, scale) == RLe(RAbs(RSub(a, b)), RAdd(RMul("1/1000000000000", scale), "1/1000000000000000"))
Same(a, b) == RNear(a, b, "1/100000000000000", "0")
SameOrNone(a, b) == IF a = None \/ b = None THEN a = b ELSE RNear(a, b, "1/1000000000000", "0")

Ids(rs) == {rs[k].id : k \in DOMAIN rs}
Row(rs, i) == rs[CHOOSE k \in DOMAIN rs : rs[k].id = i]
AsFun(rs) == [i \in Ids(rs) |-> Row(rs, i)]

ANY == "1"                           \* flow price helper
-----------------------------------------------------------------------------
(* The order table *)

Static == {"pair", "tkn", "y_unit", "disabled", "p_start", "p_end", "p_unit", "lid", "cid"}

\* row r of the table shows order o
Shows(r, o) ==
  /\ r.pair = o.base \o o.quote
  /\ r.tkn = o.tkn /\ r.y_unit = o.tkn
  /\ r.disabled = o.dis
  /\ SameOrNone(r.p_start, o.ps) /\ SameOrNone(r.p_end, o.pe)
  /\ r.p_unit = o.quote \o " per " \o o.base
  /\ r.lid = o.lid /\ r.cid = o.cid

\* the reported marginal price belongs to the reported balance
MargOK(r, o) ==
  (~o.dis /\ Pos(r.y_int)) =>
     IF RLt(r.y, "0") THEN r.p_marg = None \/ RNear(r.p_marg, r.p_end, REL, "0")     \* a rounding error below zero
     ELSE RNear(r.p_marg, RawPrice(o.base, o.quote, o.tkn, MargP([o EXCEPT !.y = r.y, !.z = r.y_int])), REL, "0")

Anchor(o, r) == [o EXCEPT !.y = r.y, !.z = r.y_int]

TableOK(st) == /\ Cardinality(Ids(st.orders)) = Len(st.orders)
               /\ st.numpos = Len(st.orders)

BoundedRow(r) == /\ RGe(r.y, RNeg(RAdd("1/500000000000", RMul("1/1000000000000", r.y_int))))
                 /\ RLe(r.y, RMul(r.y_int, "1000000000001/1000000000000"))

-----------------------------------------------------------------------------
(* Events *)

Dflt(e) == Traces[tid].dpair
Pair(p) == IF p.base = None THEN Dflt(0) ELSE p

\* arguments of a trading call -> trade record of SimCore
NormTrade(e) ==
  LET p     == Pair(e.pair)
      sells == e.f \in {"amm_sells", "trader_buys"}
      neg   == RLt(e.amt, "0")
      byT   == sells # neg
  IN [base |-> p.base, quote |-> p.quote, byT |-> byT, amt |-> RAbs(e.amt),
      out |-> IF byT THEN e.tkn ELSE Other(p.base, p.quote, e.tkn),
      known |-> p.base # None /\ e.tkn \in {p.base, p.quote},
      useall |-> e.useall, use |-> {e.use[k] : k \in DOMAIN e.use},
      partial |-> e.partial, method |-> Traces[tid].mm, thr |-> e.thr,
      limit |-> e.limit, limamt |-> e.limamt, execute |-> e.execute, inpair |-> e.inpair]

NormAdd(e) == LET p == Pair(e.pair) IN [base |-> p.base, quote |-> p.quote] @@ e.a

-----------------------------------------------------------------------------
(* Judging a trade *)

RECURSIVE TopSum(_, _)                       \* sum of the k largest values of a function
TopSum(f, k) == IF k <= 0 \/ DOMAIN f = {} THEN "0"
                ELSE LET m == CHOOSE i \in DOMAIN f : \A j \in DOMAIN f : RGe(f[i], f[j])
                     IN RAdd(f[m], TopSum([i \in DOMAIN f \ {m} |-> f[i]], k - 1))

Dust(a) == RLe(a, "1/50000000000")           \* 2e-11

JudgeTrade(e) ==
  LET t    == NormTrade(e.arg)
      E    == IF t.known THEN Eligible(book, t) ELSE {}
      C    == Curves(book, E)
      n    == Cardinality(E)
      cap  == Capacity(C, t.byT)
      ints == t.byT /\ RIsInt(t.amt) /\ \A i \in E : RIsInt(book[i].y)
      over == IF ints THEN RGt(t.amt, cap) ELSE RGt(t.amt, cap) /\ ~RNear(t.amt, cap, REL, "1/10000000000")
      fits == IF ints THEN RLe(t.amt, cap) ELSE RLt(t.amt, cap) /\ ~RNear(t.amt, cap, REL, "1/10000000000")
      \* no call with such arguments may succeed
      bad  == \/ ~t.known \/ ~t.inpair \/ E = {} \/ Zero(t.amt)
              \/ t.limit # None /\ t.limamt # None
              \/ ~t.partial /\ over
      \* with at most thr orders
      top  == IF t.method # "alpha" \/ n <= t.thr THEN cap
              ELSE TopSum([i \in E |-> Qty(C[i], C[i].y, t.byT)], t.thr)
      must == /\ ~bad
              /\ ~Dust(RMul(RMin(t.amt, cap), "1/1000000"))
              /\ IF t.method = "alpha" /\ n > t.thr
                 THEN RLt(t.amt, top) /\ ~RNear(t.amt, top, REL, EPS)
                 ELSE fits \/ t.partial
      same == /\ {[i |-> e.st.orders[k].id, r |-> e.st.orders[k]] : k \in DOMAIN e.st.orders}
                   = {[i |-> i, r |-> rows[i]] : i \in DOMAIN rows}
              /\ TableOK(e.st)
  IN
  IF ~e.ok
  THEN Req(~must, "trade-refused-wrongly")
       \cup Req(same, "refused-changed-book")
       \cup Req(e.st.log = log /\ e.st.numtr = numtr, "refused-logged")
  ELSE IF bad THEN Req(FALSE, IF ~t.partial /\ over /\ E # {} THEN "trade-beyond-liquidity"
                              ELSE IF E = {} THEN "trade-without-order" ELSE "trade-bad-arguments")
  ELSE
  LET R    == SelectSeq(e.rows, LAMBDA r : ~r.aggr)
      A    == SelectSeq(e.rows, LAMBDA r : r.aggr)
      agg  == A[1]
      RI   == {R[k].routeix : k \in DOMAIN R}
      f    == [i \in RI |-> R[CHOOSE k \in DOMAIN R : R[k].routeix = i].amt1]
      g    == [i \in RI |-> R[CHOOSE k \in DOMAIN R : R[k].routeix = i].amt2]
      U    == {i \in RI : ~(Dust(f[i]) /\ Dust(g[i]))}           \* routes that matter
      UE   == U \cap E
      dy   == RSumF(f, RI)
      dx   == RSumF(g, RI)
      inn  == Other(t.base, t.quote, t.out)
      want == RMin(t.amt, cap)
      got  == IF t.byT THEN dy ELSE dx
      Ay(i) == RMax("0", RSub(C[i].y, f[i]))                     \* balance after
      Am(i) == Marg([C[i] EXCEPT !.y = Ay(i)])
      shape == Len(A) = 1 /\ Len(R) >= 1 /\ Cardinality(RI) = Len(R)
      ex   == agg.exec
      exact == t.method = "exact" \/ (t.method = "alpha" /\ n <= t.thr)
      full == RLe(t.amt, cap)
      \* (alpha matching fills partial trades only up to 1e-10 of what there is)
      ref  == IF t.method = "alpha" /\ t.partial THEN RMin(got, want) ELSE want
      opt  == Fill(C, ref, t.byT, "exact")
      lev  == IF full THEN OptLevel(C, ref, t.byT) ELSE "0"
      offer == [i \in E |-> FastOffer(C[i], t.amt, t.byT)]
      pr   == AvgPrice(t, dy, dx)
      lp   == LimitPrice(t)
      edge == lp # None /\ RNear(pr, lp, REL, "0")
      met  == LimitMet(t, pr)
      sold == [i \in DOMAIN book |-> IF i \in RI THEN f[i] ELSE "0"]
      recv == [i \in DOMAIN book |-> RSumF(g, {k \in RI : k \in DOMAIN book /\ book[k].lid = i /\ k # i})]
      st   == AsFun(e.st.orders)
      \* alpha matching leaves 1e-10 in the book when it fills partially; nothing is said of less
      dust == t.method = "alpha" /\ t.partial /\ RLt(cap, "1/100000000")
      tiny == Dust(RMul(want, "1/1000"))
  IN
  IF ~shape THEN {"log-shape"}
  ELSE IF ~(RI \subseteq DOMAIN book) \/ Cardinality(Ids(e.st.orders)) # Len(e.st.orders) \/ Ids(e.st.orders) # DOMAIN book
  THEN {"route-unknown-order"}
  ELSE
  \* who takes part
  Req(RI \subseteq E, "route-not-eligible") \cup
  IF dust THEN {} ELSE
  \* each fill lies on its curve
  UNION {Req(/\ RGe(f[i], "0") /\ RLe(f[i], RAdd(C[i].y, EPS))
             /\ LET d == DxFromDy(C[i], RMin(f[i], C[i].y)) 
                IN RNear(g[i], d, REL, RMul(EPS, RAdd("2", RDiv("2", RMul(Am(i), Am(i))))))
             , "fill-off-curve") : i \in UE} \cup
  \* average price within the reported marginal prices before and after
  (IF ~ex THEN {} ELSE
   UNION {LET p0 == RawPrice(book[i].base, book[i].quote, t.out, rows[i].p_marg)
              p1 == RawPrice(book[i].base, book[i].quote, t.out, IF st[i].p_marg = None THEN st[i].p_end ELSE st[i].p_marg)
              tol == RAdd(REL, RAdd(RDiv(EPS, f[i]), RDiv(EPS, g[i])))
              p  == RDiv(f[i], g[i])
          IN Req(/\ RLe(p, RMul(p0, RAdd("1", tol))) /\ RGe(p, RMul(p1, RSub("1", tol)))
                 , "fill-price-range") : i \in {k \in UE : Pos(f[k]) /\ Pos(g[k])}}) \cup
  \* the whole request is matched, or all there is
  (IF t.method = "alpha" /\ t.partial /\ n > t.thr
   THEN Req(RLe(got, RAdd(want, RMul(REL, want))), "fill-too-much")
   ELSE Req(RNear(got, want, REL, "3/10000000000"), "fill-incomplete")) \cup
  \* optimal split
  (IF exact /\ full /\ ~tiny /\ RI \subseteq E
   THEN UNION {IF Flat(C[i]) /\ RNear(C[i].B, lev, REL, "0") THEN {}
               ELSE Req(RNear(IF i \in RI THEN f[i] ELSE "0", IF i \in DOMAIN opt THEN opt[i] ELSE "0",
                              "1/100000000", RAdd(EPS, RMul("1/1000000000", C[i].z))), "split-not-optimal") : i \in E}
   ELSE {}) \cup
  \* greedy split
  (IF t.method = "fast" /\ ~tiny /\ RI \subseteq E
   THEN LET Q == SelectSeq(R, LAMBDA r : r.routeix \in U)
            rt(k) == offer[Q[k].routeix].rate
            slack == RMul("1/100000", REL)
        IN Req(\A k \in 1 .. Len(Q) - 1 : RGe(rt(k), RMul(rt(k + 1), RSub("1", REL))), "fast-not-ranked")
           \cup Req(\A k \in 1 .. Len(Q) - 1 :
                      Close(IF t.byT THEN f[Q[k].routeix] ELSE g[Q[k].routeix], offer[Q[k].routeix].q), "fast-not-greedy")
           \cup Req(Len(Q) > 0 => \A i \in E \ U : ~Dust(offer[i].dy) /\ ~Dust(offer[i].dx) =>
                      RLe(offer[i].rate, RMul(rt(Len(Q)), RAdd("1", REL))), "fast-skips-better")
   ELSE {}) \cup
  \* restricted optimal split
  (IF t.method = "alpha" /\ ~tiny /\ RI \subseteq E
   THEN Req(Cardinality(U) <= t.thr, "alpha-too-many")
        \cup Req(\A i, k \in U : ~Dust(Ay(k)) => RGe(Am(i), RMul(Am(k), "99999999/100000000")), "alpha-not-optimal")
   ELSE {}) \cup
  \* limits and execution
  (IF edge THEN {} ELSE Req(ex = (t.execute /\ met), IF t.execute THEN "limit-execution" ELSE "quote-executed")) \cup
  Req(\A k \in DOMAIN e.rows : e.rows[k].exec = ex /\ e.rows[k].limitfail = agg.limitfail, "log-exec") \cup
  (IF edge THEN {} ELSE Req(agg.limitfail = (IF lp = None THEN "None" ELSE IF met THEN "False" ELSE "True"), "log-limitfail")) \cup
  \* effect on the book
  (IF ~ex THEN Req(same, "quote-changed-book")
   ELSE UNION {
     Req(\A k \in Static : st[i][k] = rows[i][k], "frame-static")
     \cup Req(Sum(st[i].y, RAdd(RSub(book[i].y, sold[i]), recv[i]), RAdd(book[i].y, RAdd(sold[i], recv[i]))),
              IF i \in RI THEN "pay-out" ELSE IF Pos(recv[i]) THEN "pay-linked" ELSE "frame-balance")
     \cup Req(Same(st[i].y_int, RMax(book[i].z, st[i].y)), "frame-capacity")
     : i \in DOMAIN book}) \cup
  \* a quote announces what execution does
  (IF quote.on /\ quote.arg = [e.arg EXCEPT !.execute = FALSE] /\ ex
   THEN Req(Len(quote.rows) = Len(e.rows) /\ \A k \in DOMAIN e.rows :
              /\ quote.rows[k].routeix = e.rows[k].routeix /\ quote.rows[k].amt1 = e.rows[k].amt1
              /\ quote.rows[k].amt2 = e.rows[k].amt2 /\ quote.rows[k].price = e.rows[k].price, "quote-differs")
   ELSE {}) \cup
  \* the log: appended, never rewritten
  Req(SubSeq(e.st.log, 1, Len(log)) = log /\ e.st.log = log \o e.dig, "log-append") \cup
  Req(e.st.numtr = numtr + 1, "log-counter") \cup
  Req(/\ agg.uid = ToString(numtr) /\ agg.subid = "A" /\ e.rows[Len(e.rows)] = agg
      /\ \A k \in DOMAIN R : R[k].uid = ToString(numtr) \o "." \o ToString(k - 1) /\ R[k].subid = ToString(k - 1)
      /\ \A k \in DOMAIN e.rows : e.rows[k].id = numtr, "log-ids") \cup
  Req(\A k \in DOMAIN e.rows : /\ e.rows[k].tkn1 = t.out /\ e.rows[k].tkn2 = inn
                               /\ e.rows[k].pair = t.base \o t.quote
                               /\ e.rows[k].p_unit = t.quote \o " per " \o t.base, "log-tokens") \cup
  Req(/\ agg.nroutes = Len(R) /\ agg.routes = [k \in DOMAIN R |-> R[k].routeix]
      /\ \A k \in DOMAIN R : R[k].nroutes = 1 /\ R[k].note = "route #" \o ToString(R[k].routeix), "log-routes") \cup
  Req(/\ RNear(agg.amt1, dy, REL, "1/50000000000") /\ RNear(agg.amt2, dx, REL, "1/50000000000"), "log-sums") \cup
  (IF tiny \/ ~Pos(dx) \/ ~Pos(dy) THEN {} ELSE
   Req(\A k \in DOMAIN e.rows :
         RNear(e.rows[k].price, AvgPrice(t, agg.amt1, agg.amt2), RAdd(REL, RAdd(RDiv(EPS, dy), RDiv(EPS, dx))), "0"), "log-price")) \cup
  Req(t.method # "alpha" \/ \A k \in DOMAIN e.rows : e.rows[k].thr = t.thr, "log-threshold") \cup
  Req(e.isbt = t.byT /\ e.sold = t.out, "result-direction")

-----------------------------------------------------------------------------
(* Judging the other calls *)

SameBook(st) == /\ TableOK(st)
                /\ {[i |-> st.orders[k].id, r |-> st.orders[k]] : k \in DOMAIN st.orders}
                     = {[i |-> i, r |-> rows[i]] : i \in DOMAIN rows}

NewIds(e) == Ids(e.st.orders) \ DOMAIN book

JudgeAdd(e) ==
  LET a   == NormAdd(e)
      N   == NewIds(e)
      st  == AsFun(e.st.orders)
      bad == AddRefused(a)
      logsame == e.st.log = log /\ e.st.numtr = numtr
  IN Req(e.ok = ~bad, IF bad THEN "add-accepted-wrongly" ELSE "add-refused-wrongly") \cup
     Req(logsame, "add-logged") \cup
     (IF ~e.ok THEN Req(SameBook(e.st), "add-refused-changed-book")
      ELSE IF bad THEN {}
      ELSE
      Req(TableOK(e.st), "add-table") \cup
      Req(DOMAIN book \subseteq DOMAIN st /\ \A i \in DOMAIN book \cap DOMAIN st : st[i] = rows[i], "add-frame") \cup
      (IF Cardinality(N) # 2 \/ Len(e.rows) # 2 \/ Ids(e.rows) # N THEN {"add-two-orders"}
       ELSE LET i   == e.rows[1].id
                j   == e.rows[2].id
                new == AddOrders(a, i, j)
            IN Req(N \cap used = {} /\ \A k \in N : k >= 0, "add-ids")
               \cup Req(\A k \in N : Shows(st[k], new[k]), "add-shows")
               \cup Req(\A k \in N : /\ RNear(st[k].y, new[k].y, "1/1000000000000", "0")
                                     /\ RNear(st[k].y_int, new[k].z, REL, "0"), "add-amounts")
               \cup Req(AsFun(e.rows) = [k \in N |-> st[k]], "add-result")
               \cup Req(\A k \in N : MargOK(st[k], new[k]), "marginal-price")
               \cup Req(/\ {e.uis[m].id : m \in DOMAIN e.uis} = N /\ Len(e.uis) = 2
                        /\ \A m \in DOMAIN e.uis : LET u == e.uis[m] IN
                             /\ u.tkn = new[u.id].tkn /\ RNear(u.y, new[u.id].y, "1/1000000000000", "0")
                             /\ RNear(u.yint, new[u.id].z, REL, "0")
                             /\ u.lid = new[u.id].lid, "add-orderuis")))

JudgeDel(e) ==
  LET D  == Deleted(book, e.id)
      st == AsFun(e.st.orders)
  IN Req(/\ {e.ret[k] : k \in DOMAIN e.ret} = D /\ Len(e.ret) = Cardinality(D), "del-result") \cup
     Req(Ids(e.st.orders) = DOMAIN book \ D /\ TableOK(e.st), "del-strategy") \cup
     Req(\A i \in DOMAIN st \cap DOMAIN book : st[i] = rows[i], "del-frame") \cup
     Req(e.st.log = log /\ e.st.numtr = numtr, "del-logged")

\* liquidity(): balances summed by pair and token
JudgeLiq(e) ==
  LET K == {<<rows[i].pair, rows[i].tkn>> : i \in DOMAIN rows}
      T(k) == {i \in DOMAIN rows : <<rows[i].pair, rows[i].tkn>> = k}
      S(k) == RSumF([i \in T(k) |-> rows[i].y], T(k))
  IN Req({<<e.res[m].pair, e.res[m].tkn>> : m \in DOMAIN e.res} = K /\ Len(e.res) = Cardinality(K)
         /\ \A m \in DOMAIN e.res : Sum(e.res[m].y, S(<<e.res[m].pair, e.res[m].tkn>>), RAdd("0", S(<<e.res[m].pair, e.res[m].tkn>>)))
         , "liquidity-report") \cup
     Req(SameBook(e.st) /\ e.st.log = log, "report-changed-state")

\* state(pair) shows exactly the orders of that pair
JudgeView(e) ==
  Req(LET W == {i \in DOMAIN rows : rows[i].pair \in {e.isos[k] : k \in DOMAIN e.isos}}
      IN Ids(e.orders) = W /\ \A k \in DOMAIN e.orders : e.orders[k] = rows[e.orders[k].id], "state-of-pair") \cup
  Req(\A m \in DOMAIN e.uis : LET u == e.uis[m] IN
        u.id \in DOMAIN book => /\ u.tkn = book[u.id].tkn /\ Same(u.y, book[u.id].y) /\ Same(u.yint, book[u.id].z)
                                /\ u.lid = book[u.id].lid, "state-orderuis") \cup
  Req(SameBook(e.st) /\ e.st.log = log, "report-changed-state")

LinksIntact(st) ==
  LET I == Ids(st.orders) IN
  \A k \in DOMAIN st.orders : LET r == st.orders[k] IN r.lid \in I /\ Row(st.orders, r.lid).lid = r.id

\* what holds of every reported state
JudgeState(e, nb) ==
  Req(\A k \in DOMAIN e.st.orders : BoundedRow(e.st.orders[k]), "balance-bounds") \cup
  Req(\A k \in DOMAIN e.st.orders : e.st.orders[k].id \in DOMAIN nb => MargOK(e.st.orders[k], nb[e.st.orders[k].id]), "marginal-price") \cup
  Req(LinksIntact(e.st), "links-intact")

-----------------------------------------------------------------------------
(* History: value of everything traders got, at the prices of the book *)

\* the AMM's net flow per token caused by executed trades
FlowAfter(e) ==
  IF e.op = "trade" /\ e.ok /\ Len(e.rows) > 0
  THEN LET A == SelectSeq(e.rows, LAMBDA r : r.aggr) IN
       IF Len(A) # 1 THEN flow
       ELSE IF ~A[1].exec THEN flow
       ELSE LET f1 == [flow EXCEPT ![A[1].tkn1] = RSub(@, A[1].amt1)]
            IN [f1 EXCEPT ![A[1].tkn2] = RAdd(@, A[1].amt2)]
  ELSE flow

\* deposits, withdrawals and trades account for everything in the book
Deposits(e) ==
  IF e.op = "add" THEN {i \in Ids(e.st.orders) : i \notin DOMAIN book} ELSE {}
Withdrawn(e) == IF e.op = "del" THEN DOMAIN book \ Ids(e.st.orders) ELSE {}

Ledger(e) ==
  LET D == Deposits(e) W == Withdrawn(e) IN
  [k \in DOMAIN flow |->
     RSub(RAdd(FlowAfter(e)[k], RSumF([i \in {j \in D : Row(e.st.orders, j).tkn = k} |-> Row(e.st.orders, i).y],
                                     {j \in D : Row(e.st.orders, j).tkn = k})),
          RSumF([i \in {j \in W : book[j].tkn = k} |-> book[i].y], {j \in W : book[j].tkn = k}))]

JudgeLedger(e) ==
  LET led == Ledger(e)
      H(k) == {i \in Ids(e.st.orders) : Row(e.st.orders, i).tkn = k}
      Hold(k) == RSumF([i \in H(k) |-> Row(e.st.orders, i).y], H(k))
  IN Req(\A k \in DOMAIN flow : RNear(led[k], Hold(k), "1/1000000000", "1/1000000000"), "ledger")

-----------------------------------------------------------------------------
Tokens == {"ETH", "USDC", "BTC", "USD", "CUSD", "DAI"}

Init == /\ tid \in 1 .. Len(Traces)
        /\ l = 0 /\ book = <<>> /\ rows = <<>> /\ log = <<>> /\ numtr = 0
        /\ quote = [on |-> FALSE] /\ flow = [k \in Tokens |-> "0"] /\ dead = FALSE /\ used = {}

NewBook(e, i) ==
  IF i \in DOMAIN book THEN book[i]
  ELSE LET a == NormAdd(e)
           q == CHOOSE k \in {1, 2} : e.rows[k].id = i
       IN AddOrders(a, e.rows[1].id, e.rows[2].id)[i]

\* can the behaviour be followed any further?
Followed(e) ==
  e.op = "add" => LET N == NewIds(e) IN
     IF N = {} THEN TRUE ELSE e.ok /\ Cardinality(N) = 2 /\ Len(e.rows) = 2 /\ Ids(e.rows) = N /\ ~AddRefused(NormAdd(e))

Next ==
  LET e == Traces[tid].evs[l + 1] IN
  /\ l < Len(Traces[tid].evs)
  /\ l' = l + 1 /\ tid' = tid
  /\ IF dead THEN UNCHANGED <<book, rows, log, numtr, quote, flow, dead, used>>
     ELSE IF ~e.wf
     THEN /\ Report(Traces[tid].tid, l + 1, e.op, {"crash"})
          /\ dead' = TRUE /\ UNCHANGED <<book, rows, log, numtr, quote, flow, used>>
     ELSE IF ~Followed(e) \/ (e.op # "add" /\ ~(Ids(e.st.orders) \subseteq DOMAIN book))
     THEN /\ Report(Traces[tid].tid, l + 1, e.op,
                    IF e.op = "add" THEN JudgeAdd(e) \cup (IF NewIds(e) = {} THEN {} ELSE {"add-two-orders"}) ELSE {"orders-from-nowhere"})
          /\ dead' = TRUE /\ UNCHANGED <<book, rows, log, numtr, quote, flow, used>>
     ELSE IF ~LinksIntact(e.st)
     THEN /\ Report(Traces[tid].tid, l + 1, e.op, {"links-intact"} \cup (IF e.op = "del" THEN JudgeDel(e) ELSE {}))
          /\ dead' = TRUE /\ UNCHANGED <<book, rows, log, numtr, quote, flow, used>>
     ELSE LET nb == [i \in Ids(e.st.orders) |-> Anchor(NewBook(e, i), Row(e.st.orders, i))] IN
          /\ Report(Traces[tid].tid, l + 1, e.op,
               (CASE e.op = "add"   -> JudgeAdd(e)
                  [] e.op = "del"   -> JudgeDel(e)
                  [] e.op = "trade" -> JudgeTrade(e)
                  [] e.op = "liq"   -> JudgeLiq(e)
                  [] e.op = "view"  -> JudgeView(e)
                  [] OTHER -> {"unknown-event"})
               \cup JudgeState(e, nb) \cup JudgeLedger(e)
               \cup (IF e.op \in {"add", "trade"} /\ ~e.ok THEN Req(e.raised = Traces[tid].raises, "refused-silently") ELSE {}))
          /\ book' = nb
          /\ rows' = AsFun(e.st.orders)
          /\ log' = e.st.log
          /\ numtr' = e.st.numtr
          /\ flow' = Ledger(e)
          /\ quote' = IF e.op = "trade" /\ e.ok /\ ~e.arg.execute
                      THEN [on |-> TRUE, arg |-> e.arg, rows |-> e.rows] ELSE [on |-> FALSE]
          /\ dead' = FALSE
          /\ used' = used \cup Ids(e.st.orders)

Spec == Init /\ [][Next]_tvars
=============================================================================
