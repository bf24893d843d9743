------------------------------ MODULE GenPath -------------------------------
(* Generates strategies, runs of strategies along price paths, and price series. *)
EXTENDS PathCore, Integers, Json, IOUtils

CONSTANT Depth
PROFILE == IOEnv.PROFILE
VARIABLES n, hist
vars == <<n, hist>>

One(s) == {s[RandomElement(DOMAIN s)]}
Pick(s) == s[RandomElement(DOMAIN s)]
Pct(k) == RandomElement(1 .. 100) <= k

Ms == <<"100", "100", "100", "90", "2000", "13/10", "1/500">>
Gs == <<"0", "1/10", "1/2", "1/5", "2", "1/100">>
Ws == <<"0", "1/10", "1/2", "1/20", "1", "3", "1/4">>
Us == <<"0", "0", "0", "1/2", "1/10", "9/10", "999/1000">>
UsX == Us \o <<"1", "9995/10000", "3/4", "-1/10", "11/10">>
WsX == Ws \o <<"-1/10", "12">>
Amts == <<"None", "0", "1", "10", "1000", "1/8", "250/3">>
Toks == << <<"None", "None">>, <<"None", "None">>, <<"ETH", "USDC">>, <<"WBTC", "ETH">>, <<"ETH", "None">> >>
Fees == <<"None", "0", "1/100", "1/500", "1/20">>
Lo   == <<"80", "100", "95", "1", "1/4">>
Ratio == <<"1", "121/100", "4", "3/2", "11/10">>
Ps == <<"80", "90", "100", "110", "121", "150", "1", "200">>

\* ways of making a strategy; tame: those that can be run
NewMgw(tame) ==
  LET pw == Pct(40)  pu == Pct(40)
      w1 == Pick(IF tame THEN Ws ELSE WsX)  w2 == Pick(IF tame THEN Ws ELSE WsX)
      u1 == Pick(IF tame THEN Us ELSE UsX)  u2 == Pick(IF tame THEN Us ELSE UsX)
      t == IF tame THEN <<"None", "None">> ELSE Pick(Toks)
  IN [how |-> "mgw", m |-> IF tame THEN Pick(<<"100", "100", "100", "95", "120">>) ELSE Pick(Ms), g |-> Pick(Gs),
      w |-> <<w1, IF pw THEN w2 ELSE w1>>, u |-> <<u1, IF pu THEN u2 ELSE u1>>, pw |-> pw, pu |-> pu,
      ar |-> Pick(Amts), ac |-> Pick(Amts), rsk |-> t[1], csh |-> t[2]]
NewSb(tame) ==
  LET f == Pct(30)  flat == Pct(20) IN
  [how |-> "sb", sell |-> IF flat THEN <<"120", "120">> ELSE <<Pick(Ps), Pick(Ps)>>, buy |-> IF flat THEN <<"90", "90">> ELSE <<Pick(Ps), Pick(Ps)>>,
   scalar |-> flat, fixed |-> f, overlapping |-> Pct(50)]
NewU3(tame) ==
  LET lo == Pick(Lo)  hi == IF tame \/ Pct(80) THEN RMul(lo, Pick(Ratio)) ELSE RMul(lo, "1/2")
      t == IF tame THEN <<"None", "None">> ELSE Pick(Toks) IN
  [how |-> "u3", lo |-> lo, hi |-> RCanon(hi), below |-> Pct(50), tvl |-> Pick(<<"None", "1000", "50", "123456">>), fee |-> Pick(Fees), rsk |-> t[1], csh |-> t[2]]
NewPlain(tame) ==
  LET k == Pick(<<"sell", "buy", "both", "none", "none">>)
      sort == tame \/ Pct(60)
      a == Pick(Amts)  b == Pick(Amts)
      cap(x) == IF x = "None" THEN "50" ELSE RAdd(x, Pick(<<"0", "1", "10">>))
      mode == Pick(<<"none", "pm", "y", IF tame THEN "none" ELSE "both">>)
      w(x) == RMul(x, Pick(<<"1", "11/10", "2", "81/100">>))
      s1 == Pick(<<"110", "120", "101">>)  b1 == Pick(<<"90", "99", "80">>)
      psb == RCanon(w(RMul(s1, "3/2")))  pbb == RCanon(RDiv(b1, Pick(<<"1", "11/10", "2">>)))
  IN [how |-> "plain", psa |-> s1, psb |-> psb, pba |-> b1, pbb |-> pbb, ar |-> a, ac |-> b,
      psm |-> IF mode \in {"pm", "both"} /\ k # "buy" THEN RCanon(RAdd(s1, RMul(Pick(<<"0", "1/2", "1/10">>), RSub(psb, s1)))) ELSE "None",
      pbm |-> IF mode \in {"pm", "both"} /\ k # "sell" /\ RLt(pbb, b1) THEN RCanon(RAdd(b1, RMul(Pick(<<"0", "1/2", "1/10">>), RSub(pbb, b1)))) ELSE "None",
      ys |-> IF mode \in {"y", "both"} /\ k # "buy" THEN cap(a) ELSE "None", yb |-> IF mode \in {"y", "both"} /\ k # "sell" THEN cap(b) ELSE "None",
      rescale |-> Pct(50) /\ ~(tame /\ mode = "y"), rsk |-> "None", csh |-> "None"]
NewDct(tame) ==
  [how |-> "dct", kind |-> Pick(<<"mgw", "fixed", "uv3", "MGW", "what">>), a |-> NewMgw(FALSE), u |-> NewU3(FALSE), s |-> NewPlain(FALSE),
   quiet |-> Pct(50)]

New(tame) == LET k == RandomElement(1 .. IF tame THEN 8 ELSE 11) IN
  CASE k <= 3 -> NewMgw(tame) [] k \in 4 .. 5 -> NewPlain(tame) [] k = 6 -> NewSb(tame) [] k \in 7 .. 8 -> NewU3(tame) [] k \in 9 .. 11 -> NewDct(tame)

Make1 == \E k \in {RandomElement(1 .. 100)} :
  \/ k <= 50 /\ hist' = Append(hist, [op |-> "make", a |-> New(FALSE)])
  \/ k \in 51 .. 65 /\ \E x \in One(<<"100", "2000", "50", "1/3">>) : \E y \in One(<<"100", "100", "50", "7">>) : \E f \in {Pct(40)} :
       hist' = Append(hist, [op |-> "rescale", new |-> x, old |-> y, force |-> f])
  \/ k \in 66 .. 80 /\ \E x \in One(<<"100", "2000", "1/3">>) : \E pc \in One(<<"0", "1", "1/2", "1/5">>) : \E v \in One(<<"1000", "7/2">>) :
       hist' = Append(hist, [op |-> "tvl", spot |-> x, pc |-> pc, tvl |-> v])
  \/ k \in 81 .. 90 /\ hist' = Append(hist, [op |-> "dct"])
  \/ k > 90 /\ \E num \in {RandomElement(1 .. 4)} : \E base, purge, asdf \in {Pct(50)} :
       hist' = Append(hist, [op |-> "diff", baseline |-> Pct(50), purge |-> Pct(50), asdf |-> asdf, comment |-> Pct(50),
          recs |-> [i \in 1 .. num |-> [id0 |-> "r" \o ToString(i), comment |-> Pick(<<"x", "y">>), p |-> Pick(<<"1", "2">>), q |-> Pick(<<"1", "2", "3">>), r |-> "5"]]])

(* a run: strategies, a path, a shift *)
Moves == <<"1", "101/100", "99/100", "11/10", "9/10", "3/2", "2/3", "2", "1/2", "105/100", "95/100", "1000001/1000000">>
Walk(s0, k) ==
  LET RECURSIVE W(_)
      W(i) == IF i = 1 THEN <<s0>> ELSE LET p == W(i - 1) IN Append(p, RMul(p[i - 1], Pick(Moves)))
  IN W(k)
\* every now and then the price goes exactly to an edge of a range, or far out
Edge(s, f) ==
  LET k == RandomElement(1 .. 4)
      e == CASE s.how = "plain" -> <<s.psa, s.psb, s.pba, s.pbb>>[k]
             [] s.how = "u3" -> <<s.lo, s.hi, s.lo, s.hi>>[k]
             [] s.how = "sb" -> <<s.sell[1], s.sell[2], s.buy[1], s.buy[2]>>[k]
             [] OTHER -> <<"110", "150", "90", "50">>[k]
  IN RMul(e, IF (s.how = "plain" /\ ~s.rescale) \/ s.how = "u3" \/ (s.how = "sb" /\ s.fixed) THEN "1" ELSE f)
Run ==
  \E k \in One(<<1, 1, 2, 3>>) : \E s0 \in One(<<"100", "100", "100", "2000", "1/2000", "37/10", "90">>) :
  \E len \in {RandomElement(2 .. 14)} : \E shift \in One(<<"None", "0", "1/10", "-1/20">>) : \E zeros \in One(<<0, 0, 0, 1, 3>>) :
  \E single \in {Pct(30)} : \E mixed \in {Pct(6)} :
  LET strats == [i \in 1 .. k |-> IF mixed /\ i = k THEN [NewMgw(TRUE) EXCEPT !.rsk = "ETH", !.csh = "DAI"] ELSE New(TRUE)]
      w == Walk(s0, len)
      f == RMul(RDiv(s0, "100"), RAdd("1", IF shift = "None" THEN "0" ELSE shift))
      path == [i \in 1 .. len |-> IF i > 1 /\ Pct(25) THEN Edge(strats[RandomElement(1 .. k)], f) ELSE w[i]]
  IN hist' = Append(hist, [op |-> "run", strats |-> strats, path |-> [i \in 1 .. len |-> RCanon(path[i])], shift |-> shift,
                           zeros |-> zeros, single |-> single /\ k = 1])

(* series *)
Gaps == <<1, 5, 10, 30, 59, 60, 61, 90, 150, 600, 1440, 1441, 3000>>
SPs == <<"100", "101", "99", "50", "200", "1/3">>
Pw2 == <<"1", "2", "4", "8", "1/2", "16">>
Series(len, P) == LET x == Pick(P) IN [i \in 1 .. len |-> IF i = 1 THEN x ELSE Pick(P)]
Interp ==
  \E len \in {RandomElement(2 .. 7)} : \E period \in One(<<1, 7, 30, 60, 60, 90, 1440>>) : \E sig \in One(<<"None", "0", "1/2", "1/10">>) :
  \E enable \in {Pct(92)} : \E fctr \in One(<<"None", "0", "2">>) :
     LET small == period = 1 IN
     hist' = Append(hist, [op |-> "interp", gaps |-> [i \in 1 .. len - 1 |-> IF small THEN Pick(<<1, 2, 5, 30>>) ELSE Pick(Gaps)], prices |-> Series(len, SPs),
                           period |-> period, sig |-> sig, fctr |-> fctr, enable |-> enable])
Vol ==
  \E len \in {RandomElement(2 .. 7)} : \E days \in One(<<1, 30, 365>>) : \E P \in One(<<Pw2, Pw2, SPs>>) :
     hist' = Append(hist, [op |-> "vol", prices |-> Series(len, P), days |-> days])
Gen ==
  \E s0 \in One(<<"None", "1", "2000", "1/100">>) : \E sig \in One(<<"None", "0", "0", "29/100", "1/5", "57/100">>) : \E mu \in One(<<"None", "0", "1/20", "-1/2">>) :
  \E time \in One(<<"None", "1", "1/2", "2">>) : \E N \in One(<<1, 2, 5, 12>>) : \E paths \in One(<<1, 2, 3>>) :
  \E col \in One(<<"None", "None", "q{ix}", "s{sig100}-{ix}">>) : \E when \in One(<<"ctor", "call">>) : \E start \in One(<<"None", "tuple", "dt">>) :
     hist' = Append(hist, [op |-> "gen", s0 |-> s0, sig |-> sig, mu |-> mu, time |-> time, N |-> N, paths |-> paths, col |-> col, when |-> when, start |-> start])
Read ==
  \E len \in {RandomElement(2 .. 8)} :
  \E gaps \in {[i \in 1 .. len - 1 |-> Pick(<<1, 1, 2, 5, 10>>)]} :           \* days
  \E total \in {gaps} :
  \E from \in One(<<"none", "none", "ts", "ts", "pc", "pc", "both", "early">>) : \E fd \in {RandomElement(0 .. 12)} : \E fpc \in One(<<"0", "1/10", "1/4", "1/2", "1">>) :
  \E per \in One(<<"none", "days", "days", "pc", "pc", "both">>) : \E pd \in One(<<"0", "1", "2", "5/2", "7", "100">>) : \E ppc \in One(<<"0", "1/10", "1/4", "1/2", "1">>) :
  \E min \in One(<<-1, -1, 0, 1, 3>>) : \E col \in One(<<"none", "name", "name", "int", "bad">>) : \E inv, tk \in {Pct(50)} : \E which \in {RandomElement(0 .. 1)} :
     hist' = Append(hist, [op |-> "read", gaps |-> gaps, from |-> from, fd |-> fd, fpc |-> fpc, per |-> per, pd |-> pd, ppc |-> ppc,
        min |-> min, col |-> col, invert |-> Pct(40), tkns |-> Pct(40), which |-> which, prices |-> Series(len, SPs), other |-> Series(len, SPs)])

Conds ==
  \E len \in {RandomElement(2 .. 6)} : \E w0 \in One(<<"0", "1", "1/2", "30">>) : \E w1 \in One(<<"1", "1/2", "70">>) : \E v \in One(<<"1000", "1/2">>) : \E seg \in {Pct(50)} :
     hist' = Append(hist, [op |-> "conds", prices |-> Series(len, SPs), w |-> <<w0, w1>>, val |-> v, ranges |-> <<"150", "110", "90", "70">>,
                           marg |-> IF seg THEN <<"120", "80">> ELSE <<"110", "90">>])

Init == n = 0 /\ hist = <<>>
Next == /\ n <= Depth /\ n' = n + 1
        /\ CASE PROFILE = "make" -> Make1
             [] PROFILE = "run" -> Run
             [] PROFILE = "series" -> (LET k == RandomElement(1 .. 10) IN CASE k <= 4 -> Interp [] k = 5 -> Vol \/ Conds [] k \in 6 .. 7 -> Gen [] OTHER -> Read)
Emit == n = Depth + 1 => PrintT("PLAN " \o ToJson([ops |-> hist]))
Spec == Init /\ [][Next]_vars
=============================================================================
