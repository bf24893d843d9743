------------------------------ MODULE Verdict ------------------------------
(***************************************************************************)
(* Shared by all trace specifications.                                     *)
(*                                                                         *)
(* The recorded behaviours are the lines of the ndjson file $TRACES.  A    *)
(* behaviour is a record [tid, evs, ...]; every event has the fields op    *)
(* and wf (FALSE iff the implementation returned something that is not a   *)
(* value of the expected kind, or crashed).  Verdicts are total: the name  *)
(* of every clause that fails is printed, and the rest of the behaviour is *)
(* still judged, starting from the recorded state.                         *)
(***************************************************************************)
EXTENDS Rat, Json, IOUtils, TLC, Sequences, Naturals, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACES)

\* clause c of a judgement: the set of failing clause names it contributes
Req(c, name) == IF c THEN {} ELSE {name}

Report(tid, l, op, fails) ==
  fails # {} => \A c \in fails : PrintT(<<"FAIL", tid, l, op, c>>)

\* every event of every behaviour has been judged
RECURSIVE SumLen(_)
SumLen(k) == IF k = 0 THEN 0 ELSE Len(Traces[k].evs) + 1 + SumLen(k - 1)
AllJudged == /\ PrintT(<<"JUDGED", TLCGet("stats").distinct, SumLen(Len(Traces))>>)
             /\ TLCGet("stats").distinct = SumLen(Len(Traces))
=============================================================================
