------------------------------ MODULE FormCore ------------------------------
(***************************************************************************)
(* The controls of the interactive notebooks, and the range guard of the   *)
(* contract tests.                                                         *)
(*                                                                         *)
(* A control is a record                                                   *)
(*   check  [kind, ids, descr, dis, vals (booleans), objs]                 *)
(*   slide  [kind, ids, descr, dis, vals (shares of one), lo, hi]          *)
(*   drop   [kind, ids, descr, at (the option chosen)]                     *)
(* What the user does changes the value of one item of one control; all    *)
(* reports are functions of the record.                                    *)
(***************************************************************************)
EXTENDS Rat, TLC, Sequences, Naturals, Integers, FiniteSets

None == "None"
Same(x, n) == [k \in 1 .. n |-> x]
NoCtl == [kind |-> "none"]

\* what is given as o: [k: "none", "all", "seq" or "bad" (a sequence of the wrong length), x, v]
Bad(o, n) == o.k \in {"seq", "bad"} /\ Len(o.v) # n
Spread(o, n, dflt) == CASE o.k = "none" -> Same(dflt, n) [] o.k = "all" -> Same(o.x, n) [] OTHER -> o.v

NewCheck(ids, descr, vals, dis, objs) ==
  LET n == Len(ids) IN
  IF Bad(vals, n) \/ Bad(dis, n) \/ Bad(objs, n) THEN NoCtl
  ELSE [kind |-> "check", ids |-> ids, descr |-> descr, dis |-> Spread(dis, n, FALSE), vals |-> Spread(vals, n, FALSE),
        objs |-> IF objs.k = "none" THEN descr ELSE objs.v]

Clamp(x, lo, hi) == IF RLt(x, lo) THEN lo ELSE IF RLt(hi, x) THEN hi ELSE x
\* pm: whether the range extends below zero; range: sequences <<lo, hi>>. Only one of them may be given.
NewSlide(ids, descr, vals, dis, pm, range) ==
  LET n  == Len(ids)
      rg == IF range.k # "none" THEN Spread(range, n, <<"0", "1">>)
            ELSE LET p == Spread(pm, n, FALSE) IN [k \in 1 .. n |-> IF p[k] THEN <<"-1", "1">> ELSE <<"0", "1">>]
  IN IF \/ Bad(vals, n) \/ Bad(dis, n) \/ Bad(pm, n) \/ Bad(range, n) \/ (pm.k # "none" /\ range.k # "none")
        \* one value for all is a share
        \/ (vals.k = "all" /\ (RGt(vals.x, "1") \/ RLt(vals.x, IF pm.k = "all" /\ pm.x THEN "-1" ELSE "0")))
     THEN NoCtl
     ELSE LET v == Spread(vals, n, "0") IN
          [kind |-> "slide", ids |-> ids, descr |-> descr, dis |-> Spread(dis, n, FALSE),
           lo |-> [k \in 1 .. n |-> rg[k][1]], hi |-> [k \in 1 .. n |-> rg[k][2]],
           vals |-> [k \in 1 .. n |-> Clamp(v[k], rg[k][1], rg[k][2])]]

\* by value (0: not) or by index (not both); the first option otherwise
NoIx == 1000
NewDrop(ids, labels, byval, byix) ==
  IF (byval # 0 /\ byix # NoIx) \/ (byix # NoIx /\ byix \notin 0 .. Len(ids) - 1) THEN NoCtl
  ELSE [kind |-> "drop", ids |-> ids, descr |-> labels, at |-> IF byval # 0 THEN byval ELSE IF byix # NoIx THEN byix + 1 ELSE 1]

Tick(c, i, b)  == [c EXCEPT !.vals[i] = b]
Slide(c, i, x) == [c EXCEPT !.vals[i] = Clamp(x, c.lo[i], c.hi[i])]
Choose(c, i)   == [c EXCEPT !.at = i]

Idx(n) == [k \in 1 .. n |-> k]
Where(c, b) == SelectSeq(Idx(Len(c.ids)), LAMBDA k : c.vals[k] = b)
Pick(v, ix) == [k \in DOMAIN ix |-> v[ix[k]]]
Checked(c, b) == Pick(c.ids, Where(c, b))
Objects(c, b) == Pick(c.objs, Where(c, b))

(* ------------------- the guard of unsigned 256 bit numbers --------------*)
Max256 == RPow("2", 256)
\* a number has to have some precision, and some room above
Guard(x) ==
  CASE RLt(x, "0")                          -> [level |-> 2, over |-> TRUE, word |-> "neg"]
    [] RLt(x, "100")                        -> [level |-> 2, over |-> FALSE, word |-> "< underflow threshold"]
    [] RLt(x, "10000")                      -> [level |-> 1, over |-> FALSE, word |-> "underflow warning"]
    [] RGe(x, Max256)                       -> [level |-> 2, over |-> TRUE, word |-> "> max"]
    [] RGe(x, RDiv(Max256, "10000"))        -> [level |-> 1, over |-> TRUE, word |-> "close to max"]
    [] OTHER                                -> [level |-> 0, over |-> FALSE, word |-> "ok"]
Kept(x) == IF RLt(x, "0") THEN "0" ELSE x
Error(g) == IF g.over THEN (IF g.level = 2 THEN "OverflowError" ELSE "OverflowWarning")
            ELSE IF g.level = 2 THEN "UnderflowError" ELSE "UnderflowWarning"
Name(g) == CASE g.level = 0 -> "LOG:OK" [] g.level = 1 -> "WARNING:" \o (IF g.over THEN "OVERFLOW" ELSE "UNDERFLOW")
             [] OTHER -> "ERROR:" \o (IF g.over THEN "OVERFLOW" ELSE "UNDERFLOW")
\* the message: level, label, number of binary digits
Message(x, label) == LET g == Guard(x) IN
  "[" \o Name(g) \o ":" \o label \o "] " \o (IF RLt(x, "0") THEN "number < 0" ELSE ToString(RBits(x)) \o " bits: " \o g.word)
\* printed and raised from the level asked for
Outcome(x, label, plvl, rlvl) == LET g == Guard(x) IN
  [printed |-> IF g.level >= plvl THEN <<Message(x, label)>> ELSE <<>>,
   raised |-> IF g.level >= rlvl THEN Error(g) ELSE None,
   val |-> IF g.level >= rlvl THEN None ELSE Kept(x)]
=============================================================================
