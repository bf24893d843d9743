------------------------------ MODULE GenBench ------------------------------
(***************************************************************************)
(* Generates lists of orders, and trades and matchings with amounts        *)
(* relative to what the orders hold.                                       *)
(***************************************************************************)
EXTENDS BenchCore, Json, IOUtils

CONSTANT Depth
PROFILE == IOEnv.PROFILE
VARIABLES cs, n, hist           \* cs: the orders, as curves (approximately)
vars == <<cs, n, hist>>

One(s) == {s[RandomElement(DOMAIN s)]}
Pct(k) == RandomElement(1 .. 100) <= k
Tame == PROFILE = "match"

Mant  == <<"1", "2", "5/4", "3/2", "9", "4", "257/256", "161803398875/100000000000", "99999/10000", "141421356237309/100000000000000">>
Exps  == IF Tame THEN <<0, 0, 0, 1, -1, 2, -3, 3>> ELSE <<0, 0, 1, -1, 4, -4, 9, -9, 12, -12, 18, -18>>
Rises == <<"0", "0", "1/1000000", "1/1000", "1/100", "1/10", "1/2", "1", "3", "99", "1/1000000000">>
Fracs == <<"1", "1", "1", "1", "1/2", "1/10", "9/10", "1/1000", "999999/1000000">>
Liqs  == IF Tame THEN <<4, 6, 9, 9, 10, 12, 15>> ELSE <<0, 1, 3, 6, 9, 12, 18, 21, 24, 27, 30, 38>>
P10(e) == RPow("10", e)

\* a rate written with decimals, 9 digits are enough
Cut(p) == LET k == P10(20) IN RDiv(RFloor(RMul(p, k)), k)

Near == IF Tame /\ Len(cs) > 0 THEN Pct(50) ELSE FALSE     \* rates like those of another order

Make ==
  \E m \in One(Mant) : \E e \in One(Exps) : \E w \in One(Rises) : \E f \in One(Fracs) : \E q \in One(Mant) : \E d \in One(Liqs) :
  \E near \in {Near} : \E k \in {RandomElement(1 .. 50)} : \E tweak \in One(<<"1", "1", "101/100", "99/100", "1000001/1000000">>) :
  \E zero \in {RandomElement(1 .. 25) = 1} : \E none \in {RandomElement(1 .. 25) = 1} :
  LET lo0 == RMul(m, P10(e))
      lo == Cut(IF zero THEN "0" ELSE IF near THEN RMul(tweak, cs[(k % Len(cs)) + 1].lo) ELSE lo0)
      hi == Cut(IF zero THEN lo0 ELSE RMul(lo, RAdd("1", w)))
      rl == RSqrt(lo)  rh == RSqrt(hi)
      mg0 == Cut(Sq(RAdd(rl, RMul(f, RSub(rh, rl)))))
      mg == IF f = "1" \/ RLe(mg0, lo) THEN hi ELSE mg0
      liq == IF none THEN "0" ELSE RFloor(RMul(q, P10(d)))
  IN /\ hist' = Append(hist, [op |-> "order", liq |-> liq, lo |-> lo, hi |-> hi, mg |-> mg])
     /\ cs' = Append(cs, [B |-> rl, S |-> RSub(rh, rl), y |-> liq, lo |-> lo,
                          z |-> IF hi = mg \/ rh = rl THEN liq ELSE RFloor(RDiv(RMul(liq, RSub(rh, rl)), RSub(RSqrt(mg), rl)))])

Big == <<0, 1, 2, 8, 32, 64, 100, 112, 120, 126, 127, 128>>
Part == <<"0", "1", "1", "1/2", "1/3", "999999/1000000", "1/1000", "1/1000000000", "2", "1000001/1000000">>

Drain(c) == IF Zero(c.y) \/ Zero(c.z) \/ Zero(c.B) THEN (IF Zero(c.y) THEN "0" ELSE RMul("1000000", RDiv(c.y, Sq(RAdd(c.B, RDiv(c.S, "1000"))))))
            ELSE DxFromDy(c, c.y)

Trade ==
  \E k \in One([i \in DOMAIN cs |-> i]) : \E side \in One(<<"source", "target">>) : \E how \in {RandomElement(1 .. 10)} :
  \E f \in One(Part) : \E b \in One(Big) : \E d \in One(<<"-1", "0", "1">>) :
  LET c == cs[k]
      a == IF how <= 3 THEN RMax("0", RAdd(d, RPow("2", b)))
           ELSE IF how <= 5 /\ side = "target" THEN RMax("0", RAdd(d, c.y))
           ELSE RFloor(RMul(f, IF side = "target" THEN c.y ELSE Drain(c)))
      x == RMin(a, MAXW)
  IN hist' = Append(hist, [op |-> "trade", k |-> k, side |-> side, amt |-> x]) /\ cs' = cs

Reference ==
  \E k \in One([i \in DOMAIN cs |-> i]) : \E side \in One(<<"source", "target">>) : \E f \in One(<<"0", "1", "1/2", "1/3", "999999/1000000", "1/1000", "1/1000000000">>) :
  LET c == cs[k]
      x == RMul(f, IF side = "target" THEN c.y ELSE Drain(c))
      s == P10(6)
  IN hist' = Append(hist, [op |-> "reference", k |-> k, side |-> side, amt |-> RDiv(RFloor(RMul(x, s)), s)]) /\ cs' = cs

Float ==
  \E b \in {RandomElement(0 .. 110)} : \E m \in One(Mant) : \E d \in One(<<"-1", "0", "1">>) :
  hist' = Append(hist, [op |-> "float", amt |-> RMax("0", RAdd(d, RFloor(RMul(m, RPow("2", b)))))]) /\ cs' = cs

Rate ==
  \E e \in {RandomElement(-24 .. 24)} : \E m \in One(Mant) : \E t \in One(<<"1", "1000001/1000000">>) :
  hist' = Append(hist, [op |-> "rate", amt |-> Cut(RMul(RMul(m, P10(e)), t))]) /\ cs' = cs

\* matching: amounts relative to the capacity, and where orders change
Match ==
  \E side \in One(<<"source", "target">>) : \E f \in One(Part) : \E how \in {RandomElement(1 .. 10)} : \E j \in {RandomElement(1 .. 8)} :
  \E sub \in {IF Pct(70) THEN DOMAIN cs ELSE RandomElement(SUBSET (DOMAIN cs))} : \E small \in {RandomElement(0 .. 20)} : \E d \in One(<<"-1", "0", "1">>) :
  \E types \in One(<<"both", "both", "both", "both", "Fast", "Best">>) :
  LET full == {i \in sub : Pos(cs[i].y) /\ Pos(cs[i].z) /\ Pos(cs[i].B)}
      C == [i \in full |-> [B |-> cs[i].B, S |-> cs[i].S, y |-> cs[i].y, z |-> cs[i].z]]
      t == side = "target"
      cap == IF full = {} THEN "10" ELSE Capacity(C, t)
      x == IF how = 1 THEN RCanon(small)
           ELSE IF how <= 4 /\ full # {}
           THEN \* up to the level of an order
                LET L == Levels(C)  m == CHOOSE m \in L : Cardinality({q \in L : RGt(q, m)}) = j % Cardinality(L)
                IN RAdd(d, RFloor(MktLo(C, m, t)))
           ELSE RFloor(RMul(f, cap))
  IN hist' = Append(hist, [op |-> "match", side |-> side, types |-> types, ids |-> sub, amt |-> RMax("0", x)]) /\ cs' = cs

Init == cs = <<>> /\ n = 0 /\ hist = <<>>
Orders == IF Tame THEN 5 ELSE 3
Next == /\ n <= Depth /\ n' = n + 1
        /\ IF cs = <<>> \/ (n < Orders /\ Pct(85)) THEN Make
           ELSE IF Tame THEN Match
           ELSE IF PROFILE = "encode" THEN (IF Pct(30) THEN Float ELSE IF Pct(30) THEN Rate ELSE IF Pct(40) THEN Reference ELSE Make)
           ELSE Trade
Emit == n = Depth + 1 => PrintT("PLAN " \o ToJson([ops |-> hist]))
Spec == Init /\ [][Next]_vars
=============================================================================
