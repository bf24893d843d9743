------------------------------ MODULE ToolCore ------------------------------
(***************************************************************************)
(* The smaller state-carrying tools around the simulator.                  *)
(*                                                                         *)
(*  - numbers packed into a mantissa of 40 bits and a binary exponent      *)
(*  - mutable numbers that are shared by reference                         *)
(*  - parameter objects with defaults                                      *)
(*  - the translation of a Uniswap v3 position into prices and reserves    *)
(*  - primary and secondary quotation of pairs; version requirements       *)
(*  - a store of files                                                     *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Bitwise

None == "None"
ROr(a, b) == IF RIsNum(a) THEN a ELSE b
Two(n) == RPow("2", n)
Range(s) == {s[i] : i \in DOMAIN s}

(* ------------------------- packed numbers -------------------------------*)
Mantissa == 40
MaxExp   == 255                 \* of the largest number that can be represented
Packed(n) ==                    \* a natural number of any size
  LET b == RBits(n)
      e == IF b > Mantissa THEN b - Mantissa ELSE 0
  IN [sig |-> RFloor(RDiv(n, Two(e))), exp |-> e]
Unpacked(p) == RMul(p.sig, Two(p.exp))
Trunc(x) == IF RLt(x, "0") THEN RNeg(RFloor(RNeg(x))) ELSE RFloor(x)

(* ------------------------- shared numbers -------------------------------*)
\* a heap of cells (cell -> number) and variables (sequence of cells)
\* operands of an operation: u o v
IsNat(x) == RIsInt(x) /\ RGe(x, "0") /\ RLe(x, "1000000000")
IsSmall(x) == RIsInt(x) /\ RLe(RAbs(x), "1000000000")
FloorDiv(u, v) == RFloor(RDiv(u, v))
FloorMod(u, v) == RSub(u, RMul(v, FloorDiv(u, v)))
BNot(i) == -i - 1                 \* two's complement
BAnd(i, j) == IF i >= 0 /\ j >= 0 THEN i & j ELSE IF i >= 0 THEN i - (i & BNot(j)) ELSE IF j >= 0 THEN j - (j & BNot(i)) ELSE BNot(BNot(i) | BNot(j))
Bit(op, u, v) == LET i == RToInt(u)  j == RToInt(v)
                 IN ToString(CASE op = "and" -> BAnd(i, j) [] op = "or" -> i + j - BAnd(i, j) [] OTHER -> i + j - 2 * BAnd(i, j))
Binary(op, u, v) ==             \* "None": undefined
  CASE op = "add" -> RAdd(u, v)
    [] op = "sub" -> RSub(u, v)
    [] op = "mul" -> RMul(u, v)
    [] op = "div" -> IF REq(v, "0") THEN None ELSE RDiv(u, v)
    [] op \in {"floordiv", "divmod"} -> IF REq(v, "0") THEN None ELSE FloorDiv(u, v)
    [] op = "mod" -> IF REq(v, "0") THEN None ELSE FloorMod(u, v)
    [] op = "pow" -> IF RIsInt(v) /\ RLe(RAbs(v), "64") THEN (IF REq(u, "0") /\ RLt(v, "0") THEN None ELSE RPow(u, RToInt(v))) ELSE None
    [] op = "shl" -> IF IsNat(v) /\ RIsInt(u) THEN RMul(u, Two(RToInt(v))) ELSE None
    [] op = "shr" -> IF IsNat(v) /\ RIsInt(u) THEN RFloor(RDiv(u, Two(RToInt(v)))) ELSE None
    [] op \in {"and", "or", "xor"} -> IF IsSmall(u) /\ IsSmall(v) THEN Bit(op, u, v) ELSE None
    [] OTHER -> None
Unary(op, u, n) ==              \* n: digits
  CASE op = "neg" -> RNeg(u) [] op = "pos" -> u [] op = "abs" -> RAbs(u)
    [] op = "floor" -> RFloor(u) [] op = "ceil" -> RCeil(u) [] op = "trunc" -> Trunc(u)
    [] OTHER -> u
Compare(op, u, v) ==
  CASE op = "eq" -> REq(u, v) [] op = "ne" -> ~REq(u, v) [] op = "lt" -> RLt(u, v)
    [] op = "le" -> RLe(u, v) [] op = "gt" -> RGt(u, v) [] OTHER -> RGe(u, v)

\* the heap after x := x o v, where x is variable i
Store(vars, heap, i, w) == [heap EXCEPT ![vars[i]] = w]
Values(vars, heap) == [i \in DOMAIN vars |-> heap[vars[i]]]

(* ------------------------- parameters -----------------------------------*)
\* an object: p, d: functions from names to values
EmptyF == [k \in {} |-> "0"]
Merge(f, g) == [k \in DOMAIN f \cup DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k]]
Look(o, k) == IF k \in DOMAIN o.p THEN o.p[k] ELSE IF k \in DOMAIN o.d THEN o.d[k] ELSE None
Put(o, k, v) == [o EXCEPT !.p = Merge(@, k :> v)]
Default(o, g) == [o EXCEPT !.d = Merge(@, g)]
Disjoint(f, g) == DOMAIN f \cap DOMAIN g = {}

(* ------------------------- Uniswap v3 positions -------------------------*)
TickSize(fee) == CASE fee = 100 -> 1 [] fee = 500 -> 10 [] fee = 3000 -> 60 [] fee = 10000 -> 200 [] OTHER -> 0
RECURSIVE PowT(_, _)            \* x^n with 600 bit, n >= 0
PowT(x, n) == IF n = 0 THEN "1" ELSE LET h == PowT(x, n \div 2)  s == RTrim(RMul(h, h)) IN IF n % 2 = 0 THEN s ELSE RTrim(RMul(s, x))
TickPrice(t) == IF t >= 0 THEN PowT("10001/10000", t) ELSE RDiv("1", PowT("10001/10000", -t))
Scale(u) == IF u.d0 >= u.d1 THEN RPow("10", u.d0 - u.d1) ELSE RDiv("1", RPow("10", u.d1 - u.d0))
TickLo(u) == (u.tick \div TickSize(u.fee)) * TickSize(u.fee)
TickHi(u) == TickLo(u) + TickSize(u.fee)
PriceOf(u) == RMul(RDiv(RMul(u.sp96, u.sp96), Two(192)), Scale(u))          \* tokens 1 per token 0
PLo(u) == RMul(TickPrice(TickLo(u)), Scale(u))
PHi(u) == RMul(TickPrice(TickHi(u)), Scale(u))
Liq(u) == RDiv(u.liq, RSqrt(RPow("10", u.d0 + u.d1)))
\* what the position holds of either token: the difference of the virtual reserves to the end of the range
Res0(u) == RMul(Liq(u), RSub(RDiv("1", RSqrt(PriceOf(u))), RDiv("1", RSqrt(PHi(u)))))
Res1(u) == RMul(Liq(u), RSub(RSqrt(PriceOf(u)), RSqrt(PLo(u))))
Tvl1(u) == RAdd(Res1(u), RMul(Res0(u), PriceOf(u)))                          \* in token 1

(* ------------------------- pairs and versions ---------------------------*)
Numeraires == <<"USDC", "USDT", "DAI", "TUSD", "BUSD", "PAX", "GUSD", "USDS", "sUSD", "mUSD", "HUSD", "USDN", "USDP", "USDQ", "ETH", "WETH", "WBTC", "BTC">>
Rank(name) == IF name \in Range(Numeraires) THEN CHOOSE i \in DOMAIN Numeraires : Numeraires[i] = name ELSE 1000
\* a token: [full, norm, ord], ord being its place in the alphabet
IsPrimary(b, q) == IF Rank(b.norm) = Rank(q.norm) THEN b.ord < q.ord ELSE Rank(q.norm) < Rank(b.norm)

RECURSIVE AtLeast(_, _)         \* version a (a sequence of numbers) meets requirement r
AtLeast(a, r) == IF r = <<>> THEN TRUE ELSE IF a = <<>> THEN FALSE
                 ELSE IF a[1] # r[1] THEN a[1] > r[1] ELSE AtLeast(Tail(a), Tail(r))
=============================================================================
