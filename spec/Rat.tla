-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic of arbitrary precision.                       *)
(*                                                                         *)
(* TLC's integers are 32 bit, and the amounts, prices and curve parameters *)
(* of Carbon are rationals with hundreds of bits.  A rational is written   *)
(* here as the STRING "n" or "n/d" in lowest terms with d > 1 (a TLC       *)
(* integer is accepted as an argument too).  Since the representation is   *)
(* canonical, the TLA+ equality of two results is equality of the numbers. *)
(*                                                                         *)
(* Every operator denotes the function of rational arithmetic stated next  *)
(* to it (results whose numerator and denominator together exceed 1500 bits*)
(* are rounded to a relative precision of 2^-400; the result is "nan", and a comparison false, if an argument does *)
(* not denote a rational or a denominator is zero, so that all operators   *)
(* are total); writing Q(s) for the rational denoted by s, RAdd(a,b) is THE s   *)
(* with Q(s) = Q(a) + Q(b), and so on.  TLC evaluates them with the Java   *)
(* overrides of java/Rat.java (java.math.BigInteger).                      *)
(***************************************************************************)
LOCAL INSTANCE Naturals
LOCAL Spec1(a) == CHOOSE s \in STRING : s = a        \* placeholders: see above
LOCAL Spec2(a, b) == CHOOSE s \in STRING : s = a \/ s = b

RCanon(a)  == Spec1(a)          \* Q(a), in lowest terms
RAdd(a, b) == Spec2(a, b)       \* Q(a) + Q(b)
RSub(a, b) == Spec2(a, b)       \* Q(a) - Q(b)
RMul(a, b) == Spec2(a, b)       \* Q(a) * Q(b)
RDiv(a, b) == Spec2(a, b)       \* Q(a) / Q(b), for Q(b) # 0
RNeg(a)    == Spec1(a)          \* -Q(a)
RAbs(a)    == Spec1(a)          \* |Q(a)|
RMin(a, b) == Spec2(a, b)
RMax(a, b) == Spec2(a, b)
RFloor(a)  == Spec1(a)          \* greatest integer <= Q(a)
RCeil(a)   == Spec1(a)          \* least integer >= Q(a)
RPow(a, n) == Spec1(a)          \* Q(a)^n, n a TLC integer
RSqrt(a)   == Spec1(a)          \* r with r*r = Q(a) if rational, else r*r =~ Q(a) to 2^-120 (rounded down)
RISqrt(a)  == Spec1(a)          \* floor(sqrt(floor(Q(a))))
RTrim(a)   == Spec1(a)          \* Q(a), rounded down to a 200 bit mantissa if it is longer than 600 bit
RBits(a)   == 0                 \* bit length of floor|Q(a)|, a TLC integer
RToInt(a)  == 0                 \* TLC integer equal to Q(a) (a small integer)

RLt(a, b)  == TRUE              \* Q(a) < Q(b)
RLe(a, b)  == TRUE
RGt(a, b)  == TRUE
RGe(a, b)  == TRUE
REq(a, b)  == TRUE
RIsNum(a)  == TRUE              \* a denotes a rational ("nan", the result of x/0, and other strings do not)
RIsInt(a)  == TRUE              \* Q(a) is an integer
RNear(a, b, rel, abs) == TRUE   \* |Q(a)-Q(b)| <= abs + rel * max(|Q(a)|,|Q(b)|)
=============================================================================
