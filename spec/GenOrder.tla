------------------------------ MODULE GenOrder ------------------------------
(***************************************************************************)
(* Generates histories of a strategy of two (possibly linked) orders: how  *)
(* they are constructed, then trades, quotes, top-ups and queries of the   *)
(* curve functions, with amounts and prices relative to the state reached. *)
(***************************************************************************)
EXTENDS OrderCore, Json, IOUtils

CONSTANT Depth
PROFILE == IOEnv.PROFILE
VARIABLES orders, n, hist, pair, linked
vars == <<orders, n, hist, pair, linked>>

One(s) == {s[RandomElement(DOMAIN s)]}
Flip(k) == {RandomElement(1 .. k) = 1}
Pct(k) == RandomElement(1 .. 100) <= k

Init == orders = <<>> /\ n = 0 /\ hist = <<>> /\ pair = <<>> /\ linked = FALSE

Pairs == << [base |-> "ETH", quote |-> "USDC", db |-> 18, dq |-> 6], [base |-> "ETH", quote |-> "USDC", db |-> 18, dq |-> 6],
            [base |-> "USDC", quote |-> "ETH", db |-> 6, dq |-> 18], [base |-> "LINK", quote |-> "WBTC", db |-> 18, dq |-> 8],
            [base |-> "SHIB", quote |-> "BOB", db |-> 18, dq |-> 18] >>

Setup == /\ \E p \in One(Pairs) : pair' = p
         /\ \E k \in {RandomElement(1 .. 3)} : linked' = (k # 1)
         /\ UNCHANGED <<orders, hist>>

Roots == <<"1", "3/2", "2", "7/5", "40", "1/40", "12/10", "1/3", "45", "500", "1/1000">>
Rises == <<"0", "1/1000", "1/100", "1/10", "1/2", "1", "3", "20">>
Caps  == <<"1", "10", "12", "1000", "7/2", "33333", "1/1000", "250">>
Fracs == <<"0", "1/7", "1/2", "1", "1", "1", "9/10", "3/4", "1/1000">>

Make ==
  \E tkn \in {IF Len(orders) = 0 THEN RandomElement({pair.base, pair.quote})
              ELSE IF orders[1].tkn = pair.base THEN pair.quote ELSE pair.base} :
  \E B \in One(Roots) : \E w \in One(Rises) : \E z \in One(Caps) : \E f \in One(Fracs) :
  \E how \in One(<<"prices", "prices", "prices", "BSy", "Qxy", "order">>) :
  \E swap \in Flip(3) : \E lower \in Flip(4) :
  \E odd \in {RandomElement(1 .. 30)} :
  LET S  == RMul(B, w)
      zz == IF odd = 1 THEN "0" ELSE z
      y  == IF odd = 2 THEN RMul(z, "11/10") ELSE IF odd = 3 THEN RNeg("1") ELSE RMul(zz, f)
      o  == [tkn |-> tkn, base |-> pair.base, quote |-> pair.quote, B |-> IF odd = 4 THEN "0" ELSE B, S |-> IF odd = 4 THEN "0" ELSE S, z |-> zz, y |-> y]
      h  == IF odd = 4 THEN "BSy" ELSE IF (odd = 1 \/ odd = 3) /\ how # "BSy" THEN "prices" ELSE how
      hi == IF odd = 4 THEN "0" ELSE Quoted(o, PHigh(o))  lo == IF odd = 4 THEN "0" ELSE Quoted(o, PLow(o))
      badargs == RGt(y, zz) \/ RLt(y, "0")
      a  == [tkn |-> tkn, lower |-> lower, how |-> h, pa |-> IF swap THEN lo ELSE hi, pb |-> IF swap THEN hi ELSE lo,
             B |-> o.B, S |-> o.S, z |-> zz, y |-> y,
             Q |-> IF odd = 4 THEN "1" ELSE RDiv(B, RAdd(B, S)), xint |-> IF odd = 4 \/ Zero(zz) THEN "1" ELSE XInt(o)]
  IN IF badargs /\ h \in {"BSy", "order"}                \* these do not validate
     THEN FALSE
     ELSE /\ hist' = Append(hist, [op |-> "make", a |-> a])
          /\ orders' = IF badargs THEN orders ELSE Append(orders, o)
          /\ UNCHANGED <<pair, linked>>

Sane(x) == IF RBits(x) > 200 THEN RTrim(x) ELSE x
Trim(o) == [o EXCEPT !.y = RTrim(@), !.z = RTrim(@)]

Put(k, r, execute) ==
  IF ~execute \/ ~r.ok \/ (linked /\ RLt(r.dx, "0")) THEN orders
  ELSE LET s == [orders EXCEPT ![k].y = r.y, ![k].z = r.z]
       IN [j \in DOMAIN s |-> Trim(IF linked /\ j # k THEN Credit(s[j], r.dx) ELSE s[j])]

Rel(o, how, f) ==          \* an amount of y
  CASE how = 1 -> RMul(o.y, f)
    [] how = 2 -> o.y
    [] how = 3 -> RNeg(RMul(RSub(o.z, o.y), f))
    [] how = 4 -> RMul(o.y, "3/2")
    [] how = 5 -> RNeg(RMul(o.z, f))
    [] how = 6 -> "0"
    [] how = 7 -> "1/1000000000000"
    [] how = 8 -> RMul(o.y, RDiv(f, "10"))
    [] how = 9 -> RMul(o.y, RSub("1", RDiv(f, "20000")))
    [] OTHER -> RMul(o.y, RDiv(f, "1000"))

PriceOf(o, how, f) ==       \* a price in the convention of the pair
  LET c == IF Zero(o.z) THEN PHigh(o) ELSE PAt(o, o.y) IN
  Quoted(o, CASE how = 1 -> PHigh(o)
              [] how = 2 -> PLow(o)
              [] how = 3 -> c
              [] how = 4 -> RMul(PHigh(o), "5/4")
              [] how = 5 -> RMul(PLow(o), "3/4")
              [] how = 6 -> RAdd(PLow(o), RMul(RDiv(f, "20000"), RSub(c, PLow(o))))
              [] how = 8 -> RSub(c, RMul(RDiv(f, "20000"), RSub(c, PLow(o))))
              [] how = 7 -> RAdd(PLow(o), RMul(f, RSub(PHigh(o), PLow(o))))
              [] OTHER -> RAdd(PLow(o), RMul(f, RSub(c, PLow(o)))))

AmtFr == <<"1/2", "1/3", "1/10", "99/100", "1/1000", "2/3", "7/8">>

Trade ==
  \E k \in {RandomElement(DOMAIN orders)} :
  \E kind \in One(<<"sell", "sell", "buy", "buy", "to", "to", "to", "add">>) :
  \E how \in {RandomElement(1 .. 12)} : \E f \in One(AmtFr) :
  \E execute \in {~Pct(25)} : \E allowneg \in {Pct(60)} : \E roe \in {Pct(30)} :
  \E whole \in {Pct(8)} : \E expand \in {~Pct(30)} :
  LET o  == orders[k]
      dy == Rel(o, how, f)
      live == ~Disabled(o) /\ ~Zero(o.z)
      dx == IF ~live THEN "1" ELSE IF RLt(dy, "0") /\ ~(how = 5 /\ expand) THEN RNeg(RMul(XAt(o, o.y), f))
            ELSE IF RGt(dy, o.y) THEN RMul(XInt(o), IF f = "1/2" THEN "-5" ELSE "2") ELSE DxFromDy(o, dy)
      p  == IF Disabled(o) THEN "1" ELSE PriceOf(o, how, f)
      r  == CASE kind = "sell" -> SellOutcomeX(o, dy, allowneg, expand)
              [] kind = "buy" -> BuyOutcomeX(o, dx, allowneg, expand)
              [] kind = "to" -> TradeToOutcome(o, p)
              [] OTHER -> Refused(o)
      amt == CASE kind = "sell" -> dy [] kind = "buy" -> dx [] kind = "to" -> p [] OTHER -> dy
  IN /\ ~(kind = "to" /\ Disabled(o))
     /\ hist' = Append(hist, [op |-> kind, k |-> k, amt |-> Sane(amt), whole |-> whole /\ kind = "sell", execute |-> execute, allowneg |-> allowneg, roe |-> roe,
                              expand |-> expand])
     /\ orders' = IF whole /\ kind = "sell" THEN Put(k, SellOutcome(o, o.y, allowneg), execute)
                  ELSE IF kind = "add" THEN (IF RLt(dy, "0") THEN orders ELSE [orders EXCEPT ![k] = Trim(Credit(o, dy))])
                  ELSE Put(k, r, execute)
     /\ UNCHANGED <<pair, linked>>

Funs == <<"p_marg_f", "p_eff_f", "yfromp_f", "dyfromp_f", "dyfromdx_f", "dxfromdy_f", "xfromy_f", "yfromx_f", "share", "liq", "params", "cpc", "yzABS", "seek">>

Query ==
  \E k \in {RandomElement(DOMAIN orders)} :
  \E fn \in One(Funs) : \E how \in {RandomElement(1 .. 9)} : \E f \in One(AmtFr) : \E g \in One(AmtFr) : \E h2 \in {RandomElement(1 .. 9)} :
  \E full \in {Pct(30)} : \E check \in {Pct(70)} : \E roe \in {Pct(40)} : \E sx \in One(<<0, 32, 40, 48>>) :
  LET o  == orders[k]
      live == ~Disabled(o) /\ ~Zero(o.z)
      dy == Rel(o, how, f)
      p  == IF Disabled(o) THEN "1" ELSE PriceOf(o, how, f)
      p2 == IF Disabled(o) THEN "2" ELSE PriceOf(o, h2, g)
      x  == CASE fn \in {"p_marg_f", "p_eff_f", "dxfromdy_f"} -> dy
              [] fn \in {"yfromp_f", "dyfromp_f", "share", "liq"} -> p
              [] fn = "dyfromdx_f" -> IF ~live THEN "1" ELSE IF RLt(dy, "0") THEN RNeg(RMul(XAt(o, o.y), f)) ELSE IF RGt(dy, o.y) THEN RMul(XInt(o), "2") ELSE DxFromDy(o, dy)
              [] fn = "xfromy_f" -> RSub(o.y, dy)
              [] fn = "yfromx_f" -> IF ~live THEN "1" ELSE IF how = 3 THEN RMul(XInt(o), "11/10") ELSE IF how = 5 THEN RNeg(XInt(o)) ELSE RMul(XInt(o), f)
              [] fn = "seek" -> f
              [] OTHER -> "0"
  IN /\ live \/ fn \in {"p_marg_f", "share", "liq"}
     /\ hist' = Append(hist, [op |-> "query", k |-> k, fn |-> fn, x |-> Sane(x), x2 |-> Sane(p2), full |-> full, check |-> check, roe |-> roe, sx |-> sx,
                              bt |-> how % 2 = 0])
     /\ UNCHANGED <<orders, pair, linked>>

Nums == <<"1", "12345678", "1234567/1000", "1/3", "99999/100000", "-1234567/100", "5", "123456789/1000000", "-2/3", "1000000", "7654321/10">>
Static ==
  \E k \in One(<<"round", "round", "seek">>) : \E x \in One(Nums) : \E d \in {RandomElement(1 .. 7)} :
  \E lo \in One(<<"-10", "-1/2", "0", "1", "1/100", "-3000">>) : \E w \in One(<<"1", "11", "3000", "1/5">>) : \E f \in One(AmtFr) :
     /\ hist' = Append(hist, [op |-> "static", fn |-> k, x |-> x, d |-> d, lo |-> lo, hi |-> RAdd(lo, w), root |-> RAdd(lo, RMul(w, f))])
     /\ UNCHANGED <<orders, pair, linked>>

Next ==
  /\ n <= Depth /\ n' = n + 1
  /\ IF n = 0 THEN Setup
     ELSE IF Len(orders) < 2 /\ (n <= 2 \/ Len(orders) = 0) THEN Make
     ELSE IF Len(orders) < 2 /\ n = 3 THEN Make
     ELSE IF PROFILE = "query" THEN (IF Pct(20) THEN Trade ELSE IF Pct(8) THEN Static ELSE Query)
     ELSE IF PROFILE = "build" THEN (IF Len(orders) < 4 /\ Pct(60) THEN Make ELSE IF Pct(50) THEN Query ELSE Static)
     ELSE IF Pct(85) THEN Trade ELSE Query

Emit == n = Depth + 1 => PrintT("PLAN " \o ToJson([pair |-> pair, linked |-> linked, ops |-> hist]))
Spec == Init /\ [][Next]_vars
=============================================================================
