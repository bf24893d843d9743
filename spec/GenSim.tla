------------------------------- MODULE GenSim -------------------------------
(***************************************************************************)
(* Generates histories of simulator calls: TLC simulates the order book of *)
(* SimCore, draws the arguments of every call from wide menus, relative to *)
(* the state reached so far (amounts at and around the capacity of the     *)
(* book and its break points, limits around the price of the trade, ...),  *)
(* and prints each history as one line of JSON.                            *)
(***************************************************************************)
EXTENDS SimCore, Json, IOUtils, SequencesExt

CONSTANTS Depth
PROFILE == IOEnv.PROFILE
\* crowds: many overlapping orders of one pair, and trades that mostly are quotes
Crowd == PROFILE \in {"crowd-exact", "crowd-fast", "crowd-alpha", "probe-crowd"}
MMS == CASE PROFILE \in {"exact", "crowd-exact"} -> <<"exact">>
         [] PROFILE \in {"fast", "crowd-fast"} -> <<"fast">>
         [] PROFILE \in {"alpha", "crowd-alpha"} -> <<"alpha">>
         [] OTHER -> <<"exact", "exact", "exact", "fast", "fast", "alpha">>

VARIABLES book, made, n, hist, mm, dpair, mid
vars == <<book, made, n, hist, mm, dpair, mid>>

One(s) == {s[RandomElement(DOMAIN s)]}             \* a random member of a sequence, for \E
Flip(k) == {RandomElement(1 .. k) = 1}             \* TRUE with probability 1/k
RPick(s) == s[RandomElement(DOMAIN s)]

NoPair == [base |-> None, quote |-> None]
PEU == [base |-> "ETH", quote |-> "USDC"]
PUE == [base |-> "USDC", quote |-> "ETH"]
PEB == [base |-> "ETH", quote |-> "BTC"]
PLU == [base |-> "LINK", quote |-> "USDC"]
\* two pairs with the same concatenated name
PU1 == [base |-> "USDC", quote |-> "USD"]
PU2 == [base |-> "USD", quote |-> "CUSD"]

Nice(a) == IF RGt(a, "1000") THEN RDiv(RFloor(RMul(a, "100")), "100")
           ELSE RDiv(RCeil(RMul(a, "10000000")), "10000000")

Steps == <<"1/100", "1/20", "1/5", "1/2", "1", "3">>
NearBy == <<"1/100", "1/20", "1/10", "3/20", "1/3", "51/1000">>
Broad == <<"1/10", "1/5", "1/3", "1", "1", "4", "1/100", "0">>
Widths == <<"0", "1/2000", "1/100000", "1/100", "1/10", "1/3", "1", "4", "15">>
Amts == <<"1/8", "1/2", "1", "2", "3", "10", "33", "250", "1000", "7/10", "1/1000", "12345/100">>

Init == /\ mm = "" /\ dpair = NoPair /\ mid = "1"
        /\ book = <<>> /\ made = 0 /\ n = 0 /\ hist = <<>>

Setup == /\ \E m \in One(MMS) : mm' = m
         /\ \E p \in One(IF Crowd THEN <<PEU>> ELSE <<PEU, PEU, PEU, NoPair, PUE>>) : dpair' = p
         /\ \E p \in One(<<"1", "3/2", "1500", "1/200", "2000">>) : mid' = p
         /\ UNCHANGED <<book, made, hist>>

Mid(p) == IF p.base = "USDC" /\ p.quote = "ETH" THEN RDiv("1", mid) ELSE IF p.quote = "USDC" THEN mid ELSE "2"

\* an order: range, capacity; (lo, hi) in the convention of the pair, above (up) or below mid
PRange(m, up, d, w) == IF up THEN <<RMul(m, RAdd("1", d)), RMul(m, RMul(RAdd("1", d), RAdd("1", w)))>>
                      ELSE <<RDiv(m, RMul(RAdd("1", d), RAdd("1", w))), RDiv(m, RAdd("1", d))>>

LegArgs(m, up) ==            \* a set with one random leg [amt, ps, pe, pm, yi]
  {LET r == PRange(m, up # c, d, w)
       a == IF k = 7 \/ (k \in {5, 8, 9} /\ PROFILE = "delete") THEN "0" ELSE RMul(x, IF RGt(m, "10") /\ ~up THEN m ELSE "1")
       none == k \in {1, 2}
       pm == k = 3 /\ ~REq(w, "0")
       yi == k \in {4, 5, 6}
   IN [amt |-> IF none /\ o THEN None ELSE a,
       ps  |-> IF none THEN None ELSE IF s THEN r[1] ELSE r[2],
       pe  |-> IF none THEN None ELSE IF s THEN r[2] ELSE r[1],
       pm  |-> IF pm THEN RAdd(r[1], RMul(q, RSub(r[2], r[1]))) ELSE None,
       yi  |-> IF ~yi THEN None ELSE IF Zero(a) THEN f ELSE RMul(a, f)]
   : x \in One(Amts), d \in One(IF Crowd THEN NearBy ELSE Steps), w \in One(IF Crowd THEN Broad ELSE Widths),
     k \in {RandomElement(IF Crowd THEN 3 .. 12 ELSE 1 .. 12)}, c \in Flip(6),
     s \in Flip(2), o \in Flip(2), q \in One(<<"1/10", "1/2", "9/10">>), f \in One(<<"1", "5/4", "2", "10">>)}

Spoil(a, k) ==               \* invalid arguments
  CASE k = 1 -> [a EXCEPT !.y_int_sell = IF a.amt_sell = None THEN "1" ELSE RDiv(a.amt_sell, "2"), !.amt_sell = IF a.amt_sell = None THEN "2" ELSE a.amt_sell, !.psell_marginal = None]
    [] k = 2 -> [a EXCEPT !.y_int_buy = "1/100", !.pbuy_marginal = None, !.amt_buy = "1"]
    [] k = 3 -> [a EXCEPT !.psell_end = None]
    [] k = 4 -> [a EXCEPT !.pbuy_start = None]
    [] k = 5 -> [a EXCEPT !.y_int_buy = "1000000", !.pbuy_marginal = IF a.pbuy_start = None THEN "1" ELSE a.pbuy_start]
    [] k = 6 -> [a EXCEPT !.tkn = "DAI"]
    [] OTHER -> a

Args(tkn, s, b, cid) ==
  [tkn |-> tkn, amt_sell |-> s.amt, psell_start |-> s.ps, psell_end |-> s.pe, psell_marginal |-> s.pm, y_int_sell |-> s.yi,
   amt_buy |-> b.amt, pbuy_start |-> b.ps, pbuy_end |-> b.pe, pbuy_marginal |-> b.pm, y_int_buy |-> b.yi, cid |-> cid]

NoneLeg == [amt |-> None, ps |-> None, pe |-> None, pm |-> None, yi |-> None]

AddPairs == IF PROFILE = "twins" THEN <<PU1, PU2>> ELSE IF Crowd THEN <<PEU>> ELSE IF PROFILE = "approx" THEN <<NoPair, PEU, PEU, PUE, PLU, PLU>> ELSE <<NoPair, NoPair, PEU, PEU, PUE, PEB>>

DoAdd ==
  \E p0 \in One(AddPairs) :
  \E p \in {IF p0 = NoPair /\ dpair = NoPair THEN PEU ELSE p0} :
  LET pr == IF p = NoPair THEN dpair ELSE p IN
  \E tkn \in One(<<pr.base, pr.base, pr.quote>>) :
  \E s \in LegArgs(Mid(pr), tkn = pr.base) :
  \E b0 \in LegArgs(Mid(pr), tkn # pr.base) :
  \E how \in One(<<"strategy", "strategy", "strategy", "order">>) :
  \E k \in One(IF Crowd THEN <<0>> ELSE IF PROFILE = "create" THEN <<0, 0, 1, 2, 3, 4, 5, 6>> ELSE <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6>>) :
  \E cid \in One(<<"", "", "c77">>) :
  LET ord == how = "order"
      b  == IF ord THEN NoneLeg ELSE b0
      a1 == IF ord THEN Args(tkn, s, b, IF ord THEN "" ELSE cid)
            ELSE Spoil(Args(tkn, s, b, cid), k)
      a  == [base |-> pr.base, quote |-> pr.quote] @@ a1
      r  == AddRefused(a)
  IN /\ hist' = Append(hist, [op |-> "add", pair |-> p, a |-> a1, how |-> how])
     /\ book' = IF r THEN book ELSE book @@ AddOrders(a, made, made + 1)
     /\ made' = IF r THEN made ELSE made + 2

DoDel ==
  \E i \in {RandomElement(0 .. made)} :
  \E how \in One(<<"order", "strategy">>) :
     /\ hist' = Append(hist, [op |-> "del", id |-> i, how |-> how])
     /\ book' = Delete(book, i)
     /\ made' = made

DoLiq == hist' = Append(hist, [op |-> "liq"]) /\ UNCHANGED <<book, made>>

DoView ==
  \* one pair, or several, some of which are not in the book but have names that overlap with one that is
  LET isos == {book[i].base \o book[i].quote : i \in DOMAIN book} IN
  \E iso \in {RandomElement(isos)} : \E j \in {RandomElement(DOMAIN book)} : \E k \in {RandomElement(1 .. 6)} :
     LET b == book[j].base  q == book[j].quote
         is == CASE k = 1 -> <<iso, "X" \o b, q \o "Y">>  [] k = 2 -> <<b \o q \o "Y", iso>>
                 [] k = 3 -> <<iso, b \o q>>  [] k = 4 -> <<iso, "X" \o b \o q>>  [] OTHER -> <<iso>>
     IN hist' = Append(hist, [op |-> "view", isos |-> is, aslist |-> k >= 5]) /\ UNCHANGED <<book, made>>

Fracs == <<"1/1000", "1/50", "1/7", "2/5", "4/5", "99/100", "1", "101/100", "2", "1/3", "1/10">>

TradePairs == IF PROFILE = "twins" THEN <<PU1, PU2>> ELSE IF Crowd THEN <<PEU>> ELSE <<NoPair, NoPair, PEU, PEU, PUE, PEB>>

TradeAmt(C, byT, how, f) ==
  IF DOMAIN C = {} THEN "1"
  ELSE LET cap == Capacity(C, byT)
           lev == RandomElement(Levels(C))
           one == RandomElement(DOMAIN C)
       IN CASE how \in {1, 2, 3, 4} -> Nice(RMul(cap, f))
            [] how = 5 -> Nice(MktLo(C, lev, byT))
            [] how \in {9, 10} -> Nice(RMul(MktLo(C, lev, byT), RAdd("1", RDiv(f, IF how = 9 THEN "1000" ELSE "20"))))   \* just past a level
            [] how = 6 -> Nice(Qty(C[one], C[one].y, byT))
            [] how = 7 -> cap
            [] OTHER -> RMul(Qty(C[one], C[one].y, byT), "1000001/1000000")

DoTrade ==
  \E p0 \in One(TradePairs) :
  \E p \in {IF p0 = NoPair /\ dpair = NoPair THEN PEU ELSE p0} :
  LET pr == IF p = NoPair THEN dpair ELSE p IN
  \E out \in One(<<pr.base, pr.quote>>) :
  \E byT \in Flip(2) :
  \E neg \in Flip(6) :
  \E trader \in Flip(2) :
  \E useall \in {RandomElement(1 .. (IF Crowd THEN 12 ELSE 4)) # 1} :
  \E use \in {IF RandomElement(1 .. 6) = 1 THEN {} ELSE RandomElement(SUBSET (0 .. made))} :
  LET inn == Other(pr.base, pr.quote, out)
      t0 == [base |-> pr.base, quote |-> pr.quote, out |-> out, byT |-> byT, amt |-> "1", useall |-> useall, use |-> use,
             partial |-> FALSE, method |-> mm, thr |-> 10, limit |-> None, limamt |-> None, execute |-> TRUE, inpair |-> TRUE]
      C == Curves(book, Eligible(book, t0))
  IN
  \E how \in {RandomElement(1 .. 10)} :
  \E fr \in One(Fracs) :
  \E amt0 \in {TradeAmt(C, byT, how, fr)} :
  \E amt \in {IF Pos(amt0) THEN amt0 ELSE "1"} :
  \E partial \in Flip(3) :
  \E thr \in One(<<1, 2, 3, 10>>) :
  \E lim \in {RandomElement(1 .. (IF Crowd THEN 30 ELSE IF PROFILE = "limit" THEN 5 ELSE 12))} :
  \E lf \in One(<<"1/2", "9/10", "999/1000", "1001/1000", "11/10", "2">>) :
  \E execute \in {IF Crowd THEN RandomElement(1 .. 5) = 1 ELSE RandomElement(1 .. (IF PROFILE = "quote" THEN 2 ELSE 4)) # 1} :
  \E odd \in {RandomElement(1 .. 60)} :
  LET t1 == [t0 EXCEPT !.amt = amt, !.partial = partial]
      ref == TradeRefused(book, t1)
      f  == IF ref THEN <<>> ELSE Fill(C, amt, byT, IF mm = "fast" THEN "fast" ELSE "exact")
      g  == Dx(C, f)
      dy == RSumF(f, DOMAIN f)  dx == RSumF(g, DOMAIN g)
      pa == IF ref THEN "1" ELSE AvgPrice(t1, dy, dx)
      lp == IF lim \in {1, 2} \/ odd = 3 THEN Nice(RMul(pa, lf)) ELSE None
      la == IF lim = 3 \/ odd = 3 THEN Nice(RMul(IF ref THEN "1" ELSE IF byT THEN dx ELSE dy, lf)) ELSE None
      t  == [t1 EXCEPT !.limit = lp, !.limamt = la, !.execute = execute]
      sells == byT # neg
      arg == [f |-> IF sells THEN (IF trader THEN "trader_buys" ELSE "amm_sells") ELSE (IF trader THEN "trader_sells" ELSE "amm_buys"),
              tkn |-> IF odd = 1 THEN "DAI" ELSE IF byT THEN out ELSE inn,
              amt |-> IF odd = 4 THEN "0" ELSE IF neg THEN RNeg(amt) ELSE amt, pair |-> p, execute |-> execute, inpair |-> odd # 2,
              limit |-> lp, limamt |-> la, thr |-> thr, useall |-> useall, use |-> SetToSeq(use), partial |-> partial]
      b1 == Apply(book, f, g)
  IN /\ hist' = IF ~execute /\ ~Crowd THEN hist \o <<[op |-> "trade", arg |-> arg], [op |-> "trade", arg |-> [arg EXCEPT !.execute = TRUE]]>>
                ELSE Append(hist, [op |-> "trade", arg |-> arg])
     /\ book' = IF ~ref /\ odd \notin {1, 2, 3, 4} /\ LimitMet(t, pa) /\ (execute \/ ~Crowd) THEN [i \in DOMAIN b1 |-> [b1[i] EXCEPT !.y = RTrim(@), !.z = RTrim(@)]] ELSE book
     /\ made' = made

Adds == IF PROFILE = "create" THEN 5 ELSE IF Crowd THEN 4 ELSE 2 + (IF PROFILE = "deep" THEN 3 ELSE 1)

Op ==
  \E k \in {RandomElement(1 .. 20)} :
     IF n <= Adds \/ DOMAIN book = {} THEN DoAdd
     ELSE IF n = Depth /\ k < 10 THEN DoLiq
     ELSE CASE k = 1 -> DoLiq
            [] k = 2 -> DoView
            [] k \in {3, 4} /\ ~Crowd -> DoDel
            [] k = 5 -> DoAdd
            [] (k \in {6, 7, 8} /\ PROFILE = "delete") -> DoDel
            [] OTHER -> DoTrade

Next ==
  /\ n <= Depth /\ n' = n + 1
  /\ IF n = 0 THEN Setup ELSE Op /\ UNCHANGED <<mm, dpair, mid>>

Emit == n = Depth + 1 => PrintT("PLAN " \o ToJson([mm |-> mm, dpair |-> dpair, ops |-> hist,
                                                 mode |-> IF n = 0 THEN "" ELSE RPick(<<"plain", "plain", "raise", "raise", "verbose", "debug", "loud">>)]))
Spec == Init /\ [][Next]_vars
=============================================================================
