------------------------------ MODULE MC_Sim ------------------------------
(* Exhaustive exploration of Sim over small menus; all price ratios are    *)
(* squares of rationals, so every quantity below is exact.                 *)
EXTENDS Sim, Json

St(tkn, base, quote, a, s0, s1, b, b0, b1) ==
  [tkn |-> tkn, base |-> base, quote |-> quote, amt_sell |-> a, psell_start |-> s0, psell_end |-> s1,
   amt_buy |-> b, pbuy_start |-> b0, pbuy_end |-> b1, psell_marginal |-> None, pbuy_marginal |-> None,
   y_int_sell |-> None, y_int_buy |-> None, cid |-> ""]

\* nothing here buys above 9/4 or sells below 4 USDC per ETH: the book is never crossed
S1 == St("ETH", "ETH", "USDC", "10", "4", "9", "20", "9/4", "1")
S2 == St("ETH", "ETH", "USDC", "5", "25/4", "25/4", None, None, None)                 \* flat, one sided
S3 == St("USDC", "USDC", "ETH", "1/2", "4/9", "1", "3/10", "1/4", "1/9")              \* reverse quotation, small
S4 == [St("ETH", "ETH", "USDC", "2", "4", "16", "3", "1", "1/4") EXCEPT !.y_int_sell = "4", !.pbuy_marginal = "9/16"]
S5 == [St("ETH", "ETH", "USDC", "2", "4", "16", "3", "1", "1/4") EXCEPT !.y_int_buy = "1"]   \* refused
S6 == St("ETH", "ETH", "USDC", None, None, None, "7", "9/4", "9/4")                    \* flat buy order only
S7 == St("ETH", "ETH", "BTC", "1", "4", "9", "2", "9/4", "1")                          \* other pair
S8 == St("ETH", "ETH", "USDC", "3", "4", None, "2", "9/4", "1")                        \* refused

Tr(out, byT, amt) ==
  [base |-> "ETH", quote |-> "USDC", out |-> out, byT |-> byT, amt |-> amt, useall |-> TRUE, use |-> {},
   partial |-> FALSE, method |-> "exact", thr |-> 10, limit |-> None, limamt |-> None, execute |-> TRUE, inpair |-> TRUE]

T01 == Tr("ETH", TRUE, "1")
T02 == Tr("ETH", TRUE, "7")
T03 == Tr("ETH", FALSE, "30")
T04 == Tr("USDC", TRUE, "5")
T05 == Tr("USDC", FALSE, "2")
T06 == [Tr("ETH", TRUE, "1000") EXCEPT !.partial = TRUE]
T07 == [Tr("USDC", FALSE, "1000") EXCEPT !.partial = TRUE]
T08 == [Tr("ETH", TRUE, "2") EXCEPT !.limit = "9/2"]
T09 == [Tr("USDC", FALSE, "3") EXCEPT !.limamt = "5"]
T10 == [Tr("ETH", FALSE, "12") EXCEPT !.execute = FALSE]
T11 == [Tr("ETH", TRUE, "3") EXCEPT !.useall = FALSE, !.use = {0, 3}]
T12 == [Tr("ETH", TRUE, "4") EXCEPT !.method = "fast"]
T13 == [Tr("USDC", FALSE, "4") EXCEPT !.method = "fast", !.base = "USDC", !.quote = "ETH"]
T14 == [Tr("ETH", FALSE, "45") EXCEPT !.method = "fast", !.limamt = "8"]
T15 == Tr("ETH", TRUE, "100000")

MCStrategies == {S1, S2, S3, S4, S5, S6, S7, S8}
MCStrategiesQ == {S1, S2, S3, S4, S5}
MCTrades == {T01, T02, T03, T04, T05, T06, T07, T08, T09, T10, T11, T12, T13, T14, T15}
=============================================================================
