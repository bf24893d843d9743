------------------------------ MODULE MC_Pair -------------------------------
(* Exhaustive check of PairCore: every operator, every side, both quotations. *)
EXTENDS PairCore

VARIABLES p, cur, lim, amt, t, side
vars == <<p, cur, lim, amt, t, side>>

Tokens == {"ETH", "USDC", "BTC"}
Prices == {"1/2000", "2/3", "1", "3/2", "2000", "2001"}

Init == /\ p \in {[base |-> b, quote |-> q] : b, q \in Tokens} /\ p.base # p.quote
        /\ cur \in Prices /\ lim \in Prices /\ amt \in {"0", "1/7", "1", "12"}
        /\ t \in Tokens /\ side \in {"buy", "sell"}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

R == Reverse(p)
\* converting there and back; the same amounts whichever way round the pair is quoted
RoundTrip == \A u \in Tokens : Has(p, t) /\ Has(p, u) =>
   /\ REq(Convert(p, Convert(p, amt, t, u, cur), u, t, cur), amt)
   /\ REq(Convert(R, amt, t, u, Inv(cur)), Convert(p, amt, t, u, cur))
\* a price is the value of one base token
PriceIsValue == Convert(p, "1", p.base, p.quote, cur) = cur
NormalOK == \A b, q \in Tokens :
   /\ (Normal(p, cur, b, q) = None) = ~({b, q} = {p.base, p.quote})
   /\ {b, q} = {p.base, p.quote} => /\ REq(Normal(p, cur, b, q), Inv(Normal(p, cur, q, b)))
                                    /\ REq(Normal(p, cur, b, q), InConvention(p, cur, q))
                                    /\ REq(Normal(R, cur, b, q), Inv(Normal(p, cur, b, q)))
\* limits: one side or the other; buying one token is selling the other; the quotation does not matter
LimitOK == Has(p, t) =>
   /\ LimitMet(p, t, lim, side, cur, FALSE) \/ LimitMet(p, t, lim, Opposite(side), cur, FALSE)
   /\ cur # lim => ~(LimitMet(p, t, lim, side, cur, FALSE) /\ LimitMet(p, t, lim, Opposite(side), cur, FALSE))
   /\ LimitMet(p, t, lim, side, cur, FALSE) = LimitMet(p, OtherTkn(p, t), lim, Opposite(side), cur, FALSE)
   /\ LimitMet(p, t, lim, side, cur, TRUE) = LimitMet(p, t, lim, Opposite(side), cur, FALSE)
   /\ LimitMet(p, t, lim, side, cur, FALSE) = LimitMet(R, t, Inv(lim), side, Inv(cur), FALSE)
   \* whoever buys t at a met limit pays at most what the limit allows
   /\ side = "buy" /\ LimitMet(p, t, lim, side, cur, FALSE) =>
        RLe(Convert(p, "1", t, OtherTkn(p, t), cur), Convert(p, "1", t, OtherTkn(p, t), lim))
OtherOK == /\ OtherTkn(p, OtherTkn(p, t)) = (IF Has(p, t) THEN t ELSE None) /\ Reverse(R) = p
=============================================================================
