------------------------------ MODULE PairCore ------------------------------
(***************************************************************************)
(* A token pair and its price convention: a price is an amount of the      *)
(* quote token per unit of the base token.  A pair is a record with at     *)
(* least the fields base and quote.                                        *)
(***************************************************************************)
EXTENDS Rat, Naturals, Sequences, FiniteSets, TLC

None == "None"
Inv(p) == RDiv("1", p)

Has(p, t) == t \in {p.base, p.quote}
OtherTkn(p, t) == IF t = p.base THEN p.quote ELSE IF t = p.quote THEN p.base ELSE None
Reverse(p) == [p EXCEPT !.base = p.quote, !.quote = p.base]

\* amount of token to which amt of token from is worth at this price
Convert(p, amt, from, to, price) ==
  IF ~Has(p, from) \/ ~Has(p, to) THEN None
  ELSE IF from = to THEN amt
  ELSE IF from = p.base THEN RMul(amt, price) ELSE RDiv(amt, price)

\* a price quoted as q0 per b0, in the convention of the pair
Normal(p, price0, b0, q0) ==
  IF ~Has(p, b0) \/ ~Has(p, q0) \/ b0 = q0 THEN None
  ELSE IF b0 = p.base THEN price0 ELSE Inv(price0)

\* a price in numeraire tknq, in the convention of the pair
InConvention(p, price, tknq) ==
  IF price = None \/ ~Has(p, tknq) THEN None ELSE IF tknq = p.quote THEN price ELSE Inv(price)

(* A limit order for token t is executed iff the price is at the limit or better for whoever placed it. *)
Opposite(side) == IF side = "buy" THEN "sell" ELSE "buy"
LimitMet(p, t, limit, side, cur, reversed) ==
  LET s == IF reversed THEN Opposite(side) ELSE side
      \* is a lower price (quote per base) better for the placer?
      lower == (s = "buy") = (t = p.base)
  IN IF ~Has(p, t) THEN None
     ELSE IF REq(cur, limit) THEN TRUE
     ELSE IF lower THEN RLt(cur, limit) ELSE RGt(cur, limit)
=============================================================================
