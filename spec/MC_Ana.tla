------------------------------- MODULE MC_Ana -------------------------------
(* Exhaustive check of AnaCore on small tables and books: the numerical order book of the       *)
(* quotes of a book of curves has ordered prices, and liquidity that adds up to what is traded. *)
EXTENDS AnaCore

VARIABLES mode, tab, book, side, steps
vars == <<mode, tab, book, side, steps>>

O(tkn, lo, hi, y, z) ==   \* an order of the pair A/B, prices B per A
  Leg(tkn, "A", "B", y, lo, hi, None, z, 1, "")
Menu == {O("A", "4", "9", "10", None), O("A", "4", "16", "6", "12"), O("A", "9", "9", "5", None), O("A", "25", "36", "3", None),
         O("B", "1", "4", "10", None), O("B", "1/4", "4", "6", "12"), O("B", "1", "1", "5", None), O("B", "1/16", "1/4", "3", None)}
Books == {<<a>> : a \in Menu} \cup {<<a, b>> : a, b \in Menu} \cup {<<a, b, c>> : a, b, c \in Menu}
Sizes == {"1/2", "1", "2", "4", "7", "13", "16"}
Vals == {None, "1", "3"}
Tables == UNION {[s : {<<"1", "2", "5">>, <<"1", "2">>}, t : [1 .. k -> Vals]] : k \in 0 .. 4}

Init == /\ steps = 0
        /\ \/ mode = "cut" /\ tab \in Tables /\ book = <<>> /\ side = TRUE
           \/ mode = "book" /\ tab = [s |-> <<>>, t |-> <<>>] /\ book \in Books /\ side \in BOOLEAN

Trade(size) == Quoted("A", "B", "A", size, side, "exact")
Ok(size) == ~TradeRefused(book, Trade(size))
Amount(size) == LET r == TradeOf(book, Trade(size)) IN IF side THEN r.dx ELSE r.dy

Probe == /\ mode = "book" /\ steps < 7
         /\ steps' = steps + 1
         /\ LET z == <<"1/2", "1", "2", "4", "7", "13", "16">>[steps + 1] IN
            tab' = [s |-> Append(tab.s, z), t |-> Append(tab.t, IF Ok(z) THEN Amount(z) ELSE None)]
         /\ UNCHANGED <<mode, book, side>>
Next == Probe \/ (mode = "cut" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* cutting leaves a prefix of both, of the same length, whose last amount is there, and loses no amount that is there
CutOK == mode = "cut" =>
  LET c == Cut(tab.s, tab.t) IN
  /\ Len(c.s) = Len(c.t)
  /\ c.s = SubSeq(tab.s, 1, Len(c.s)) /\ c.t = SubSeq(tab.t, 1, Len(c.t))
  /\ (c.t # <<>> => c.t[Len(c.t)] # None)
  /\ \A k \in DOMAIN tab.t : k <= Len(tab.s) /\ tab.t[k] # None => k <= Len(c.t)

\* once a size is beyond the book, all greater ones are
Ends == mode = "book" => \A k \in 1 .. Len(tab.t) - 1 : tab.t[k] = None => tab.t[k + 1] = None

C0 == Cut(tab.s, tab.t)
\* asks get dearer with size, bids cheaper; the effective price lags behind the marginal price
OrderedPrices == mode = "book" =>
  LET m == MargPrices(C0.s, C0.t)  p == Prices(C0.s, C0.t) IN
  /\ \A k \in 1 .. Len(m) - 1 : IF side THEN RLe(m[k], m[k + 1]) ELSE RGe(m[k], m[k + 1])
  /\ \A k \in 1 .. Len(p) - 1 : IF side THEN RLe(p[k], p[k + 1]) ELSE RGe(p[k], p[k + 1])
  /\ \A k \in 1 .. Len(m) : IF side THEN RGe(m[k], p[k]) ELSE RLe(m[k], p[k])
\* the steps away from the market are not negative, and the liquidity over all of them is what is traded between the midpoints
LiquidityOK == mode = "book" =>
  LET d == Steps(C0.s, C0.t, side)  L == Liquidity(C0.s, C0.t, side)  e == Diff(C0.t)
      J == {k \in 1 .. Len(d) : ~Zero(d[k])} IN
  /\ \A k \in DOMAIN d : RGe(d[k], "0")
  /\ \A k \in J : RGe(L[k], "0") /\ REq(RMul(L[k], d[k]), Mids(e)[k])
\* the approximate liquidity over a grid that covers everything adds up to the balances; a bid-ask split loses nothing
Grid == <<"1/100", "1/4", "1", "3", "4", "10", "100">>
ApproxOK == mode = "book" /\ steps = 0 /\ (\A i \in DOMAIN book : ~REq(book[i].ps, book[i].pe)) =>
  \A tkn \in {"A", "B"} :
    LET L == Approx(book, "A", "B", tkn, Grid, tkn)  w == Diff(Grid)
        all == RSumF([k \in DOMAIN L |-> RMul(L[k], w[k])], DOMAIN L)
        I == {i \in DOMAIN book : book[i].tkn = tkn}
    IN REq(all, RSumF([i \in I |-> book[i].y], I))
=============================================================================
