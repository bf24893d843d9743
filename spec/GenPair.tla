------------------------------ MODULE GenPair -------------------------------
(* Generates ways of building a pair, followed by questions about it. *)
EXTENDS PairCore, Integers, Json, IOUtils

CONSTANT Depth
PROFILE == IOEnv.PROFILE
VARIABLES p, n, hist
vars == <<p, n, hist>>

One(s) == {s[RandomElement(DOMAIN s)]}
Pct(k) == RandomElement(1 .. 100) <= k

\* a token and the ways it may be written
Tk == << [up |-> "ETH", as |-> "eth"], [up |-> "ETH", as |-> "ETH"], [up |-> "USDC", as |-> "USDC"], [up |-> "USDC", as |-> "usdc"],
         [up |-> "USD", as |-> "USD"], [up |-> "CUSD", as |-> "cUSD"], [up |-> "CUSD", as |-> "CUSD"], [up |-> "WETH", as |-> "wEth"],
         [up |-> "WBTC", as |-> "WBTC"], [up |-> "BTC", as |-> "btc"], [up |-> "DAI", as |-> "DAI"], [up |-> "NEAR", as |-> "NEAR"],
         [up |-> "X", as |-> "x"], [up |-> "W", as |-> "W"], [up |-> "OX", as |-> "OX"], [up |-> "1INCH", as |-> "1inch"] >>
Decs == <<-1, 0, 6, 8, 18, 18>>             \* -1: not given

Hows == <<"slash", "slash", "tokens", "tokens", "create1", "create2", "iso", "isotkn", "isotkn", "fromslash", "fromslash">>

Make ==
  \E b \in One(Tk) : \E q \in One(SelectSeq(Tk, LAMBDA z : z.up # b.up)) : \E how \in One(Hows) :
  \E db \in One(Decs) : \E dq \in One(Decs) : \E display \in {Pct(40)} : \E copy \in One(<<"no", "no", "ctor", "create">>) :
  \E which \in {RandomElement(1 .. 2)} : \E bad \in One(<<"no", "no", "no", "no", "no", "inside", "foreign", "three", "one", "both", "whole", "half">>) :
  \E usedct \in {Pct(30)} :

     /\ hist' = Append(hist, [op |-> "make", how |-> how, b |-> b, q |-> q, db |-> db, dq |-> dq, display |-> display, copy |-> copy,
                              which |-> which, bad |-> bad, usedct |-> usedct])
     /\ p' = [base |-> b.up, quote |-> q.up]

Prices == <<"1", "2000", "1/2000", "3/2", "1234567/1000", "1/3", "1999", "1/2", "100000000", "1/100000000">>
Amts   == <<"0", "1", "-3", "1/7", "1000000", "5/2">>
Toks   == <<p.base, p.quote, p.base, p.quote, "DAI", "USD">>

Ask ==
  \E fn \in One(<<"convert", "convert", "price", "convert_price", "limit", "limit", "limit", "limit", "other", "attrs", "reverse">>) :
  \E a \in One(Amts) : \E x \in One(Prices) : \E y0 \in One(Prices) : \E near \in {RandomElement(1 .. 4)} :
  \E t \in One(Toks) : \E u \in One(Toks) : \E side \in One(<<"buy", "sell">>) : \E rev \in {Pct(50)} : \E phrase \in {Pct(15)} :
  LET y == IF near = 1 THEN x ELSE IF near = 2 THEN RMul(x, "1001/1000") ELSE IF near = 3 THEN RMul(x, "999/1000") ELSE y0
  IN hist' = Append(hist, [op |-> fn, a |-> a, x |-> RCanon(x), y |-> RCanon(y), t |-> t, u |-> u, side |-> side, rev |-> rev,
                           phrase |-> phrase, none |-> near = 4 /\ phrase]) /\ p' = p

Init == p = [base |-> "ETH", quote |-> "USDC"] /\ n = 0 /\ hist = <<>>
Next == /\ n <= Depth /\ n' = n + 1
        /\ IF n = 0 \/ (PROFILE = "make" /\ Pct(60)) \/ Pct(10) THEN Make ELSE Ask
Emit == n = Depth + 1 => PrintT("PLAN " \o ToJson([ops |-> hist]))
Spec == Init /\ [][Next]_vars
=============================================================================
