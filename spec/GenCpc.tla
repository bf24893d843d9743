------------------------------- MODULE GenCpc -------------------------------
(* Generates curves, containers of them, questions about both, and markets to be arbitraged. *)
EXTENDS CpcCore, Integers, Json, IOUtils

CONSTANT Depth
PROFILE == IOEnv.PROFILE
VARIABLES n, hist
vars == <<n, hist>>

One(s) == {s[RandomElement(DOMAIN s)]}
Pick(s) == s[RandomElement(DOMAIN s)]
Pct(k) == RandomElement(1 .. 100) <= k

Devs == <<"1", "101/100", "99/100", "21/20", "10/11", "1001/1000", "11/10", "6/5">>
\* now and then curves are worlds apart
Far == <<"1", "1000", "1/1000", "50", "1/50", "7000", "1/100000">>
Vols == <<"1000", "10000", "123456", "50000", "1000000">>
Fees == <<"None", "0", "1/100", "3/1000">>

\* a curve between b and q, at (around) price p, with vol worth of liquidity; arb: no invalid ones, nothing odd
Fr == <<"None", "None", "1", "1/2", "1/10", "0">>
Below == <<"None", "1/2", "9/10", "99/100", "4/5", "1/10000000", "1/400">>
Above == <<"None", "2", "10/9", "101/100", "5/4", "3000000", "500">>
Act(f, v) == IF f = "None" THEN "None" ELSE RCanon(RMul(f, v))
Curve(b, q, p, vol, hows, arb) ==
  LET x == RDiv(vol, Worth[b])  y == RMul(p, x)  k == RMul(x, y)
      how == Pick(hows)
      plain == arb \/ Pct(50)
      f1 == IF plain THEN "None" ELSE Pick(Fr)  f2 == IF plain THEN "None" ELSE Pick(Fr)
      base == [how |-> how, b |-> b, q |-> q, fee |-> IF how \in {"uv2", "uv3"} THEN "3/1000" ELSE Pick(Fees), params |-> Pct(30), named |-> ~(Pct(15) /\ how # "uv2"),
               k |-> RCanon(k), x |-> RCanon(x), y |-> RCanon(y), p |-> RCanon(p), xa |-> Act(f1, x), ya |-> Act(f2, y)]
      lo == Pick(Below)  hi == Pick(Above)
      bad == ~arb /\ Pct(12)
      w == Pick(<<"1", "101/100", "11/10", "2", "3/2">>)
      sell == Pick(<<b, q>>)                                  \* the token a Carbon order sells
      dydx == IF sell = q THEN p ELSE Inv(p)                  \* its price, the other token per ...
      top == RMul(dydx, Pick(<<"1", "99/100", "101/100", "9/10">>))
  IN CASE how = "pkpp" -> base @@ [pmin |-> IF lo = "None" THEN "None" ELSE RMul(lo, p), pmax |-> IF hi = "None" THEN "None" ELSE RMul(hi, p)]
       [] how = "uv2" -> base @@ [skip |-> Pick(<<"k", "x", "y", IF bad THEN "none" ELSE "k", IF bad THEN "two" ELSE "x">>),
                                  miss |-> IF bad THEN Pick(<<"pair", "cid", "descr", "fee", "none">>) ELSE "none"]
       [] how = "uv3" -> base @@ [L |-> RMul(x, Pick(<<"1", "10">>)),
                                  pmin |-> RMul(IF lo = "None" THEN "1/4" ELSE lo, p),
                                  pmax |-> IF bad THEN RMul("1/2", p) ELSE RMul(IF hi = "None" THEN "4" ELSE hi, p)]
       [] how = "carb" -> base @@ [sell |-> sell, yint |-> IF sell = q THEN RMul(p, x) ELSE x,
                                   yf |-> Pick(<<"1", "1", "1/2", "1/10", IF arb THEN "1/3" ELSE "0", IF bad THEN "11/10" ELSE "1", IF bad THEN "-1/10" ELSE "1">>),
                                   pa |-> top, pb |-> IF bad THEN RMul(top, "2") ELSE RDiv(top, w),
                                   ab |-> Pct(30), flip |-> Pct(40), miss |-> IF bad THEN Pick(<<"none", "pa", "A", "both", "pair", "tkny", "foreign", "yint">>) ELSE "none"]
       [] OTHER -> base
Wild == <<"kx", "ky", "xy", "pk", "px", "py", "pkpp", "pkpp", "uv2", "uv2", "uv3", "uv3", "carb", "carb", "carb", "plain">>
Full == <<"kx", "ky", "xy", "pk", "px", "py", "uv2", "plain">>
Lev  == <<"pkpp", "uv3", "uv3", "uv2", "xy", "carb">>

New ==
  \E i, j \in {RandomElement(1 .. Len(Toks))} : \E d \in One(Devs) : \E v \in One(Vols) :
  \E how \in One(<<"iadd", "add", "list", "gen", "inv", "ctor", "dicts", "frame">>) :
  LET jj == IF i = j THEN (i % Len(Toks)) + 1 ELSE j IN
  hist' = Append(hist, [op |-> "new", into |-> how, c |-> Curve(Toks[i], Toks[jj], RMul(Rel(Toks[i], Toks[jj]), d), v, Wild, FALSE)])

Fracs == <<"0", "1/10", "-1/10", "1/2", "-1/2", "-9/10", "-1", "1", "3", "-99/100", "1/1000000">>
Exec == \E i \in {RandomElement(0 .. 9)} : \E f \in One(Fracs) : \E side \in One(<<"x", "y">>) : \E of \in One(<<"act", "act", "virtual", "max", "other">>) : \E w, ig \in {RandomElement(1 .. 100)} :
  hist' = Append(hist, [op |-> "exec", i |-> i, f |-> f, side |-> side, of |-> of, wrap |-> w <= 30, ignore |-> ig <= 15, both |-> ig = 50])
Fns == <<"xyfromp", "xyfromp", "dxdyfromp", "dxdyfromp", "yfromx", "xfromy", "dyfromdx", "dxfromdy">>
Ask == \E i \in {RandomElement(0 .. 9)} : \E fn \in One(Fns) : \E f \in One(<<"1/2", "1", "2", "9/10", "101/100", "1/100", "100", "3/2", "2/3", "None">>) :
       \E w, ig \in {RandomElement(1 .. 100)} : \E at \in One(<<"now", "now", "min", "max">>) :
  hist' = Append(hist, [op |-> "fn", i |-> i, fn |-> fn, f |-> f, wrap |-> w <= 40, ignore |-> ig <= 30, at |-> at, units |-> ig > 85])
Attrs == \E i \in {RandomElement(0 .. 9)} : \E w \in {Pct(40)} : \E m \in One(<<"1", "2", "1/3">>) : hist' = Append(hist, [op |-> "attrs", i |-> i, wrap |-> w, mult |-> m])

Sel(k) == [j \in 1 .. k |-> Pick(Toks)]
Qs == <<"cids", "tokens", "pairs", "pairs0", "tknxs", "tknys", "bypair", "bypair", "bypairs", "bypairs", "bytknx", "bytkny", "bytknxs", "bytknys", "bycids", "bycids",
        "bycid", "fp", "fp", "fp", "price", "price", "price", "pe", "pe", "pe", "pes", "table", "member", "dicts", "frame", "stats", "analysis", "analysis", "analysis", "analysis", "volumes", "pricelist", "plaggr", "listed", "pedata">>
Container == \E q \in One(Qs) : \E k \in {RandomElement(1 .. 3)} : \E flag, flag2, asis, mem \in {RandomElement(1 .. 100)} :
  \E cond \in One(<<"bothin", "onein", "contains", "notin", "tknbin", "tknbnotin", "tknqin", "tknqnotin">>) :
  \E cond2 \in One(<<"none", "none", "bothin", "onein", "notin", "tknbin", "tknqin", "tknqnotin">>) :
  hist' = Append(hist, [op |-> "ask", q |-> q, t |-> Sel(k), u |-> Sel(k), two |-> <<Pick(Toks), Pick(Toks)>>, flag |-> flag <= 50, flag2 |-> flag2 <= 50,
                        asis |-> asis <= 25, member |-> mem <= 80, ix |-> [j \in 1 .. 2 |-> RandomElement(0 .. 9)], cond |-> cond, cond2 |-> cond2])

(* markets: a connected set of tokens, prices that are not quite consistent *)
Market ==
  \E nt \in One(<<2, 2, 3, 4>>) : \E extra \in {RandomElement(1 .. 4)} : \E off \in {RandomElement(0 .. 7)} : \E kind \in One(<<"full", "full", "lev", "mixed">>) :
  LET T == [i \in 1 .. nt |-> Toks[((off + 3 * i) % Len(Toks)) + 1]]
      m == nt - 1 + extra
      \* (bound, so that chance decides only once)
  IN \E A \in {[i \in 1 .. m |-> IF i < nt THEN i + 1 ELSE RandomElement(1 .. nt)]} :
     \E B \in {[i \in 1 .. m |-> IF i < nt THEN RandomElement(1 .. i) ELSE IF A[i] = nt THEN RandomElement(1 .. nt - 1) ELSE RandomElement(A[i] + 1 .. nt)]} :
     \E S \in {[i \in 1 .. m |-> Pct(50)]} : \E far \in {Pct(20)} :
     hist' = Append(hist, [op |-> "market", kind |-> kind,
       cs |-> [i \in 1 .. m |-> LET b == T[IF S[i] THEN A[i] ELSE B[i]]  q == T[IF S[i] THEN B[i] ELSE A[i]] IN
                 Curve(b, q, RMul(Rel(b, q), IF far THEN Pick(Far) ELSE Pick(Devs)), Pick(Vols), IF kind = "full" THEN Full ELSE IF kind = "lev" THEN Lev ELSE Full \o Lev, TRUE)]])
Opt == \E i \in {RandomElement(0 .. 9)} : \E how \in One(<<"margp", "margp", "margp", "margp", "minimal", "simple", "simple", "simple", "convex">>) :
       \E ps, ad \in {RandomElement(1 .. 100)} : \E it \in One(<<0, 0, 0, 0, 0, 0, 1, 2>>) :
  hist' = Append(hist, [op |-> "opt", how |-> how, i |-> i, pstart |-> ps <= 50, framed |-> ps <= 15, adopt |-> ad <= 35, maxiter |-> it])

Init == n = 0 /\ hist = <<>>
Next == /\ n <= Depth /\ n' = n + 1
        /\ CASE PROFILE = "arb" -> IF n % 5 = 0 THEN Market ELSE Opt
             [] n < 2 -> New
             [] PROFILE = "curve" -> (LET k == RandomElement(1 .. 20) IN CASE k <= 5 -> New [] k \in 6 .. 9 -> Exec [] k \in 10 .. 16 -> Ask [] OTHER -> Attrs)
             [] PROFILE = "container" -> (LET k == RandomElement(1 .. 20) IN CASE k <= 5 -> New [] k = 6 -> Exec [] OTHER -> Container)
Emit == n = Depth + 1 => PrintT("PLAN " \o ToJson([ops |-> hist]))
Spec == Init /\ [][Next]_vars
=============================================================================
