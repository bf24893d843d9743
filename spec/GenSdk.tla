------------------------------ MODULE GenSdk ------------------------------
(* Generates uses of the SDK client: the protocol, markets, encoded orders, token containers, strategies. *)
EXTENDS SdkCore, Json, IOUtils

CONSTANT Depth
PROFILE == IOEnv.PROFILE
VARIABLES jobs, mkt, n, hist
all == <<jobs, mkt, n, hist>>

One(s) == {s[RandomElement(DOMAIN s)]}
Pct(k) == RandomElement(1 .. 100) <= k
Rnd(a, b) == RandomElement(a .. b)
Say(r) == hist' = Append(hist, r)

Urls  == << [s |-> "http://one:3118", u |-> "http://one:3118"], [s |-> "http://two:99/", u |-> "http://two:99"], [s |-> "None", u |-> "http://localhost:3118"] >>
Bases == << [s |-> "api", u |-> "api"], [s |-> "/v2/", u |-> "v2"], [s |-> "None", u |-> "api"], [s |-> "a/b", u |-> "a/b"] >>
Xs    == <<"1", "2", "5", "1000", "1/2", "1/8", "3/4", "1500", "2500", "123/100", "7", "12345678", "123456789123/100000000", "1/1000">>

(* --- the protocol --- *)
Cfg ==
  \E u \in One(Urls) : \E b \in One(Bases) : \E sd \in One(<<"N", "T", "F">>) : \E raise \in {Pct(60)} : \E tk \in {Pct(70)} : \E tok \in One(<<"None", "secret">>) :
  Say([op |-> "cfg", us |-> u.s, url |-> u.u, bs |-> b.s, base |-> b.u, sd |-> sd, raise |-> raise, tk |-> tk, token |-> tok]) /\ UNCHANGED <<jobs, mkt>>
AsyncFns == <<"mul", "plus", "qmul", "qplus", "getMatchActions", "getMatchParams", "getTradeDataFromActions", "updateStrategy">>
AskFns == <<"hasLiquidityByPair", "getLiquidityByPair", "getMinRateByPair", "getMaxRateByPair", "getRateLiquidityDepthByPair", "getUserStrategies", "getTradeData",
  "composeTradeByTargetTransaction", "composeTradeBySourceTransaction", "createBuySellStrategy", "deleteStrategy", "balance", "decimals", "symbol", "addr", "version", "signsubmittx", "pairs", "pairs">>
Client ==
  IF n = 0 THEN Cfg ELSE
  \E what \in {Rnd(1, 100)} : \E af \in One(AsyncFns) : \E qf \in One(AskFns) : \E sync \in One(<<"N", "N", "T", "F", "F">>) : \E fault \in One(<<"ok", "ok", "ok", "ok", "ok", "refused", "down", "html", "500", "nodata">>) :
  \E s \in {Rnd(1, 5)} : \E t \in {Rnd(1, 5)} : \E x \in One(Xs) : \E y \in One(Xs) : \E z \in One(Xs) : \E flag \in {Pct(50)} : \E opt \in {Rnd(1, 4)} : \E k \in {Rnd(1, 9999)} : \E j \in {Rnd(1, Len(jobs) + 1)} :
  LET o == [op |-> "call", fn |-> af, sync |-> sync, fault |-> fault, s |-> s, t |-> t, x |-> RCanon(x), y |-> RCanon(y), z |-> RCanon(z), flag |-> flag, opt |-> opt, k |-> k] IN
  /\ UNCHANGED mkt
  /\ IF what <= 35 THEN Say(o) /\ jobs' = (IF sync = "T" \/ fault # "ok" THEN jobs ELSE NewJob(jobs))
     ELSE IF what <= 48 THEN jobs' = (IF j \in DOMAIN jobs THEN Serve(jobs, j) ELSE jobs) /\ Say([op |-> "serve", k |-> j])
     ELSE IF what <= 70 THEN Say([op |-> "result", k |-> j, fault |-> IF fault \in {"html", "down"} THEN fault ELSE "ok"]) /\ jobs' = jobs
     ELSE Say([o EXCEPT !.op = "ask", !.fn = qf]) /\ jobs' = jobs

(* --- markets --- *)
Rates == <<"2000", "1/2000", "1500", "1/1500", "20", "1/20", "1", "3", "1/3", "30000", "1/30000", "4", "1/4">>
Offers(d) == \E a \in One(Rates) : \E w \in One(<<"1", "11/10", "2", "5">>) : \E liq \in One(<<"0", "1", "1000", "25/2", "123456">>) : \E has \in {Pct(60)} :
             mkt' = Append(mkt, [has |-> has, liq |-> liq, lo |-> RCanon(a), hi |-> RMul(a, w)]) /\ UNCHANGED <<jobs, hist>>
MktFns == <<"has", "hasmany", "liq", "range", "range", "depth", "depth", "market", "market", "create", "create", "prepare", "prepare", "compose", "compose", "strategies", "strategies">>
Market ==
  IF Len(mkt) < 25 THEN Offers(0) ELSE
  \E fn \in One(MktFns) : \E b \in {Rnd(1, 5)} : \E q0 \in {Rnd(1, 4)} : \E sellb \in {Pct(50)} : \E how \in {Rnd(1, 3)} : \E x \in One(Rates) : \E y \in One(Rates) : \E z \in One(Rates) : \E w \in One(Xs) : \E a \in One(<<"1", "0", "5/2", "-1", "100">>) :
  \E flag \in {Pct(50)} : \E opt \in {Rnd(1, 4)} : \E k \in {Rnd(1, 9999)} : \E bad \in {Rnd(1, 12)} : \E id \in One(<<"1", "83", "340282366920938463463374607431768211457">>) :
  \E yy \in One(<<"500000000000000000", "0", "12345">>) : \E zz \in One(<<"1000000000000000000", "12345", "7">>) : \E m \in {Rnd(0, 1000000)} :
  LET q == IF q0 >= b THEN q0 + 1 ELSE q0 IN
  /\ UNCHANGED <<jobs, mkt>>
  /\ Say([op |-> "m", fn |-> fn, b |-> b, q |-> q, sells |-> IF sellb THEN b ELSE q, how |-> how, x |-> RCanon(x), y |-> RCanon(y), z |-> RCanon(z), w |-> RCanon(w), a |-> RCanon(a), flag |-> flag, opt |-> opt, k |-> k,
          bad |-> bad, id |-> id, yy |-> yy, zz |-> zz, m |-> m])

(* --- encoded orders --- *)
Enc ==
  \E fn \in One(<<"float", "float", "rate", "order", "order", "order", "order">>) : \E k \in {Rnd(0, 150)} : \E a \in {Rnd(0, 1000000000)} : \E d \in One(<<"-1", "0", "1", "77">>) : \E how \in {Rnd(1, 3)} :
  \E p \in One(<<"1", "2000", "1/2000", "1/3", "123456", "1/1000000000000", "2000000000000", "99/100">>) : \E w \in One(<<"1", "101/100", "2", "1000001/1000000", "10">>) : \E fr \in One(<<"0", "1/2", "1", "1/10", "99/100", "3/2">>) :
  \E mode \in One(<<"plain", "z", "marg", "marg", "both", "yzAB">>) : \E e \in {Rnd(0, 20)} : \E tk \in {Pct(50)} :
  LET v == CASE how = 1 -> RMax("0", RAdd(Two(k), d)) [] how = 2 -> ToString(a) [] OTHER -> RAdd(RMul(ToString(a), Two(k)), ToString(a))
      hi == RMul(p, w)
  IN /\ UNCHANGED <<jobs, mkt>>
     /\ Say([op |-> "enc", fn |-> fn, v |-> v, lo |-> RCanon(p), hi |-> hi, marg |-> RAdd(RCanon(p), RMul(fr, RSub(hi, p))), mode |-> mode, y |-> IF how = 2 /\ k < 50 THEN "0" ELSE RMul(ToString(a), Ten(e)), z |-> RMul(ToString(a + 7), Ten(e)), tk |-> tk])

(* --- token containers --- *)
TokFns == <<"make", "byticker", "byticker", "byaddr", "byaddr", "byaddr1", "call", "contains", "item", "attr", "restore", "restore", "list", "wei", "wei", "token">>
Entries == << <<1>>, <<1, 2>>, <<1, 2, 3, 4, 5>>, <<5, 3, 1>>, <<2, 4>>, <<1, 2, 6>>, <<1, 2, 7>>, <<1, 6, 9>>, <<1, 8, 9>>, <<1, 2, 8>>, <<1, 6, 7>> >>
Toks ==
  \E fn \in One(IF n = 0 THEN <<"make">> ELSE TokFns) : \E es \in One(IF n = 0 THEN SubSeq(Entries, 1, 5) ELSE Entries) : \E how \in One(<<"list", "csv", "objs">>) : \E raise \in One(<<"N", "T", "F">>) : \E r2 \in One(<<"N", "T", "F">>) : \E nul \in {Pct(50)} :
  \E i \in One(<<1, 2, 3, 4, 5, 6, 7, 1, 2, 3, 4, 5, 10, 11, 12, 13, 14>>) : \E cs \in {Rnd(1, 3)} : \E set \in {RandomElement(SUBSET (1 .. 6))} : \E x \in One(<<"1", "1/2", "5/4", "1000", "0", "123456789", "1/8">>) : \E what \in One(<<"ticker", "addr", "addr", "obj">>) : \E flag \in {Pct(50)} :
  Say([op |-> "tok", fn |-> fn, es |-> es, how |-> how, raise |-> raise, r2 |-> r2, nul |-> nul, i |-> i, cs |-> cs, set |-> set, x |-> RCanon(x), what |-> what, flag |-> flag]) /\ UNCHANGED <<jobs, mkt>>

(* --- strategies of the contracts, in the simulator --- *)
Strat ==
  \E b \in {Rnd(1, 5)} : \E q0 \in {Rnd(1, 4)} : \E p \in One(<<"2000", "1/2000", "20", "1", "1/3", "30000">>) : \E w1 \in One(<<"1", "101/100", "2">>) : \E w2 \in One(<<"1", "101/100", "2">>) : \E gap \in One(<<"1001/1000", "2", "1">>) :
  \E bb \in One(<<"500", "0", "25/2", "123456">>) : \E sb \in One(<<"1", "0", "5/2", "100">>) : \E z0 \in One(<<"1000000000000000000", "1000", "0", "7">>) : \E f0 \in One(<<"0", "1/2", "1", "1/10">>) :
  \E z1 \in One(<<"500000000", "1000", "0", "7">>) : \E f1 \in One(<<"0", "1/2", "1", "1/10">>) : \E id \in {Rnd(1, 99999)} : \E swap \in {Pct(40)} : \E unk \in {Rnd(1, 8)} : \E nsd \in {Rnd(0, 9)} : \E bad \in {Pct(8)} : \E fn \in One(<<"add", "add", "ui">>) : \E enc \in {Pct(70)} :
  \E m \in {Rnd(0, 999999)} :
  LET q == IF q0 >= b THEN q0 + 1 ELSE q0
      odd == RAdd("1", RDiv(ToString(m), "100000000"))
  IN /\ UNCHANGED <<jobs, mkt>>
     /\ Say([op |-> "strat", fn |-> fn, b |-> b, q |-> q, unk |-> unk, id |-> id, swap |-> swap, nsd |-> nsd, bad |-> bad, enc |-> enc,
             buylo |-> RDiv(RMul(p, odd), w1), buyhi |-> RMul(p, odd), bb |-> RCanon(bb), sello |-> RMul(p, gap), selhi |-> RMul(RMul(p, gap), w2), sb |-> RCanon(sb),
             y0 |-> RFloor(RMul(z0, f0)), z0 |-> z0, y1 |-> RFloor(RMul(z1, f1)), z1 |-> z1])

Init == jobs = <<>> /\ mkt = <<>> /\ n = 0 /\ hist = <<>>
Next == /\ n <= Depth /\ n' = IF PROFILE = "market" /\ Len(mkt) < 25 THEN n ELSE n + 1
        /\ CASE PROFILE = "client" -> Client [] PROFILE = "market" -> Market [] PROFILE = "encode" -> Enc [] PROFILE = "tokens" -> Toks [] OTHER -> Strat
Emit == n = Depth + 1 => PrintT("PLAN " \o ToJson([ops |-> hist, mkt |-> mkt]))
Spec == Init /\ [][Next]_all
=============================================================================
