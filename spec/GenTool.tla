------------------------------ MODULE GenTool ------------------------------
(* Generates uses of the tools of ToolCore, one kind per profile. *)
EXTENDS ToolCore, Json, IOUtils

CONSTANT Depth
PROFILE == IOEnv.PROFILE
VARIABLES vars, heap, objs, files, n, hist
all == <<vars, heap, objs, files, n, hist>>

One(s) == {s[RandomElement(DOMAIN s)]}
Pct(k) == RandomElement(1 .. 100) <= k
Rnd(a, b) == RandomElement(a .. b)
Say(r) == hist' = Append(hist, r)

(* --- packed numbers --- *)
Pack ==
  \E fn \in One(<<"int", "int", "int", "int", "float", "float", "max", "min", "raw">>) : \E k \in {Rnd(0, 300)} : \E k2 \in {Rnd(0, 60)} :
  \E low \in One(<<"-2", "-1", "0", "1", "2", "12345", "-77", "1048576">>) : \E how \in {Rnd(1, 7)} :
  \E a \in {Rnd(0, 1000000)} : \E b \in {Rnd(0, 1000000000)} : \E one \in One(<<32, 40, 48, 60, 64, 128>>) : \E sg \in {Pct(5)} :
  LET rnd == RAdd(RMul(ToString(a), "1000000000"), ToString(b))
      m == CASE how = 1 -> RAdd(Two(k), low)                               \* next to a power of two
             [] how = 2 -> rnd
             [] how = 3 -> RAdd(RMul(rnd, Two(k)), low)
             [] how = 4 -> RMul(RSub(Two(40), ToString(k2)), Two(k2))       \* a full mantissa
             [] how = 5 -> RAdd(RMul(RSub(Two(41), ToString(k2)), Two(k2)), low)
             [] how = 6 -> RAdd(Two(k), RFloor(RDiv(Two(k), Two(k2))))      \* two bits, far apart
             [] OTHER -> ToString(b)
      nat == IF RLt(m, "0") THEN RNeg(m) ELSE m
      x == IF how = 2 THEN RDiv(rnd, RMul("1000000000", Two(k2))) ELSE IF how = 3 THEN RMul(rnd, Two(k2)) ELSE RDiv(ToString(b), ToString(a + 1))
  IN Say([op |-> "pack", fn |-> fn, x |-> IF fn = "float" THEN x ELSE IF sg THEN RNeg(RAdd(nat, "1")) ELSE nat, one |-> one, k |-> k2])
     /\ UNCHANGED <<vars, heap, objs, files>>

(* --- shared numbers --- *)
Nums == <<"0", "1", "2", "3", "-1", "-7", "5", "10", "100", "5/2", "-3/4", "1/8", "12", "7", "255">>
Small == <<"0", "1", "2", "3", "2", "1">>
Arith == <<"add", "add", "sub", "sub", "mul", "div", "floordiv", "mod", "divmod", "pow", "shl", "shr", "and", "or", "xor">>
Fits(w) == w # None /\ RLe(RAbs(w), "1000000") /\ (REq(w, "0") \/ RGe(RAbs(w), "1/1000000"))
NewCell(w, k) == /\ heap' = Append(heap, w)
                 /\ vars' = IF k > Len(vars) THEN Append(vars, Len(heap')) ELSE [vars EXCEPT ![k] = Len(heap')]
Cell ==
  IF vars = <<>> THEN \E x \in One(Nums) : Say([op |-> "cell", fn |-> "new", x |-> RCanon(x), k |-> 1]) /\ heap' = <<RCanon(x)>> /\ vars' = <<1>> /\ UNCHANGED <<objs, files>>
  ELSE
  \E fn \in One(<<"new", "alias", "assign", "bin", "bin", "bin", "bin2", "bin2", "inp", "inp", "inp", "inp", "inp2", "inp2", "set", "un", "cmp", "cmp2", "conv">>) :
  \E i \in {RandomElement(DOMAIN vars)} : \E j \in {RandomElement(DOMAIN vars)} : \E o \in {IF fn \in {"inp", "inp2"} THEN RandomElement(Range(Arith) \ {"divmod"}) ELSE Arith[RandomElement(DOMAIN Arith)]} : \E refl \in {Pct(40)} :
  \E x0 \in One(Nums) : \E xs \in One(Small) : \E kk \in {Rnd(1, 5)} : \E d \in {Rnd(0, 3)} :
  \E u \in One(<<"neg", "pos", "abs", "floor", "ceil", "trunc", "round">>) : \E c \in One(<<"eq", "ne", "lt", "le", "gt", "ge">>) :
  LET k  == IF kk > Len(vars) THEN Len(vars) + 1 ELSE kk
      x  == IF o \in {"pow", "shl", "shr"} /\ ~(fn = "bin" /\ refl) THEN xs ELSE x0
      vi == heap[vars[i]]  vj == heap[vars[j]]
      two == fn \in {"bin2", "inp2"}
      w  == IF fn \in {"bin", "inp"} THEN (IF refl /\ fn = "bin" THEN Binary(o, x, vi) ELSE Binary(o, vi, x)) ELSE Binary(o, vi, vj)
      \* powers stay small
      wild == o \in {"pow", "shl", "shr"} /\ (IF fn = "bin" /\ refl THEN ~(RIsInt(vi) /\ RGe(vi, "0") /\ RLe(vi, "8"))
                                             ELSE IF two THEN ~(RIsInt(vj) /\ RGe(vj, "0") /\ RLe(vj, "6")) ELSE FALSE)
      r  == [op |-> "cell", fn |-> fn, o |-> o, i |-> i, j |-> j, k |-> k, x |-> RCanon(x), refl |-> refl, d |-> d, u |-> u, c |-> c]
  IN /\ UNCHANGED <<objs, files>>
     /\ IF fn \in {"bin", "inp", "bin2", "inp2"} /\ (wild \/ (w # None /\ ~Fits(w)))
        THEN Say([r EXCEPT !.fn = "set", !.x = xs]) /\ heap' = Store(vars, heap, i, xs) /\ vars' = vars
        ELSE /\ Say(r)
             /\ CASE fn = "new" -> NewCell(RCanon(x), k)
                  [] fn = "alias" -> heap' = heap /\ vars' = IF k > Len(vars) THEN Append(vars, vars[i]) ELSE [vars EXCEPT ![k] = vars[i]]
                  [] fn = "assign" -> heap' = heap /\ vars' = [vars EXCEPT ![i] = vars[j]]
                  [] fn \in {"bin", "bin2"} -> IF w = None THEN UNCHANGED <<heap, vars>> ELSE NewCell(w, k)
                  [] fn \in {"inp", "inp2"} -> vars' = vars /\ heap' = IF w = None \/ o = "divmod" THEN heap ELSE Store(vars, heap, i, w)
                  [] fn = "set" -> vars' = vars /\ heap' = Store(vars, heap, i, RCanon(x))
                  [] fn = "un" -> NewCell(Unary(u, vi, d), k)
                  [] OTHER -> UNCHANGED <<heap, vars>>

(* --- parameters and scales --- *)
Keys == <<"a", "b", "c", "d", "USDC", "ETH">>
Vals == <<"1", "2", "0", "-3", "5/2", "7">>
AsSeq(f) == LET RECURSIVE F(_)
                F(S) == IF S = {} THEN <<>> ELSE LET k == CHOOSE k \in S : TRUE IN <<<<k, f[k]>>>> \o F(S \ {k})
            IN F(DOMAIN f)
Param ==
  \E fn \in One(IF objs = <<>> THEN <<"new", "construct">>
               ELSE <<"new", "construct", "construct", "copy", "copy", "add", "setitem", "set", "getitem", "getattr", "getattr", "default", "set_default", "set_default",
                      "set_default", "params", "defaults", "repr", "scale_new", "scale_add", "scale_add", "scale", "scale", "scale", "scale1">>) :
  \E D \in {RandomElement(SUBSET Range(Keys))} : \E E \in {RandomElement(SUBSET {"a", "b", "c"})} :
  \E f \in {RandomElement([D -> Range(Vals)])} : \E g \in {RandomElement([E -> Range(Vals)])} : \E withd \in {Pct(50)} : \E k \in One(Keys) : \E v \in One(Vals) : \E i \in {IF objs = <<>> THEN 0 ELSE RandomElement(DOMAIN objs)} :
  \E flag \in {Pct(50)} : \E slot \in {Rnd(1, 4)} :
  LET s == IF slot > Len(objs) THEN Len(objs) + 1 ELSE slot IN
  /\ UNCHANGED <<vars, heap, files>>
  /\ Say([op |-> "param", fn |-> fn, f |-> AsSeq(f), g |-> AsSeq(g), withd |-> withd, k |-> k, v |-> v, i |-> i, flag |-> flag, slot |-> s])
  /\ objs' = IF fn \in {"new", "construct"} \/ (fn = "copy" /\ s > Len(objs)) THEN (IF s > Len(objs) THEN Append(objs, 0) ELSE objs) ELSE objs

(* --- Uniswap positions --- *)
Ticks == <<0, 1, -1, 59, 60, -60, -61, 9, 10, 199782, -199782, 201, -276325, 276324, 75000, -75001, 123456, -123456, 300000, -350000, 500, -7>>
Uni ==
  \E t0 \in One(Ticks) : \E dt \in {Rnd(-120, 120)} : \E fee \in One(<<100, 500, 3000, 10000, 3000, 42>>) : \E d \in One(<< <<6, 18>>, <<18, 6>>, <<18, 18>>, <<8, 18>>, <<6, 8>>, <<0, 18>>, <<9, 6>> >>) :
  \E fr \in One(<<"0", "1/2", "1/10", "99/100", "1/1000", "7/8">>) : \E a \in {Rnd(1, 1000000)} : \E e \in {Rnd(3, 20)} : \E how \in One(<<"ctor", "ctor", "dict", "known", "str">>) :
  LET t == t0 + dt
      p == RMul(TickPrice(t), RAdd("1", RMul(fr, "1/10000")))
      dd == IF how \in {"dict", "known"} THEN (IF d[1] < d[2] THEN <<6, 18>> ELSE <<18, 6>>) ELSE d
  IN /\ UNCHANGED <<vars, heap, objs, files>>
     /\ Say([op |-> "uni", how |-> how, tick |-> t, sp96 |-> RFloor(RSqrt(RMul(p, Two(192)))), liq |-> RMul(ToString(a), RPow("10", e)), fee |-> fee, d0 |-> dd[1], d1 |-> dd[2]])

(* --- pairs, versions --- *)
Tk == << [full |-> "AAVE", norm |-> "AAVE"], [full |-> "BNT", norm |-> "BNT"], [full |-> "BNT-1a", norm |-> "BNT"], [full |-> "BTC", norm |-> "BTC"], [full |-> "DAI", norm |-> "DAI"], [full |-> "DAI(v1)", norm |-> "DAI"],
         [full |-> "ETH", norm |-> "ETH"], [full |-> "ETH-", norm |-> "ETH"], [full |-> "LINK", norm |-> "LINK"], [full |-> "USDC", norm |-> "USDC"], [full |-> "USDC(a)-b", norm |-> "USDC"], [full |-> "USDC-(x", norm |-> "USDC"],
         [full |-> "USDQ", norm |-> "USDQ"], [full |-> "USDT", norm |-> "USDT"], [full |-> "USDT-3", norm |-> "USDT"], [full |-> "WBTC", norm |-> "WBTC"], [full |-> "WETH", norm |-> "WETH"], [full |-> "sUSD", norm |-> "sUSD"] >>
Tok(i) == [full |-> Tk[i].full, norm |-> Tk[i].norm, ord |-> i]
Comps == {0, 1, 2, 3, 9, 10, 12, 99}
Name ==
  \E fn \in One(<<"pair", "pair", "pair", "version", "version", "wrap">>) : \E i \in {RandomElement(DOMAIN Tk)} : \E j \in {RandomElement(DOMAIN Tk)} : \E k \in {RandomElement(DOMAIN Tk)} :
  \E how \in One(<<"str", "tuple", "list", "obj", "tokens", "three", "one", "int">>) : \E p \in One(<<"1", "2000", "1/2000", "5/2", "0", "1/3">>) :
  \E l1 \in {Rnd(1, 4)} : \E l2 \in {Rnd(1, 4)} : \E v \in {RandomElement([1 .. l1 -> Comps])} : \E w0 \in {RandomElement([1 .. l2 -> Comps])} : \E near \in {Rnd(1, 4)} : \E suf \in One(<<"", "", "-beta2", "rc1", " ", "-1.2">>) : \E raise \in {Pct(40)} :
  LET w == CASE near = 1 -> v [] near = 2 -> Append(v, 0) [] near = 3 -> [v EXCEPT ![Len(v)] = IF @ = 0 THEN 1 ELSE @ - 1] [] OTHER -> w0 IN
  /\ UNCHANGED <<vars, heap, objs, files>>
  /\ Say([op |-> "name", fn |-> fn, b |-> Tok(i), q |-> Tok(j), r |-> Tok(k), how |-> how, p |-> p, ver |-> IF raise THEN w ELSE v, req |-> IF raise THEN v ELSE w, suf |-> suf, raise |-> raise])

(* --- files --- *)
Stems == <<"a", "b", "data.v1", "Zed">>
Exts  == <<".json", ".JSON", ".txt", "", ".gz">>
Modes == <<"text", "json", "binary", "gzjson", "gztext", "wrap">>
File ==
  \E fn \in One(<<"save", "save", "save", "load", "load", "load", "list">>) : \E st \in One(Stems) : \E ex \in One(Exts) : \E mode \in One(Modes) : \E c \in {Rnd(1, 6)} : \E pick \in {Rnd(1, 9)} :
  \E nm \in {IF fn = "load" /\ DOMAIN files # {} /\ pick > 1 THEN RandomElement(DOMAIN files) ELSE <<st, ex>>} :
  LET known == DOMAIN files
      md == IF fn = "load" /\ nm \in known THEN files[nm] ELSE mode
  IN /\ UNCHANGED <<vars, heap, objs>>
     /\ Say([op |-> "file", fn |-> fn, st |-> nm[1], ex |-> nm[2], mode |-> md, c |-> c, all |-> pick < 3, dflt |-> pick = 4])
     /\ files' = IF fn = "save" THEN [x \in DOMAIN files \cup {nm} |-> IF x = nm THEN md ELSE files[x]] ELSE files

Init == vars = <<>> /\ heap = <<>> /\ objs = <<>> /\ files = [x \in {} |-> ""] /\ n = 0 /\ hist = <<>>
Next == /\ n <= Depth /\ n' = n + 1
        /\ CASE PROFILE = "pack" -> Pack [] PROFILE = "cells" -> Cell [] PROFILE = "params" -> Param
             [] PROFILE = "univ3" -> Uni [] PROFILE = "names" -> Name [] OTHER -> File
Emit == n = Depth + 1 => PrintT("PLAN " \o ToJson([ops |-> hist]))
Spec == Init /\ [][Next]_all
=============================================================================
