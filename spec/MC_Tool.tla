------------------------------ MODULE MC_Tool ------------------------------
(* Exhaustive check of ToolCore: what the tools are for. *)
EXTENDS ToolCore

VARIABLES mode, n, m, vars, heap, o, ver, req, steps
all == <<mode, n, m, vars, heap, o, ver, req, steps>>

Naturals == {"0", "1", "2"} \cup {RAdd(Two(k), d) : k \in {1, 12, 39, 40, 41, 52, 53, 60, 64, 100, 294}, d \in {"-1", "0", "1"}}
Vers == UNION {[1 .. k -> 0 .. 2] : k \in 1 .. 3}
Keys == {"a", "b"}
Fns  == UNION {[D -> {"1", "2"}] : D \in SUBSET Keys}
Init ==
  /\ steps = 0
  /\ \/ /\ mode = "pack" /\ n \in Naturals /\ m \in Naturals /\ vars = <<>> /\ heap = <<>> /\ o = <<>> /\ ver = <<>> /\ req = <<>>
     \/ /\ mode = "cells" /\ n = "0" /\ m = "0" /\ vars = <<1>> /\ heap = <<"5">> /\ o = <<>> /\ ver = <<>> /\ req = <<>>
     \/ /\ mode = "params" /\ n = "0" /\ m = "0" /\ vars = <<>> /\ heap = <<>> /\ ver = <<>> /\ req = <<>>
        /\ \E f \in Fns, g \in Fns : o = [p |-> f, d |-> g]
     \/ /\ mode = "version" /\ n = "0" /\ m = "0" /\ vars = <<>> /\ heap = <<>> /\ o = <<>> /\ ver \in Vers /\ req \in Vers

Cells ==
  /\ mode = "cells" /\ steps < 4 /\ steps' = steps + 1 /\ UNCHANGED <<mode, n, m, o, ver, req>>
  /\ \/ \E i \in DOMAIN vars : vars' = Append(vars, vars[i]) /\ heap' = heap                                    \* y = x
     \/ \E i \in DOMAIN vars, v \in {"2", "-3"} : heap' = Append(heap, Binary("mul", heap[vars[i]], v)) /\ vars' = Append(vars, Len(heap'))  \* y = x * v
     \/ \E i \in DOMAIN vars, v \in {"2", "-3"} : heap' = Store(vars, heap, i, Binary("add", heap[vars[i]], v)) /\ vars' = vars     \* x += v
     \/ \E i, j \in DOMAIN vars : heap' = heap /\ vars' = [vars EXCEPT ![i] = vars[j]]                              \* x = y
Params ==
  /\ mode = "params" /\ steps < 3 /\ steps' = steps + 1 /\ UNCHANGED <<mode, n, m, vars, heap, ver, req>>
  /\ \/ \E k \in Keys, v \in {"1", "3"} : o' = Put(o, k, v)
     \/ \E g \in Fns : o' = Default(o, g)
Next == Cells \/ Params \/ (mode \in {"pack", "version"} /\ UNCHANGED all)
Spec == Init /\ [][Next]_all

\* packing: at most 40 bits, never above, off by less than one unit of the last place, monotone, and idempotent
PackOK == mode = "pack" =>
  LET p == Packed(n)  q == Packed(m)  x == Unpacked(p) IN
  /\ RLt(p.sig, Two(Mantissa)) /\ RGe(p.sig, "0")
  /\ RLe(x, n) /\ RLt(RSub(n, x), Two(p.exp))
  /\ (p.exp > 0 => RGe(p.sig, Two(Mantissa - 1)))
  /\ Packed(x) = p
  /\ (RLe(n, m) => RLe(x, Unpacked(q)))
\* an update is seen through all names of a cell, and through no others
SharedOK == [][mode = "cells" => \A i, j \in DOMAIN vars :
                 vars' = vars /\ heap # heap' /\ heap'[vars[i]] # heap[vars[i]] =>
                   (heap'[vars[j]] # heap[vars[j]]) = (vars[i] = vars[j])]_all
FreshOK == [][mode = "cells" /\ Len(heap') > Len(heap) => \A i \in DOMAIN vars : vars'[i] = vars[i] /\ heap'[vars[i]] = heap[vars[i]]]_all
\* parameters win over defaults; setting defaults never changes what is set
ParamsOK == mode = "params" => \A k \in Keys : /\ (k \in DOMAIN o.p => Look(o, k) = o.p[k])
                                               /\ (Look(o, k) = None) = (k \notin DOMAIN o.p \cup DOMAIN o.d)
ParamsStay == [][mode = "params" => \A k \in DOMAIN o.p : o'.d # o.d => Look(o', k) = Look(o, k)]_all
\* version order: total, transitive through the requirement, adding a suffix never lowers
VersionOK == mode = "version" =>
  /\ AtLeast(ver, req) \/ AtLeast(req, ver)
  /\ (AtLeast(ver, req) /\ AtLeast(req, ver) => ver = req)
  /\ AtLeast(Append(ver, 0), ver) /\ (AtLeast(ver, req) => AtLeast(Append(ver, 1), req))
\* a pair or its reverse is primary, not both
Tks == {[full |-> t[1], norm |-> t[2], ord |-> t[3]] : t \in {<<"AAA", "AAA", 1>>, <<"BTC", "BTC", 2>>, <<"ETH", "ETH", 3>>, <<"ETH-1", "ETH", 4>>, <<"USDC", "USDC", 5>>, <<"ZZZ", "ZZZ", 6>>}}
ASSUME PrimaryOK == \A b, q \in Tks : b # q => /\ IsPrimary(b, q) # IsPrimary(q, b)
                                        /\ (q.norm = "USDC" => IsPrimary(b, q))
\* positions: the reserves are worth the liquidity between the ends of the range, whatever the decimals
U(s, f, d0, d1) == [sp96 |-> s, tick |-> 0, fee |-> f, liq |-> RPow("10", 20), d0 |-> d0, d1 |-> d1]
ASSUME PosOK == \A f \in {100, 500, 3000, 10000}, d \in {<<6, 18>>, <<18, 6>>, <<8, 8>>} :
   LET u == U(RMul("10000001/10000000", Two(96)), f, d[1], d[2]) IN
   /\ RGt(Res0(u), "0") /\ RGt(Res1(u), "0") /\ RLt(PLo(u), PriceOf(u)) /\ RLt(PriceOf(u), PHi(u))
   \* (x + L/sqrt(hi)) (y + L sqrt(lo)) = L^2
   /\ RNear(RMul(RAdd(Res0(u), RDiv(Liq(u), RSqrt(PHi(u)))), RAdd(Res1(u), RMul(Liq(u), RSqrt(PLo(u))))), RMul(Liq(u), Liq(u)), "1/100000000000000000000", "0")
=============================================================================
