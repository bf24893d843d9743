------------------------------- MODULE MC_Cc -------------------------------
(* Exhaustive check of CcCore: all histories of a client, a cache and a server that changes its data, fails and recovers. *)
EXTENDS CcCore

VARIABLES cache, srv, disk, ver, last, ever, date, n
vars == <<cache, srv, disk, ver, last, ever, date, n>>

Init == /\ cache = <<>> /\ srv = "ok" /\ disk = TRUE /\ ver = 1 /\ n = 0 /\ last = [op |-> "init"] /\ ever = {}
        /\ date \in {[y |-> y, m |-> m, d |-> d, h |-> 0, mi |-> 0, s |-> 0] : y \in {1970, 1999, 2000, 2020, 2023, 2037}, m \in 1 .. 12, d \in {1, 28, 29, 30, 31}}

Op == \/ \E i \in {"coinlist", "indexlist"}, rof, uof, roe \in BOOLEAN :
           LET g == Get(roe, cache, srv, disk, i, ToString(ver), rof, uof) IN
           /\ cache' = g.cache
           /\ last' = [op |-> "get", item |-> i, g |-> g, rof |-> rof, uof |-> uof, roe |-> roe, before |-> Lookup(cache, i)]
           /\ ever' = IF g.cache # cache THEN ever \cup {<<i, ToString(ver)>>} ELSE ever
           /\ UNCHANGED <<srv, disk, ver>>
      \/ \E i \in {"coinlist", "indexlist"} : disk /\ cache' = Store(cache, i, "7") /\ ever' = ever \cup {<<i, "7">>}
           /\ last' = [op |-> "write", item |-> i] /\ UNCHANGED <<srv, disk, ver>>
      \/ \E x \in {"ok", "fail", "err"} : srv' = x /\ last' = [op |-> "srv"] /\ UNCHANGED <<cache, disk, ver, ever>>
      \/ disk' = ~disk /\ last' = [op |-> "disk"] /\ UNCHANGED <<cache, srv, ver, ever>>
      \/ ver' = ver + 1 /\ last' = [op |-> "ver"] /\ UNCHANGED <<cache, srv, disk, ever>>
Next == /\ date.y = 2020 /\ date.m = 1 /\ date.d = 1        \* (one date is enough for the histories)
        /\ n < 5 /\ n' = n + 1 /\ Op /\ date' = date
Spec == Init /\ [][Next]_vars

Got == last.op = "get"
\* what is in the cache needs no server; what is not is the server's word, or a failure reported as configured
CachedOK == Got /\ last.before # Absent => last.g.n = 0 /\ last.g.r = Value(last.before)
FreshOK == Got /\ last.before = Absent => /\ (last.g.r.res = "value" => last.g.r.val = ToString(ver) /\ srv = "ok" /\ last.g.n = 1)
                                          /\ (last.g.r.res # "value" => last.g.r.res = IF last.roe THEN "raised" ELSE "none")
                                          /\ (~last.rof /\ ~last.uof => last.g.n = 0)
                                          /\ (last.rof /\ ~last.uof /\ srv = "ok" => last.g.r.res = "value")
\* only what was the content of an item is ever cached under its name; items do not leak into each other
CacheOK == \A i \in DOMAIN cache : <<i, cache[i]>> \in ever
FrameOK == [][last'.op = "get" => \A i \in DOMAIN cache : i # last'.item => cache'[i] = cache[i]]_vars
\* only an update writes, and what was updated stays available whatever the server does
WriteOK == [][last'.op = "get" /\ ~last'.uof => cache' = cache]_vars
StaysOK == [][DOMAIN cache \subseteq DOMAIN cache']_vars

ValidDate(t) == t.d <= MonthLen(t.y, t.m)
NextDay(t) == IF t.d < MonthLen(t.y, t.m) THEN [t EXCEPT !.d = @ + 1] ELSE IF t.m < 12 THEN [t EXCEPT !.d = 1, !.m = @ + 1] ELSE [t EXCEPT !.d = 1, !.m = 1, !.y = @ + 1]
DateOK == ValidDate(date) => Epoch(NextDay(date)) = Epoch(date) + 86400
ASSUME Epoch([y |-> 1970, m |-> 1, d |-> 1, h |-> 0, mi |-> 0, s |-> 0]) = 0
ASSUME Epoch([y |-> 2016, m |-> 1, d |-> 13, h |-> 11, mi |-> 0, s |-> 0]) = 1452682800
Toks == {"A", "B", "C"}
Seqs == UNION {[1 .. k -> Toks] : k \in 0 .. 3}
ASSUME CombosOK == \A c, q \in {s \in Seqs : \A i, j \in DOMAIN s : s[i] = s[j] => i = j} :
  LET r == Combos(c, q) IN
  /\ {r[k] : k \in DOMAIN r} = {<<c[i], q[j]>> : i \in DOMAIN c, j \in DOMAIN q} \ {<<t, t>> : t \in Toks}
  /\ \A i, j \in DOMAIN r : r[i] = r[j] => i = j
=============================================================================
