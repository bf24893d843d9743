------------------------------ MODULE MC_Sdk ------------------------------
(* Exhaustive check of SdkCore within small constants. *)
EXTENDS SdkCore

VARIABLES mode, jobs, asked, seen, n, p, r
all == <<mode, jobs, asked, seen, n, p, r>>

MaxJobs == 3
Nats == {"0", "1", "2"} \cup {RAdd(Two(k), d) : k \in {1, 30, 47, 48, 49, 60, 96, 100, 140}, d \in {"-1", "0", "1", "12345"}}
Prices == {"1", "2", "1/3", "2000", "1/2000", "123456789", "1/123456789012"}
Init == /\ asked = 0 /\ seen = [k \in {} |-> ""]
        /\ \/ mode = "jobs" /\ jobs = <<>> /\ n = "0" /\ p = "1" /\ r = "1"
           \/ mode = "float" /\ jobs = <<>> /\ n \in Nats /\ p = "1" /\ r = "1"
           \/ mode = "price" /\ jobs = <<>> /\ n = "0" /\ p \in Prices /\ r \in Prices
\* a client starts jobs and asks for results; the server finishes jobs in any order
Jobs == /\ mode = "jobs" /\ UNCHANGED <<mode, n, p, r>>
        /\ \/ Len(jobs) < MaxJobs /\ jobs' = NewJob(jobs) /\ UNCHANGED <<asked, seen>>
           \/ \E k \in DOMAIN jobs : jobs' = Serve(jobs, k) /\ UNCHANGED <<asked, seen>>
           \/ asked < 4 /\ asked' = asked + 1 /\ jobs' = jobs
              /\ \E k \in 1 .. MaxJobs + 1 : seen' = [x \in DOMAIN seen \cup {k} |-> IF x = k THEN Answer(jobs, k) ELSE seen[x]]
Next == Jobs \/ (mode # "jobs" /\ UNCHANGED all)
Spec == Init /\ [][Next]_all

\* an answer is never taken back
Final == [][\A k \in DOMAIN jobs : Answer(jobs, k) = "done" => Answer(jobs', k) = "done"]_all
JobsOK == mode = "jobs" => \A k \in DOMAIN seen : (seen[k] = "done" => Answer(jobs, k) = "done") /\ (Answer(jobs, k) = "unknown" => seen[k] = "unknown")
\* encoding rounds down, keeps 48 bits, and what has been decoded encodes to the same again
FloatOK == mode = "float" =>
  LET e == EncFloat(n)  d == DecFloat(e) IN
  /\ RLe(d, n) /\ RLt(RMul(RSub(n, d), Two(47)), RMax(n, "1")) /\ EncFloat(d) = e
  /\ RLt(RSub(e, RMul(RFloor(RDiv(e, ONE)), ONE)), ONE)
RateOK == mode = "price" =>
  LET e == EncRate(p) IN
  /\ DecFloat(EncFloat(e)) = e                          \* rates are encoded without further loss
  /\ RLe(RMul(e, e), RMul(RMul(p, ONE), ONE))
  /\ (RLe(p, r) => RLe(e, EncRate(r)))
\* a capacity is what the loading would be at the start of the range
CapacityOK == mode = "price" /\ RLt(p, r) =>
  LET m == RMul(RSqrt(p), RSqrt(r)) IN /\ RNear(CapacityAt("100", r, p, r), "100", "1/1000000000000", "0") /\ RGt(CapacityAt("100", r, p, m), "100")
\* bids and asks of a market are in the same units: who goes round at the best prices gets what the raw rates say
MarketOK == mode = "price" =>
  LET pr == [b |-> 1, q |-> 2]  bid == InPair(pr, 2, p)  ask == InPair(pr, 1, r)
  IN REq(RDiv(bid, ask), RMul(p, r))
RoundOK == mode = "price" => \A k \in 1 .. 6 :
  LET u == Ten(Mag(p) + 1 - k)  x == RMul(RFloor(RAdd(RDiv(p, u), "1/2")), u) IN Mag(p) <= k => Rounded(p, k, x)
=============================================================================
