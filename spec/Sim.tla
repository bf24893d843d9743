-------------------------------- MODULE Sim --------------------------------
(***************************************************************************)
(* State machine of the Carbon simulator: strategies are added and         *)
(* deleted, trades are quoted, refused or executed against the book.       *)
(*                                                                         *)
(* The menus of strategies and trades are constants, so that TLC explores  *)
(* every history over them exhaustively; all amounts are exact rationals.  *)
(***************************************************************************)
EXTENDS SimCore

CONSTANTS Strategies,     \* set of strategy records (arguments of add_strategy)
          Trades,         \* set of trade records
          MaxOps,         \* bound on the length of histories
          MaxOrders       \* bound on the number of live orders

VARIABLES book,           \* id -> order
          nextid,         \* next free order id
          ntrades,        \* number of trades quoted or executed so far
          ledger,         \* token -> what depositors and traders put in minus what they took out
          fills,          \* fills of the last step: id -> [dy, dx] (empty if none)
          prev,           \* the book before the last step
          last,           \* the last operation: [op, ...]
          n               \* number of operations so far

vars == <<book, nextid, ntrades, ledger, fills, prev, last, n>>

Tokens == UNION {{s.base, s.quote} : s \in Strategies}

Init == /\ book = <<>>
        /\ nextid = 0
        /\ ntrades = 0
        /\ ledger = [t \in Tokens |-> "0"]
        /\ fills = <<>>
        /\ prev = <<>>
        /\ last = [op |-> "init"]
        /\ n = 0

AddStrategy(s) ==
  /\ Cardinality(DOMAIN book) + 2 <= MaxOrders
  /\ prev' = book
  /\ fills' = <<>>
  /\ nextid' = nextid + 2
  /\ ntrades' = ntrades
  /\ last' = [op |-> "add", arg |-> s]
  /\ IF AddRefused(s) THEN UNCHANGED <<book, ledger>>
     ELSE LET new == AddOrders(s, nextid, nextid + 1) IN
          /\ book' = book @@ new
          /\ ledger' = [t \in Tokens |->
                RAdd(ledger[t], RSumF([i \in DOMAIN new |-> IF new[i].tkn = t THEN new[i].y ELSE "0"], DOMAIN new))]

DeleteOrder(i) ==
  /\ prev' = book
  /\ fills' = <<>>
  /\ book' = Delete(book, i)
  /\ ledger' = [t \in Tokens |->
        RSub(ledger[t], RSumF([k \in Deleted(book, i) |-> IF book[k].tkn = t THEN book[k].y ELSE "0"], Deleted(book, i)))]
  /\ last' = [op |-> "del", arg |-> i]
  /\ UNCHANGED <<nextid, ntrades>>

TradeOn(t) ==
  LET C  == Curves(book, Eligible(book, t))
      f  == Fill(C, t.amt, t.byT, t.method)
      g  == Dx(C, f)
      dy == RSumF(f, DOMAIN f)
      dx == RSumF(g, DOMAIN g)
      ex == t.execute /\ LimitMet(t, AvgPrice(t, dy, dx))
      inn == Other(t.base, t.quote, t.out)
  IN
  /\ prev' = book
  /\ nextid' = nextid
  /\ IF TradeRefused(book, t)
     THEN /\ last' = [op |-> "trade", arg |-> t, ok |-> FALSE, ex |-> FALSE, dy |-> "0", dx |-> "0"]
          /\ fills' = <<>>
          /\ UNCHANGED <<book, ledger, ntrades>>
     ELSE /\ last' = [op |-> "trade", arg |-> t, ok |-> TRUE, ex |-> ex, dy |-> dy, dx |-> dx]
          /\ ntrades' = ntrades + 1
          /\ fills' = [i \in DOMAIN f |-> [dy |-> f[i], dx |-> g[i]]]
          /\ IF ~ex THEN UNCHANGED <<book, ledger>>
             ELSE /\ book' = Apply(book, f, g)
                  /\ ledger' = [ledger EXCEPT ![t.out] = RSub(@, dy), ![inn] = RAdd(@, dx)]

Step == \/ \E s \in Strategies : AddStrategy(s)
        \/ \E i \in DOMAIN book : DeleteOrder(i)
        \/ /\ book # <<>>
           /\ \E t \in Trades : TradeOn(t)

Next == n < MaxOps /\ n' = n + 1 /\ Step
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties *)

Executed == last.op = "trade" /\ last.ex
Traded   == last.op = "trade" /\ last.ok

\* tokens are neither created nor destroyed: what the book holds is what was paid in
Conservation ==
  \A t \in Tokens : REq(ledger[t], RSumF([i \in DOMAIN book |-> IF book[i].tkn = t THEN book[i].y ELSE "0"], DOMAIN book))

Bounded == \A i \in DOMAIN book : RGe(book[i].y, "0") /\ RLe(book[i].y, book[i].z)

LinksIntact == \A i \in DOMAIN book : /\ book[i].lid \in DOMAIN book
                                      /\ book[book[i].lid].lid = i
                                      /\ book[book[i].lid].tkn = Other(book[i].base, book[i].quote, book[i].tkn)

\* capacity, prices, links: the identity of an order never changes; capacity only grows when full
Frame ==
  \A i \in DOMAIN book \cap DOMAIN prev :
     /\ [book[i] EXCEPT !.y = "0", !.z = "0"] = [prev[i] EXCEPT !.y = "0", !.z = "0"]
     /\ book[i].z # prev[i].z => book[i].z = book[i].y /\ RGt(book[i].y, prev[i].z)
     /\ ~Executed => book[i] = prev[i]
     /\ Executed /\ i \notin (DOMAIN fills \cup {prev[k].lid : k \in DOMAIN fills}) => book[i] = prev[i]

IdsFresh == \A i \in DOMAIN book : i < nextid

\* only enabled, non-empty, permitted orders of the pair that sell the token take part
OnlyEligible == Traded => DOMAIN fills \subseteq Eligible(prev, last.arg) /\ fills # <<>>

\* every fill is priced within the range of its order, between the marginal prices before and after
PriceInRange ==
  Traded => \A i \in DOMAIN fills :
     LET c == prev[i]
         p == RDiv(fills[i].dy, fills[i].dx)
         a == After(c, fills[i].dy)
     IN /\ RLe(p, MargP(c)) /\ RGe(p, MargP(a))
        /\ RGe(MargP(a), RMul(c.B, c.B)) /\ RLe(MargP(c), RMul(Top(c), Top(c)))
        /\ RGe(fills[i].dy, "0") /\ RLe(fills[i].dy, c.y)

\* the request is matched exactly, unless a partial fill was allowed, which takes all there is
FillExact ==
  Traded => LET t == last.arg  C == Curves(prev, Eligible(prev, t))
            IN REq(IF t.byT THEN last.dy ELSE last.dx, RMin(t.amt, Capacity(C, t.byT)))

\* first order conditions: touched curves end at a common level, the others are worse (not
\* touched) or exhausted.  By convexity this is the best possible price for the trader.
Optimal ==
  Traded /\ last.arg.method = "exact" =>
     LET t == last.arg
         E == Eligible(prev, t)
         post == [i \in E |-> IF i \in DOMAIN fills THEN After(prev[i], fills[i].dy) ELSE prev[i]]
     IN \A i, k \in E : i \in DOMAIN fills /\ Pos(post[k].y) => RGe(Marg(post[i]), Marg(post[k]))

\* the optimum beats greedy matching and every single order that could take the whole trade
OptimalBeats ==
  Traded /\ last.arg.method = "exact" =>
     LET t == last.arg
         C == Curves(prev, Eligible(prev, t))
         f == Fill(C, t.amt, t.byT, "fast")
         g == Dx(C, f)
         dy == RSumF(f, DOMAIN f)  dx == RSumF(g, DOMAIN g)
     IN IF t.byT THEN RLe(last.dx, dx) ELSE RGe(last.dy, dy)

\* a trade split in two has the same result as the whole (exact matching): path independence
SplitSame ==
  Traded /\ last.arg.method = "exact" =>
     LET t  == last.arg
         C  == Curves(prev, Eligible(prev, t))
         a  == RDiv(IF t.byT THEN last.dy ELSE last.dx, "3")
         f1 == Fill(C, a, t.byT, "exact")
         C1 == [i \in DOMAIN C |-> IF i \in DOMAIN f1 THEN After(C[i], f1[i]) ELSE C[i]]
         C2 == [i \in {k \in DOMAIN C1 : Pos(C1[k].y)} |-> C1[i]]
         f2 == Fill(C2, RMul("2", a), t.byT, "exact")
         s  == RAdd(RSumF(Dx(C, f1), DOMAIN f1), RSumF(Dx(C2, f2), DOMAIN f2))
         d  == RAdd(RSumF(f1, DOMAIN f1), RSumF(f2, DOMAIN f2))
     IN REq(s, last.dx) /\ REq(d, last.dy)

\* nobody profits from trading there and back: selling the proceeds into the book as it is
\* after the trade returns at most what was paid, as long as no strategy's buy range lies
\* above its sell range (the menu of strategies contains no crossed book)
RoundTrip ==
  Executed =>
     LET t  == last.arg
         b  == [t EXCEPT !.out = Other(t.base, t.quote, t.out), !.byT = FALSE, !.amt = last.dy,
                         !.useall = TRUE, !.partial = TRUE]
         C  == Curves(book, Eligible(book, b))
         f  == IF DOMAIN C = {} THEN <<>> ELSE Fill(C, b.amt, FALSE, "exact")
     IN RLe(RSumF(f, DOMAIN f), last.dx)

\* executed trades meet their limit
LimitRespected == Executed => LimitMet(last.arg, AvgPrice(last.arg, last.dy, last.dx))

Inv == /\ Conservation /\ Bounded /\ LinksIntact /\ Frame /\ IdsFresh /\ OnlyEligible
       /\ PriceInRange /\ FillExact /\ Optimal /\ OptimalBeats /\ SplitSame /\ RoundTrip /\ LimitRespected

=============================================================================
