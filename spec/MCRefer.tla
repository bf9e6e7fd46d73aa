------------------------------ MODULE MCRefer ------------------------------
(* All histories of a small structure: registration, balances changing, subscriptions lapsing and being paid, compression,   *)
(* banishment, return, moves. `agg` is kept the way the application keeps it - adjusted level by level along the way up -    *)
(* and has to equal, always, what the tree says.                                                                              *)
EXTENDS Refer, TLC
CONSTANTS Roots, Others, MaxTime, MaxCoins, Month, Moves, Wallet
VARIABLES f, bal, agg, now, list
vars == <<f, bal, agg, now, list>>
All == Roots \cup Others
Day == 1
Dust == BZero
Lv == 0..Depth
ZeroAgg == [coins |-> [i \in Lv |-> 0], acnt |-> [i \in Lv |-> 0], akids |-> {}]
Init == /\ f = [a \in Roots |-> [New(NoOne, 0, Month) EXCEPT !.comp = NoTime]]
        /\ bal = [a \in All |-> 0] /\ agg = [a \in Roots |-> ZeroAgg] /\ now = 0 /\ list = [a \in Roots |-> {}]
\* add g(i, level below the k-th ancestor) to the aggregates of the ancestors of a, beginning with account p at distance k
Up(ff, ag, p, W(_, _, _)) ==
  IF p = NoOne THEN ag
  ELSE LET line == <<p>> \o Climb(ff, p, Depth-1) IN FoldLeftDomain(LAMBDA g, k : [g EXCEPT ![line[k]] = W(@, k, line[k])], ag, line)
AddLv(x, k, c, n) == [x EXCEPT !.coins[k] = @ + c, !.acnt[k] = @ + n]
AddAll(x, k, y, sign) == [x EXCEPT !.coins = [i \in Lv |-> IF i >= k THEN x.coins[i] + sign * y.coins[i-k] ELSE x.coins[i]],
                                   !.acnt = [i \in Lv |-> IF i >= k THEN x.acnt[i] + sign * y.acnt[i-k] ELSE x.acnt[i]]]
D(a) == BInt(bal[a])
Register(a, p) ==
  /\ a \notin DOMAIN f /\ p \in InTree(f) /\ ~Closed(f[p], now, Month)
  /\ f' = a :> New(p, now, Month) @@ f
  /\ agg' = a :> [ZeroAgg EXCEPT !.coins[0] = bal[a]] @@ Up(f, agg, p, LAMBDA x, k, q : AddLv(x, k, bal[a], 0))
  /\ list' = a :> {} @@ [list EXCEPT ![p] = @ \cup {a}]
  /\ UNCHANGED <<bal, now>>
\* where an account comes back to
Back(ff, ag, a) ==
  LET p == FirstOpen(ff, ff[a].up, now, Month) IN
  [f |-> [ff EXCEPT ![a] = BackUnder(@, p)],
   agg |-> IF p = NoOne THEN ag ELSE Up(ff, ag, p, LAMBDA x, k, q : AddLv(x, k, ag[a].coins[0], 0)),
   list |-> IF p = NoOne THEN list ELSE [list EXCEPT ![p] = @ \cup {a}]]
SetBalance(a, n) ==
  /\ a \in DOMAIN f /\ n # bal[a] /\ bal' = [bal EXCEPT ![a] = n]
  /\ LET back == f[a].gone /\ ~Bankrupt(BInt(n), Dust)
         b == IF back THEN Back(f, agg, a) ELSE [f |-> f, agg |-> agg, list |-> list]
         c == n - agg[a].coins[0]
         ag == [b.agg EXCEPT ![a].coins[0] = n]
     IN /\ f' = [b.f EXCEPT ![a] = Redelegated(@, BInt(n), Dust, now, Month)]
        /\ agg' = IF f'[a].gone THEN ag ELSE Up(f', ag, f'[a].up, LAMBDA x, k, q : AddLv(x, k, c, 0))
        /\ list' = b.list
  /\ UNCHANGED now
Activity(ff, ag, a, on) ==
  LET n == IF on THEN 1 ELSE -1
      g(x, k, q) == [AddLv(x, k, 0, n) EXCEPT !.akids = IF k = 1 THEN (IF on THEN @ \cup {a} ELSE @ \ {a}) ELSE @]
  IN Up(ff, [ag EXCEPT ![a].acnt[0] = @ + n], ff[a].up, g)
Pay(a) ==
  /\ a \in DOMAIN f /\ ~f[a].act
  /\ LET b == IF f[a].gone THEN Back(f, agg, a) ELSE [f |-> f, agg |-> agg, list |-> list] IN
     f' = [b.f EXCEPT ![a] = Paid(@)] /\ agg' = Activity(b.f, b.agg, a, TRUE) /\ list' = b.list
  /\ UNCHANGED <<bal, now>>
Lapse(a) == /\ a \in DOMAIN f /\ f[a].act
            /\ f' = [f EXCEPT ![a] = IF f[a].up = NoOne THEN [Lapsed(@, now, Month) EXCEPT !.comp = NoTime] ELSE Lapsed(@, now, Month)]
            /\ agg' = Activity(f, agg, a, FALSE) /\ UNCHANGED <<bal, now, list>>
Compress(a) ==
  /\ a \in DOMAIN f /\ MayCompress(f[a], now) /\ ~f[a].act
  /\ LET y == agg[a]
         \* the k-th ancestor: what was i below a was k+i below it and is now k+i-1 below it
         g(x, k, q) == [x EXCEPT !.coins = [j \in Lv |-> IF j < k THEN x.coins[j] ELSE x.coins[j] + (IF j-k+1 <= Depth THEN y.coins[j-k+1] ELSE 0) - (IF j > k THEN y.coins[j-k] ELSE 0)],
                                 !.acnt = [j \in Lv |-> IF j < k THEN x.acnt[j] ELSE x.acnt[j] + (IF j-k+1 <= Depth THEN y.acnt[j-k+1] ELSE 0) - (IF j > k THEN y.acnt[j-k] ELSE 0)],
                                 !.akids = IF k = 1 THEN @ \cup y.akids ELSE @]
     IN /\ f' = Compressed(f, a, D(a), Dust, now, Month)
        /\ agg' = Up(f, [agg EXCEPT ![a] = [ZeroAgg EXCEPT !.coins[0] = y.coins[0]]], f[a].up, g)
  /\ list' = [list EXCEPT ![a] = {}, ![f[a].up] = @ \cup list[a]]
  /\ UNCHANGED <<bal, now>>
Banish(a) ==
  /\ a \in DOMAIN f /\ f[a].ban # NoTime /\ f[a].ban <= now /\ MayBanish(f[a], D(a), Dust)
  /\ f' = [f EXCEPT ![a] = Gone(@)]
  /\ agg' = Up(f, agg, f[a].up, LAMBDA x, k, q : AddLv(x, k, 0 - agg[a].coins[0], 0))
  /\ list' = [list EXCEPT ![f[a].up] = @ \ {a}]
  /\ UNCHANGED <<bal, now>>
Ask(a, p) == /\ Moves /\ a \in DOMAIN f /\ f[a].tr = NoOne /\ f[a].up # NoOne /\ MayMove(f, a, p, now, Month) /\ f' = [f EXCEPT ![a].tr = p] /\ UNCHANGED <<bal, agg, now, list>>
Drop(a) == a \in DOMAIN f /\ f[a].tr # NoOne /\ f' = [f EXCEPT ![a].tr = NoOne] /\ UNCHANGED <<bal, agg, now, list>>
Move(a) ==
  /\ a \in DOMAIN f /\ f[a].tr # NoOne /\ MayMove(f, a, f[a].tr, now, Month)
  /\ LET y == agg[a]  p == f[a].tr  q0 == f[a].up
         away(x, k, q) == [AddAll(x, k, y, -1) EXCEPT !.akids = IF k = 1 THEN @ \ {a} ELSE @]
         to(x, k, q) == [AddAll(x, k, y, 1) EXCEPT !.akids = IF k = 1 /\ f[a].act THEN @ \cup {a} ELSE @]
     IN /\ f' = [f EXCEPT ![a].up = p, ![a].tr = NoOne]
        /\ agg' = Up(f', Up(f, agg, q0, away), p, to)
        /\ list' = [list EXCEPT ![q0] = @ \ {a}, ![p] = @ \cup {a}]
  /\ UNCHANGED <<bal, now>>
\* time passes only when everything due has been done
Pending == \E a \in DOMAIN f : (MayCompress(f[a], now) /\ ~f[a].act) \/ (f[a].ban # NoTime /\ f[a].ban <= now)
Tick == ~Pending /\ now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<f, bal, agg, list>>
Next == \/ Tick
        \/ \E a \in All : Pay(a) \/ Lapse(a) \/ Compress(a) \/ Banish(a) \/ Drop(a) \/ Move(a)
        \/ \E a \in All : \E p \in All : Register(a, p) \/ Ask(a, p)
        \/ \E a \in Wallet : \E n \in 0..MaxCoins : SetBalance(a, n)
Spec == Init /\ [][Next]_vars
IsForest == Forest(f)
Linked == \A a \in DOMAIN f : list[a] = (IF f[a].gone THEN {} ELSE Kids(f)[a])
Aggregates ==
  LET k == Kids(f)  lv == Levels(k) IN
  \A a \in InTree(f) : LET t == TeamOf(f, lv, k, a, LAMBDA b : D(b), LAMBDA b : D(b)) IN
     /\ \A i \in Lv : BInt(agg[a].coins[i]) = t.coins[i+1] /\ agg[a].acnt[i] = t.acnt[i+1]
     /\ agg[a].akids = t.akids
ActiveStays == \A a \in DOMAIN f : f[a].act => ~f[a].gone /\ f[a].ban = NoTime /\ f[a].comp = NoTime
NeverBoth == \A a \in DOMAIN f : f[a].gone => ~f[a].act /\ Kids(f)[a] = {} /\ f[a].ban = NoTime
\* whoever is inactive below somebody is waiting for compression, or was compressed and has a delegation or waits for banishment
Deadlines == \A a \in InTree(f) : ~f[a].act /\ f[a].up # NoOne /\ f[a].comp = NoTime => (Bankrupt(D(a), Dust) <=> f[a].ban # NoTime)
\* links change only by registration, compression, agreed moves and returns
Links == [][\A a \in DOMAIN f : f'[a].up # f[a].up => f[a].gone \/ f[a].tr = f'[a].up \/ (f[a].up \in DOMAIN f /\ f'[a].up = f[f[a].up].up)]_vars
=============================================================================
