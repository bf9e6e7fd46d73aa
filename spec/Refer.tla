------------------------------- MODULE Refer -------------------------------
(* The referral structure. A fact record per account: up (its referrer or "none"), act (its subscription is paid), gone   *)
(* (banished), st (status), down / comp / ban (times of the pending downgrade, compression, banishment, or None) and tr   *)
(* (the requested new referrer or "none"). Everything an account "has" in its team follows from these and the balances.  *)
EXTENDS Big, FiniteSets, Functions, SequencesExt
CONSTANT Depth          \* levels of a team that count (10)
NoTime == -1
NoOne == "none"

(* --- the tree --- *)
InTree(f) == {a \in DOMAIN f : ~f[a].gone}
Kids(f) == [a \in DOMAIN f |-> {b \in InTree(f) : f[b].up = a}]
\* the members of each level of a team, from the account itself (level 0) down; kids as computed above
RECURSIVE Below(_, _, _)
Below(kids, set, n) == <<set>> \o (IF n = 0 THEN <<>> ELSE Below(kids, UNION {kids[x] : x \in set}, n-1))
Levels(kids) == [a \in DOMAIN kids |-> Below(kids, {a}, Depth)]
RECURSIVE Climb(_, _, _)
Climb(f, a, n) == IF n = 0 \/ a \notin DOMAIN f \/ f[a].up = NoOne THEN <<>> ELSE <<f[a].up>> \o Climb(f, f[a].up, n-1)
Ancestors(f, a) == ToSet(Climb(f, a, Cardinality(DOMAIN f)))
Forest(f) == \A a \in InTree(f) : /\ f[a].up = NoOne \/ (f[a].up \in InTree(f))
                                  /\ a \notin Ancestors(f, a)

(* --- what a team amounts to --- *)
SumOver(set, Op(_)) == FoldSet(LAMBDA x, s : BAdd(Op(x), s), BZero, set)
TeamOf(f, levels, kids, a, Own(_), Dlg(_)) ==
  [coins |-> [i \in 1..Depth+1 |-> SumOver(levels[a][i], Own)],
   deleg |-> [i \in 1..Depth+1 |-> SumOver(levels[a][i], Dlg)],
   acnt |-> [i \in 1..Depth+1 |-> Cardinality({b \in levels[a][i] : f[b].act})],
   akids |-> {b \in kids[a] : f[b].act}]

(* --- statuses --- *)
Ladder == <<1, 2, 3, 4, 5, 6, 7, 9>>
Rank(st) == CHOOSE i \in DOMAIN Ladder : Ladder[i] = st
NextUp(st) == Ladder[Rank(st) + 1]
NextDown(st) == Ladder[Rank(st) - 1]
\* lines: how many levels' delegations count; coins: how many whole coins they must make; teams: how many active referrals
\* with at least `with` active ones of their own; big: beside that, three active referrals with that many active people each
Req(st) ==
  CASE st = 2 -> [lines |-> 4, coins |-> 20000, teams |-> 2, with |-> 2, big |-> 0]
    [] st = 3 -> [lines |-> 6, coins |-> 50000, teams |-> 3, with |-> 3, big |-> 0]
    [] st = 4 -> [lines |-> 8, coins |-> 150000, teams |-> 3, with |-> 3, big |-> 10]
    [] st = 5 -> [lines |-> 10, coins |-> 300000, teams |-> 3, with |-> 3, big |-> 50]
    [] st = 6 -> [lines |-> 10, coins |-> 700000, teams |-> 3, with |-> 3, big |-> 100]
    [] st = 7 -> [lines |-> 10, coins |-> 1500000, teams |-> 3, with |-> 3, big |-> 300]
    [] st = 9 -> [lines |-> 10, coins |-> 3000000, teams |-> 3, with |-> 3, big |-> 600]
RECURSIVE SumInts(_)
SumInts(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumInts(Tail(s))
\* n whole coins, in the smallest units: a million to a coin, or, for small models, one to a coin
Coins(n, unit) == IF unit = 1 THEN BMul(BInt(n), BInt(1000000)) ELSE BInt(n)
MeetsReq(team, a, r, unit) ==
  /\ BLe(Coins(r.coins, unit), BSumSeq(SubSeq(team[a].deleg, 1, (IF r.lines > Depth THEN Depth ELSE r.lines) + 1)))
  /\ Cardinality({k \in team[a].akids : team[k].acnt[2] >= r.with}) >= r.teams
  /\ r.big > 0 => Cardinality({k \in team[a].akids : SumInts(team[k].acnt) >= r.big}) >= 3
Meets(team, a, st) == st = 1 \/ MeetsReq(team, a, Req(st), 1)
\* what has to hold between events for an account with this status
Steady(team, a, x, M(_, _, _)) ==
  IF M(team, a, x.st) THEN x.down = NoTime /\ (x.st = 9 \/ ~M(team, a, NextUp(x.st))) ELSE x.down # NoTime

(* --- registration, compression, banishment, return, moves: day and month in units of time --- *)
Closed(x, now, month) == x.up # NoOne /\ (x.gone \/ (~x.act /\ (x.comp = NoTime \/ now > x.comp - month)))
RECURSIVE FirstOpen(_, _, _, _)
FirstOpen(f, a, now, month) == IF a = NoOne \/ a \notin DOMAIN f \/ ~Closed(f[a], now, month) THEN a ELSE FirstOpen(f, f[a].up, now, month)
MayMove(f, a, dest, now, month) ==
  /\ a \in InTree(f) /\ dest \in InTree(f) /\ dest # a /\ dest # f[a].up
  /\ ~Closed(f[dest], now, month) /\ a \notin Ancestors(f, dest)
MayCompress(x, now) == x.up # NoOne /\ ~x.gone /\ x.comp # NoTime /\ x.comp <= now
Bankrupt(d, dust) == BLe(d, dust)
MayBanish(x, d, dust) == x.up # NoOne /\ ~x.gone /\ ~x.act /\ Bankrupt(d, dust)
New(up, now, month) == [up |-> up, act |-> FALSE, gone |-> FALSE, st |-> 1, down |-> NoTime, comp |-> now + 2*month, ban |-> NoTime, tr |-> NoOne]
Compressed(f, a, d, dust, now, month) ==
  [b \in DOMAIN f |-> IF b = a THEN [f[a] EXCEPT !.comp = NoTime, !.st = 1, !.ban = IF Bankrupt(d, dust) THEN now + month ELSE @]
                      ELSE IF b \in Kids(f)[a] THEN [f[b] EXCEPT !.up = f[a].up] ELSE f[b]]
Gone(x) == [x EXCEPT !.gone = TRUE, !.st = 0, !.comp = NoTime, !.down = NoTime, !.ban = NoTime]
BackUnder(x, p) == [x EXCEPT !.gone = FALSE, !.st = 1, !.up = p, !.ban = NoTime, !.comp = NoTime]
Lapsed(x, now, month) == [x EXCEPT !.act = FALSE, !.comp = now + 2*month]
Paid(x) == [x EXCEPT !.act = TRUE, !.comp = NoTime, !.ban = NoTime]
\* an inactive account's delegation changed to d
Redelegated(x, d, dust, now, month) ==
  IF x.act \/ x.gone THEN x
  ELSE IF ~Bankrupt(d, dust) THEN [x EXCEPT !.ban = NoTime]
  ELSE IF x.up # NoOne /\ x.ban = NoTime /\ (x.comp = NoTime \/ now > x.comp) THEN [x EXCEPT !.ban = now + month]
  ELSE x
=============================================================================
