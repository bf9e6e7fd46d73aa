------------------------------- MODULE Deleg -------------------------------
(* Delegations: the delegated coins of an account earn interest once per day of the scheduler, counted from the last    *)
(* change; revoked coins are frozen for a period and paid back once. Balances as in Bank; beside them, per account, a    *)
(* record [next, req]: the time of the next payment (None = no payment due) and the pending revocations [t, a].          *)
EXTENDS Bank
None == -1
NoRec == [next |-> None, req |-> <<>>]

(* --- rates --- *)
FSum(f, g) == LET k == Lcm(f[2], g[2]) IN <<f[1] * (k \div f[2]) + g[1] * (k \div g[2]), k>>
\* the last row of the table that the delegation reaches; rows after the first unreached one do not count
RECURSIVE Row(_, _, _)
Row(table, d, i) == IF i > Len(table) \/ BLt(d, table[i].start) THEN i - 1 ELSE Row(table, d, i+1)
\* flags: which of the columns base, validator, subscription, VPN, storage apply. Monthly rate, as a fraction.
RECURSIVE Columns(_, _, _)
Columns(pc, flags, i) == IF i > 5 THEN <<0, 1>> ELSE IF flags[i] THEN FSum(pc[i], Columns(pc, flags, i+1)) ELSE Columns(pc, flags, i+1)
Rate(table, dust, d, flags) ==
  IF BLe(d, dust) THEN <<0, 1>>
  ELSE LET i == Row(table, d, 1) IN IF i = 0 THEN <<0, 1>> ELSE Columns(table[i].pc, flags, 1)

(* x * elapsed / day, and the interest of that: a month has 30 days *)
PartOf(x, elapsed, day) == BDivS(BMul(x, BInt(elapsed)), day)
Interest(rate, d, elapsed, day) == BDivS(BDivS(BDivS(BMul(BMul(d, BInt(rate[1])), BInt(elapsed)), rate[2]), 30), day)

(* --- validators above an account get a part of what its delegation earns: [who, permille] --- *)
TierOf(st, lvl) ==      \* lvl counted from 1
  IF st >= 9 /\ lvl <= 20 THEN 6 ELSE IF st >= 7 /\ lvl <= 14 THEN 5 ELSE IF st >= 6 /\ lvl <= 12 THEN 4
  ELSE IF st >= 5 /\ lvl <= 10 THEN 3 ELSE IF st >= 4 /\ lvl <= 6 THEN 2 ELSE IF st >= 3 /\ lvl <= 4 THEN 1 ELSE 0
RECURSIVE Above(_, _, _, _, _)
Above(ref, works, a, lvl, best) ==
  IF lvl > 20 \/ a \notin DOMAIN ref \/ ref[a].up = "none" THEN <<>>
  ELSE LET p == ref[a].up
           t == IF p \in DOMAIN ref /\ p \in works THEN TierOf(ref[p].st, lvl) ELSE 0
       IN IF t > best THEN <<[who |-> p, k |-> t - best]>> \o Above(ref, works, p, lvl+1, t)
          ELSE Above(ref, works, p, lvl+1, best)
RECURSIVE PayAll(_, _, _)
PayAll(acc, list, x) ==
  IF list = <<>> THEN acc ELSE PayAll(Add(acc, Head(list).who, "m", BDivS(BDivS(BMulS(x, Head(list).k), 1000), 30)), Tail(list), x)
PayNet(bpar, acc, a, x) == LET f == FeeOf(bpar, x) IN Add(Add(acc, SplitPool, "m", f), a, "m", BSub(x, f))

(* --- steps. env = [bank, del: parameters, now, day, flags: per account, ups: per account the validators above] --- *)
RateNow(env, acc, a) == Rate(env.del.table, env.bank.dust, acc[a].d, env.flags[a])
\* the part of the day that has passed is paid
Settle(env, acc, rec, a) ==
  IF rec[a].next = None THEN acc
  ELSE LET el == env.now - (rec[a].next - env.day)
           i == Interest(RateNow(env, acc, a), acc[a].d, el, env.day)
       IN IF i = BZero THEN acc ELSE PayAll(PayNet(env.bank, acc, a, i), env.ups[a], PartOf(acc[a].d, el, env.day))
NextFor(env, acc, a) == IF BLe(acc[a].d, env.bank.dust) THEN None ELSE env.now + env.day

DoDelegate(env, acc, rec, a, amt) ==
  LET fee == FeeOf(env.bank, amt)  x == BSub(amt, fee)
      a1 == Settle(env, Move(acc, a, SplitPool, "m", fee), rec, a)
      a2 == Add(Sub(a1, a, "m", x), a, "d", x)
  IN [acc |-> a2, rec |-> [rec EXCEPT ![a].next = NextFor(env, a2, a)], ok |-> BLe(env.del.min, amt) /\ IsNat(a2[a].m)]
Terms(env, express) == IF express THEN env.del.xrev ELSE env.del.rev
DoRevoke(env, acc, rec, a, amt, express) ==
  IF amt = BZero THEN [acc |-> acc, rec |-> rec, ok |-> TRUE]
  ELSE LET t == Terms(env, express)
           back == BSub(amt, BFrac(t.burn, amt))
           a1 == Settle(env, acc, rec, a)
           a2 == Frozen(a1, a, amt, BFrac(t.burn, amt))
       IN [acc |-> a2, rec |-> [rec EXCEPT ![a] = [next |-> NextFor(env, a2, a), req |-> Append(@.req, [t |-> env.now + t.period * env.day, a |-> back])]],
           ok |-> BLe(amt, acc[a].d)]
\* the scheduled payment of a day's interest
DoAccrue(env, acc, rec, a) ==
  LET r == RateNow(env, acc, a) IN
  IF r[1] = 0 THEN [acc |-> acc, rec |-> [rec EXCEPT ![a].next = None]]
  ELSE LET i == Interest(r, acc[a].d, env.day, env.day)
           a1 == IF i = BZero THEN acc ELSE PayNet(env.bank, acc, a, i)
       IN [acc |-> PayAll(a1, env.ups[a], acc[a].d), rec |-> [rec EXCEPT ![a].next = @ + env.day]]
\* revocations whose time has come are paid back, all of them
Ripe(req, now) == SelectSeq(req, LAMBDA q : q.t <= now)
Unripe(req, now) == SelectSeq(req, LAMBDA q : q.t > now)
Pending(req) == BSumSeq([i \in DOMAIN req |-> req[i].a])
DoPayBack(env, acc, rec, a) ==
  [acc |-> Returned(acc, a, Pending(Ripe(rec[a].req, env.now))), rec |-> [rec EXCEPT ![a].req = Unripe(@, env.now)]]
=============================================================================
