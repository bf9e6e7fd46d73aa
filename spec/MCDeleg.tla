------------------------------ MODULE MCDeleg ------------------------------
(* All histories of delegating, revoking, paying back and paying interest for a few accounts. `earned` is what every     *)
(* tick of time was worth; amounts are such that nothing is lost by rounding.                                          *)
EXTENDS Deleg, TLC
CONSTANTS Users, Units, MaxTime, Dust, Extra, Revs
VARIABLES acc, rec, now, earned, got, burnt, asked
vars == <<acc, rec, now, earned, got, burnt, asked>>
Day == 2
Holders == Users \cup {"top", SplitPool}
Zero == [m |-> BZero, d |-> BZero, r |-> BZero]
Bpar == [fee |-> <<0, 1>>, maxfee |-> BZero, prop |-> <<1, 2>>, comp |-> <<1, 2>>, dust |-> BInt(Dust)]
One(base) == << <<base, 1>>, <<1, 1>>, <<1, 1>>, <<0, 1>>, <<0, 1>> >>
Dpar == [min |-> BInt(60), table |-> << [start |-> BZero, pc |-> One(1)], [start |-> BInt(120), pc |-> One(2)] >>,
         rev |-> [period |-> 2, burn |-> <<1, 2>>], xrev |-> [period |-> 1, burn |-> <<2, 3>>]]
Env == [bank |-> Bpar, del |-> Dpar, now |-> now, day |-> Day, flags |-> [a \in Users |-> <<TRUE, FALSE, a = "u", FALSE, FALSE>>], ups |-> [a \in Users |-> <<>>]]
Amts == {BInt(60 * i) : i \in 1..Units} \cup (IF Extra THEN {BInt(90)} ELSE {})
Init == /\ acc = [a \in Holders |-> IF a \in Users THEN [Zero EXCEPT !.m = BInt(60 * Units)] ELSE Zero]
        /\ rec = [a \in Users |-> NoRec] /\ now = 0
        /\ earned = [a \in Users |-> BZero] /\ got = [a \in Users |-> BZero] /\ burnt = BZero /\ asked = [a \in Users |-> <<>>]
Paid(a, acc1, moved) == BSub(BAdd(acc1[a].m, moved), acc[a].m)
Delegate(a, x) ==
  LET r == DoDelegate(Env, acc, rec, a, x) IN
  /\ Has(acc, a, "m", x) /\ r.ok /\ acc' = r.acc /\ rec' = r.rec
  /\ got' = [got EXCEPT ![a] = BAdd(@, BSub(BAdd(acc'[a].m, x), acc[a].m))]
  /\ UNCHANGED <<now, earned, burnt, asked>>
Revoke(a, x, e) ==
  LET r == DoRevoke(Env, acc, rec, a, x, e)  s == BFrac(Terms(Env, e).burn, x) IN
  /\ r.ok /\ Len(asked[a]) < Revs /\ acc' = r.acc /\ rec' = r.rec
  /\ got' = [got EXCEPT ![a] = BAdd(@, BSub(acc'[a].m, acc[a].m))]
  /\ burnt' = BAdd(burnt, s)
  /\ asked' = [asked EXCEPT ![a] = Append(@, [t |-> now + Terms(Env, e).period * Day, a |-> BSub(x, s), back |-> FALSE])]
  /\ UNCHANGED <<now, earned>>
Accrue(a) ==
  LET r == DoAccrue(Env, acc, rec, a) IN
  /\ rec[a].next # None /\ rec[a].next <= now /\ acc' = r.acc /\ rec' = r.rec
  /\ got' = [got EXCEPT ![a] = BAdd(@, BSub(acc'[a].m, acc[a].m))]
  /\ UNCHANGED <<now, earned, burnt, asked>>
PayBack(a) ==
  LET r == DoPayBack(Env, acc, rec, a) IN
  /\ Ripe(rec[a].req, now) # <<>> /\ acc' = r.acc /\ rec' = r.rec
  /\ asked' = [asked EXCEPT ![a] = [i \in DOMAIN @ |-> [@[i] EXCEPT !.back = @ \/ asked[a][i].t <= now]]]
  /\ UNCHANGED <<now, earned, got, burnt>>
Tick(n) == /\ now + n <= MaxTime /\ now' = now + n
           /\ earned' = [a \in Users |-> BAdd(earned[a], Interest(RateNow(Env, acc, a), acc[a].d, n, Day))]
           /\ UNCHANGED <<acc, rec, got, burnt, asked>>
Next == \/ \E n \in 1..3 : Tick(n)
        \/ \E a \in Users : Accrue(a) \/ PayBack(a) \/ (\E x \in Amts : Delegate(a, x) \/ Revoke(a, x, TRUE) \/ Revoke(a, x, FALSE))
Spec == Init /\ [][Next]_vars
Nonneg == NonNegative(acc)
FrozenIsPending == \A a \in Users : acc[a].r = Pending(rec[a].req)
\* nobody is paid for a stretch of time twice, or loses one
PaidForEveryStretch == \A a \in Users :
   earned[a] = BAdd(got[a], IF rec[a].next = None THEN BZero ELSE Interest(RateNow(Env, acc, a), acc[a].d, now - (rec[a].next - Day), Day))
NextExactlyIfDelegated == \A a \in Users : (rec[a].next # None) = BLt(BInt(Dust), acc[a].d)
\* coins only disappear as the burnt share and only appear as interest
Total3 == BAdd(BAdd(Sum(acc, "m"), Sum(acc, "d")), Sum(acc, "r"))
Balance == BAdd(Total3, burnt) = BAdd(BInt(60 * Units * Cardinality(Users)), FoldFunction(LAMBDA x, s : BAdd(x, s), BZero, got))
\* what is pending is what was asked for and has not come back
OnceEach == \A a \in Users : BSumSeq([i \in DOMAIN asked[a] |-> IF asked[a][i].back THEN BZero ELSE asked[a][i].a]) = acc[a].r
=============================================================================
