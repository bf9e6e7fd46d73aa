----------------------------- MODULE TraceDeleg -----------------------------
(* C04 (delegating, revoking, paying back) and C05 (interest) on recorded histories. mem: the length of a day.           *)
EXTENDS TraceLib, Deleg
Init == TInit(86400)
Day == IF E.op = "reset" THEN E.day ELSE mem
Users == DOMAIN S.del
Acc0 == [a \in DOMAIN P.bank.acc |-> Coin(P.bank.acc[a])]
Acc1 == [a \in DOMAIN S.bank.acc |-> Coin(S.bank.acc[a])]
Rec(st) == [a \in DOMAIN st.del |-> [next |-> st.del[a].next, req |-> st.del[a].req]]

(* --- what an account's rate depends on --- *)
Works(st) == {a \in DOMAIN st.nod.v : st.nod.v[a].on /\ ~st.nod.v[a].jailed /\ ~st.nod.v[a].banned /\ E.h - st.nod.v[a].unjail >= 6 * par.nod.unjailafter}
Paying(st, a) == a \in DOMAIN st.prof.p /\ st.prof.p[a].until > E.now
Recent(t, day) == t >= 0 /\ t + 2*day > E.now
Earner(st, a, f) == a \in DOMAIN st.earn.list /\ Recent(st.earn.list[a][f], Day)
Flags(st, a) == <<TRUE, a \in Works(st), Paying(st, a), Earner(st, a, "vpn"), Earner(st, a, "sto")>>
Ups(st, a) == IF a \in DOMAIN st.prof.p THEN Above(st.ref, Works(st), a, 1, 0) ELSE <<>>
Env == [bank |-> par.bank, del |-> par.del, now |-> E.now, day |-> Day, flags |-> [a \in DOMAIN P.del |-> Flags(P, a)], ups |-> [a \in DOMAIN P.del |-> Ups(P, a)]]

(* --- transactions --- *)
Dels == {"delegate", "revoke", "xrevoke"}
Ms == SelectSeq(E.msgs, LAMBDA m : m.m \in Dels)
Pure == Len(Ms) = Len(E.msgs)
Ante == IF E.ante THEN Move(Acc0, E.by, FeePool, "m", E.fee) ELSE Acc0
One(st, m) == IF m.m = "delegate" THEN DoDelegate(Env, st.acc, st.rec, m.by, m.amt) ELSE DoRevoke(Env, st.acc, st.rec, m.by, m.amt, m.m = "xrevoke")
RECURSIVE Fold(_, _)
Fold(st, ms) == IF ms = <<>> \/ ~st.ok THEN st ELSE Fold(One(st, Head(ms)), Tail(ms))
TxWant == IF Done THEN Fold([acc |-> Ante, rec |-> Rec(P), ok |-> TRUE], Ms) ELSE [acc |-> IF E.mode = "" THEN Ante ELSE Acc0, rec |-> Rec(P), ok |-> FALSE]
TaskWant ==
  CASE E.hook = "delegating/accrue" /\ P.del[E.acc].next = E.at -> DoAccrue(Env, Acc0, Rec(P), E.acc)
    [] E.hook = "delegating/revoke" -> DoPayBack(Env, Acc0, Rec(P), E.acc)
    [] E.hook = "referral/banish" /\ ~P.ref[E.acc].gone /\ S.ref[E.acc].gone -> DoRevoke(Env, Acc0, Rec(P), E.acc, Acc0[E.acc].d, FALSE)
    [] OTHER -> [acc |-> Acc0, rec |-> Rec(P)]
Want == CASE E.op = "tx" -> TxWant [] E.op = "task" -> TaskWant [] OTHER -> [acc |-> Acc0, rec |-> Rec(P), ok |-> TRUE]

SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Cardinality({j \in DOMAIN s : s[j] = s[i]}) = Cardinality({j \in DOMAIN t : t[j] = s[i]})
Interested(a) == P.del[a].next # None       \* an interest may come with it
C04Step ==
  FirstBad(<<
    FirstOver(Users, LAMBDA a : Say(Acc1[a].r = Pending(S.del[a].req), "frozen coins are not what is pending")),
    IF E.op \notin {"tx", "end"} THEN "" ELSE
      FirstOver(Users, LAMBDA a : Say(\A i \in DOMAIN S.del[a].req : S.del[a].req[i].t > E.now \/ par.del.rev.period = 0 \/ par.del.xrev.period = 0, "a revocation is overdue")),
    IF E.op = "reset" THEN "" ELSE
      LET w == Want IN
      FirstOver(Users, LAMBDA a : FirstBad(<<
        Say(SameBag(S.del[a].req, w.rec[a].req), "pending revocations are not as expected: " \o ToString(w.rec[a].req) \o " but " \o ToString(S.del[a].req)),
        Say(Acc1[a].d = w.acc[a].d, "delegated coins changed wrongly, expected " \o ToString(w.acc[a].d) \o " got " \o ToString(Acc1[a].d)),
        Say(Acc1[a].r = w.acc[a].r, "frozen coins changed wrongly, expected " \o ToString(w.acc[a].r) \o " got " \o ToString(Acc1[a].r)),
        IF (E.op = "tx" /\ (Pure \/ ~Done) /\ ~Interested(a)) \/ (E.op = "task" /\ E.hook \in {"delegating/revoke", "referral/banish"} /\ ~Interested(a))
          THEN Say(BLe(w.acc[a].m, Acc1[a].m), "liquid coins changed wrongly, expected " \o ToString(w.acc[a].m) \o " got " \o ToString(Acc1[a].m)) ELSE "",
        IF E.op = "task" /\ E.hook = "delegating/revoke" THEN Say(w.acc[a].m = Acc1[a].m, "paying back gave " \o ToString(Acc1[a].m) \o " instead of " \o ToString(w.acc[a].m)) ELSE ""
      >>)),
    IF E.op = "tx" /\ E.mode = "" /\ E.gas = 0 /\ E.ante /\ Len(E.msgs) = 1 /\ Pure THEN
      LET m == E.msgs[1]
          may == IF m.m = "delegate" THEN BLe(m.amt, Ante[m.by].m) /\ BLe(par.del.min, m.amt) ELSE BLe(m.amt, Acc0[m.by].d)
          must == IF m.m = "delegate" THEN BLe(par.del.min, m.amt) ELSE may   \* interest may help to pay
      IN FirstBad(<< Say(m.by = E.by /\ m.amt # BZero /\ may => E.ok, "a proper " \o m.m \o " was refused: " \o E.err),
                     Say(E.ok => must, "a " \o m.m \o " was accepted that should not be") >>)
    ELSE ""
  >>)

(* --- C05 --- *)
Tasks(st, a) == SelectSeq(st.tasks, LAMBDA t : t.h = "delegating/accrue" /\ t.a = a)
DiffAcc(w) == [a \in {x \in DOMAIN w : w[x] # Acc1[x]} |-> [want |-> w[a], got |-> Acc1[a]]]
C05Step ==
  FirstBad(<<
    IF E.op \in {"task", "begin"} THEN "" ELSE
      FirstOver(Users, LAMBDA a : LET t == Tasks(S, a) IN
        Say(IF S.del[a].next = None THEN t = <<>> ELSE Len(t) = 1 /\ t[1].t = S.del[a].next, "next payment " \o ToString(S.del[a].next) \o " but scheduled " \o ToString(t))),
    IF E.op = "reset" THEN "" ELSE
      LET w == Want IN
      FirstBad(<<
        FirstOver(Users, LAMBDA a : Say(S.del[a].next = w.rec[a].next, "next payment is due at " \o ToString(S.del[a].next) \o " instead of " \o ToString(w.rec[a].next))),
        IF (E.op = "tx" /\ Pure) \/ (E.op = "task" /\ E.hook \in {"delegating/accrue", "delegating/revoke", "referral/banish"}) THEN Say(Acc1 = w.acc, "wrong interest or bonus: " \o ToString(DiffAcc(w.acc))) ELSE ""
      >>)
  >>)
Step == IF Prop = "C04" THEN C04Step ELSE C05Step
Next == TNext(Step, IF E.op = "reset" THEN E.day ELSE mem)
Spec == Init /\ [][Next]_tvars
=============================================================================
