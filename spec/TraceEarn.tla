------------------------------ MODULE TraceEarn ------------------------------
(* C25 on recorded histories. mem: the length of a day. *)
EXTENDS TraceLib, Earn
Init == TInit(86400)
Rec(st) == [a \in DOMAIN st.earn.list |-> st.earn.list[a]]
RECURSIVE Fold(_, _)
Fold(rec, ms) == IF ms = <<>> THEN rec ELSE Fold(IF Head(ms).m = "earn" THEN Report(rec, Head(ms).list) ELSE rec, Tail(ms))
Expected == IF Done THEN Fold(Rec(P), E.msgs) ELSE Rec(P)
Entitled(m) == m.by \in ToSet(par.earn.signers)
Answers(day) == FirstOver(DOMAIN S.earn.act, LAMBDA a :
   LET want == Active(Rec(S), a, E.now, day) IN
   FirstBad(<<
     Say(S.earn.act[a].vpn = want.vpn /\ S.earn.act[a].sto = want.sto /\ ~S.earn.act[a].err, "does not count as earner exactly while its report is less than two days old"),
     Say(S.earn.get[a] = (IF a \in DOMAIN Rec(S) THEN Rec(S)[a] ELSE NoReport), "queried times differ from those recorded") >>))
Step == LET day == IF E.op = "reset" THEN E.day ELSE mem IN
  FirstBad(<<
    IF E.op = "reset" THEN "" ELSE
      Say(MayBecome(Expected, Rec(S), E.now, day), "earners recorded differently than reported: expected " \o ToString(Expected) \o " got " \o ToString(Rec(S))),
    Say(S.earn.n = Cardinality(DOMAIN S.earn.list) /\ S.earn.list = S.earn.q, "the list query does not show every earner exactly once"),
    IF E.op = "tx" /\ E.mode = "" /\ E.gas = 0 /\ E.ante /\ (\A i \in DOMAIN E.msgs : E.msgs[i].m = "earn" /\ E.msgs[i].by = E.by /\ Entitled(E.msgs[i]))
      THEN Say(E.ok, "a proper report was refused: " \o E.err) ELSE "",
    Answers(day)
  >>)
Next == TNext(Step, IF E.op = "reset" THEN E.day ELSE mem)
Spec == Init /\ [][Next]_tvars
=============================================================================
