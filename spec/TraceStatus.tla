---------------------------- MODULE TraceStatus ----------------------------
(* C09 up to the top of the ladder: what the real keeper makes of a leader with given delegations and referrals.  *)
EXTENDS TraceLib, Refer
Day == 86400
Init == TInit(<<>>)
\* the leader is 0, its i-th referral i
Team == [a \in {0} |-> [deleg |-> E.deleg, akids |-> {i \in DOMAIN E.kids : E.kids[i].act}]]
Of(i) == [acnt |-> E.kids[i].acnt]
Ok(st) == st = 1 \/ (LET r == Req(st) IN MeetsReq([a \in {0} \cup DOMAIN E.kids |-> IF a \in DOMAIN E.kids THEN Of(a) ELSE Team[0]], 0, r, 1))
RECURSIVE Rise(_)
Rise(st) == IF st # 9 /\ Ok(NextUp(st)) THEN Rise(NextUp(st)) ELSE st
Settled(st, down, now) == IF Ok(st) THEN <<Rise(st), NoTime>> ELSE <<st, IF down = NoTime THEN now + 2*Day ELSE down>>
Step ==
  IF E.op = "reset" THEN "" ELSE
  LET s1 == Settled(E.st, IF E.pending THEN 3600 ELSE NoTime, 0)
      s3 == IF s1[2] = NoTime THEN s1 ELSE Settled(NextDown(s1[1]), NoTime, 2*Day)
  IN FirstBad(<<
    FirstOver(DOMAIN E.met, LAMBDA k : LET st == CHOOSE i \in 1..9 : ToString(i) = k IN
      Say(E.met[k] = (IF Ok(st) THEN "true" ELSE "false"), "entitled to status " \o k \o ": " \o E.met[k] \o " instead of " \o ToString(Ok(st)))),
    Say(<<E.st1, E.down1>> = s1, "status and downgrade " \o ToString(<<E.st1, E.down1>>) \o " instead of " \o ToString(s1)),
    Say(E.st2 = E.st1 /\ E.down2 = E.down1, "downgraded before its time"),
    Say(<<E.st3, E.down3>> = s3, "after the downgrade " \o ToString(<<E.st3, E.down3>>) \o " instead of " \o ToString(s3)),
    Say(E.at = (IF E.st3 >= 5 THEN <<E.st3>> ELSE <<>>), "listed under the statuses " \o ToString(E.at) \o " instead of " \o ToString(E.st3)) >>)
Next == TNext(Step, mem)
Spec == Init /\ [][Next]_tvars
=============================================================================
