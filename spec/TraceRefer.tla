----------------------------- MODULE TraceRefer -----------------------------
(* C07 (aggregates), C08 (forest), C09 (statuses), C10 (compression, banishment, return) and C11 (moves) on recorded         *)
(* histories. mem: the length of a day and, per account, until when its requested move may be decided.                       *)
EXTENDS TraceLib, Refer
Init == TInit([day |-> 86400, dl |-> <<>>])
Day == IF E.op = "reset" THEN E.day ELSE mem.day
Month == 30 * Day
Fact(r) == [up |-> r.up, act |-> r.act, gone |-> r.gone, st |-> r.st, comp |-> r.comp, ban |-> r.ban, tr |-> r.tr, down |-> r.down]
Facts(st) == TLCEval([a \in DOMAIN st.ref |-> Fact(st.ref[a])])
Own(st, a) == LET b == st.bank.acc[a] IN BAdd(BAdd(b.m, b.d), b.r)
Dlg(st, a) == st.bank.acc[a].d
Team(st, f) == LET k == TLCEval(Kids(f))  lv == TLCEval(Levels(k)) IN TLCEval([a \in DOMAIN f |-> TeamOf(f, lv, k, a, LAMBDA b : Own(st, b), LAMBDA b : Dlg(st, b))])
NoDup(s) == Cardinality(ToSet(s)) = Len(s)
Dust == par.bank.dust
Many == E.op = "tx" /\ Len(E.msgs) > 1
Task(h) == E.op = "task" /\ E.hook = h
Ms(k) == IF Done THEN SelectSeq(E.msgs, LAMBDA m : m.m = k) ELSE <<>>
Single(k) == E.op = "tx" /\ E.mode = "" /\ Len(E.msgs) = 1 /\ E.msgs[1].m = k
Quiet == E.op \in {"tx", "end"}          \* everything due in this block has been done
Scheduled(h, a, t) == \E i \in DOMAIN S.tasks : S.tasks[i].h = h /\ S.tasks[i].a = a /\ S.tasks[i].t = t

Unmoved == E.op # "reset" /\ S.ref = P.ref /\ S.bank.acc = P.bank.acc
C07Step ==
  IF Unmoved THEN "" ELSE
  LET f == Facts(S)  t == Team(S, f) IN
  FirstOver(DOMAIN f, LAMBDA a : LET r == S.ref[a] IN FirstBad(<<
    Say(r.coins = t[a].coins, "coins in the team recorded as " \o ToString(r.coins) \o " but they are " \o ToString(t[a].coins)),
    Say(r.deleg = t[a].deleg, "delegations in the team recorded as " \o ToString(r.deleg) \o " but they are " \o ToString(t[a].deleg)),
    Say(r.acnt = t[a].acnt, "active members recorded as " \o ToString(r.acnt) \o " but they are " \o ToString(t[a].acnt)),
    Say(ToSet(r.akids) = t[a].akids /\ NoDup(r.akids), "active referrals recorded as " \o ToString(r.akids) \o " but they are " \o ToString(t[a].akids)) >>))

(* --- C08 --- *)
Created == {Ms("create")[i].addr : i \in DOMAIN Ms("create")}
RefOf(a) == {Ms("create")[i].ref : i \in {j \in DOMAIN Ms("create") : Ms("create")[j].addr = a}}
Approved == {Ms("tres")[i].subj : i \in {j \in DOMAIN Ms("tres") : Ms("tres")[j].yes}}
UpMayBe(f0, f1, a) ==
  IF a \notin DOMAIN f0 THEN (IF a \in Created THEN RefOf(a) ELSE {})
  ELSE IF f0[a].gone /\ ~f1[a].gone THEN {FirstOpen(f0, f0[a].up, E.now, Month)}
  ELSE IF Task("referral/compression") /\ ~f0[a].gone /\ f0[a].up = E.acc /\ E.acc \in DOMAIN f0 /\ MayCompress(f0[E.acc], E.now) THEN {f0[E.acc].up}
  ELSE IF a \in Approved THEN {f0[a].tr}
  ELSE {f0[a].up}
C08Step ==
  LET f1 == Facts(S) IN
  FirstBad(<<
    Say(Forest(f1), "the structure is not a forest"),
    LET k == Kids(f1) IN FirstOver(DOMAIN f1, LAMBDA a : Say(NoDup(S.ref[a].kids) /\ ToSet(S.ref[a].kids) = k[a], "lists " \o ToString(S.ref[a].kids) \o " as referrals instead of " \o ToString(k[a]))),
    IF E.op = "reset" THEN "" ELSE
      LET f0 == Facts(P) IN
      FirstBad(<<
        Say(DOMAIN f0 \subseteq DOMAIN f1, "somebody disappeared"),
        FirstOver(DOMAIN f1, LAMBDA a : Say(f1[a].up \in UpMayBe(f0, f1, a), "has the referrer " \o f1[a].up \o " instead of " \o ToString(UpMayBe(f0, f1, a)))),
        IF E.op = "tx" /\ E.mode = "" /\ E.ok THEN
          FirstOver(Created, LAMBDA a : Say(a \notin DOMAIN f0, "was registered again"))
        ELSE "",
        IF Single("create") /\ E.ok THEN Say(\A p \in RefOf(E.msgs[1].addr) : p \in InTree(f0), "registered under somebody outside the structure") ELSE ""
      >>)
  >>)

(* --- C09 --- *)
C09Step ==
  LET f1 == Facts(S)  t1 == Team(S, f1) IN
  FirstBad(<<
    FirstOver({5, 6, 7, 9}, LAMBDA st : LET li == S.refix[ToString(st)] IN
      Say(NoDup(li) /\ ToSet(li) = {a \in DOMAIN f1 : f1[a].st = st}, "listed under status " \o ToString(st) \o ": " \o ToString(li))),
    FirstOver(InTree(f1), LAMBDA a : Say(Steady(t1, a, f1[a], Meets),
       "has status " \o ToString(f1[a].st) \o " and a downgrade at " \o ToString(f1[a].down) \o " with " \o ToString(t1[a]))),
    IF ~Quiet THEN "" ELSE FirstOver(InTree(f1), LAMBDA a : Say(f1[a].down = NoTime \/ (f1[a].down > E.now /\ Scheduled("referral/downgrade", a, f1[a].down)), "downgrade overdue or not scheduled")),
    IF E.op = "reset" THEN "" ELSE
      LET f0 == Facts(P) IN
      FirstOver(InTree(f1) \cap InTree(f0), LAMBDA a :
        LET falls == Task("referral/downgrade") /\ E.acc = a /\ f0[a].down # NoTime /\ f0[a].down <= E.now
            squeezed == Task("referral/compression") /\ E.acc = a /\ MayCompress(f0[a], E.now)
        IN FirstBad(<<
          IF squeezed THEN Say(f1[a].st = 1, "kept its status when compressed")
          ELSE IF falls THEN Say(f1[a].st = NextDown(f0[a].st), "status fell from " \o ToString(f0[a].st) \o " to " \o ToString(f1[a].st))
          ELSE Say(f1[a].st >= f0[a].st, "status fell from " \o ToString(f0[a].st) \o " to " \o ToString(f1[a].st)),
          Say(f1[a].st > f0[a].st => Many \/ Meets(t1, a, f1[a].st), "rose without meeting the requirements"),
          Say(f1[a].down \in {NoTime, f0[a].down} \/ (f1[a].down = E.now + 2*Day /\ (f0[a].down = NoTime \/ falls \/ squeezed \/ Many)), "downgrade time " \o ToString(f1[a].down))
        >>)),
    IF E.op = "reset" THEN "" ELSE
      LET f0 == Facts(P) IN
      FirstOver(InTree(f1) \ InTree(f0), LAMBDA a : Say(f1[a].st = 1 \/ Meets(t1, a, f1[a].st), "enters with status " \o ToString(f1[a].st)))
  >>)

(* --- C10 --- *)
After(f0, f1, a) ==
  LET x == f0[a]
      d0 == Dlg(P, a)  d1 == Dlg(S, a)
      x1 == IF Task("referral/compression") /\ E.acc = a /\ MayCompress(x, E.now) THEN Compressed(f0, a, d0, Dust, E.now, Month)[a]
            ELSE IF Task("referral/banish") /\ E.acc = a /\ MayBanish(x, d0, Dust) THEN Gone(x)
            ELSE x
      back == x1.gone /\ ~f0[a].act /\ (f1[a].act \/ (d1 # d0 /\ ~Bankrupt(d1, Dust)))
      x2 == IF back THEN BackUnder(x1, FirstOpen(f0, x1.up, E.now, Month)) ELSE x1
      x3 == IF f1[a].act = x2.act THEN x2 ELSE IF f1[a].act THEN Paid(x2) ELSE Lapsed(x2, E.now, Month)
  IN IF d1 # d0 THEN Redelegated(x3, d1, Dust, E.now, Month) ELSE x3
C10Step ==
  LET f1 == Facts(S) IN
  FirstBad(<<
    FirstOver(DOMAIN f1, LAMBDA a : FirstBad(<<
       Say(f1[a].act => ~f1[a].gone /\ f1[a].ban = NoTime, "active and banished, or to be banished"),
       IF Quiet /\ a \in DOMAIN S.prof.p THEN Say(f1[a].act = (S.prof.p[a].until > E.now) \/ (f1[a].act /\ Scheduled("profile/refresh", a, S.prof.p[a].until)), "active or not, against its subscription until " \o ToString(S.prof.p[a].until)) ELSE "",
       IF Quiet /\ f1[a].up # NoOne /\ ~f1[a].gone THEN FirstBad(<<
          Say(f1[a].comp = NoTime \/ (f1[a].comp > E.now /\ Scheduled("referral/compression", a, f1[a].comp)), "compression overdue or not scheduled: " \o ToString(f1[a].comp)),
          Say(f1[a].ban = NoTime \/ (f1[a].ban > E.now /\ Scheduled("referral/banish", a, f1[a].ban)), "banishment overdue or not scheduled: " \o ToString(f1[a].ban)),
          Say(~f1[a].act => f1[a].comp # NoTime \/ f1[a].ban # NoTime \/ ~Bankrupt(Dlg(S, a), Dust) \/ E.op = "dust", "inactive, but neither compression nor banishment is due") >>)
       ELSE "" >>)),
    IF E.op = "reset" THEN "" ELSE
      LET f0 == Facts(P) IN
      FirstBad(<<
        FirstOver(DOMAIN f1 \cap DOMAIN f0, LAMBDA a :
          LET w == After(f0, f1, a) IN
          FirstBad(<<
            Say(f1[a].gone = w.gone, "banished: " \o ToString(f1[a].gone) \o " instead of " \o ToString(w.gone)),
            Say(f1[a].gone /\ ~f0[a].gone => f0[a].ban # NoTime /\ f0[a].ban <= E.now, "banished before its time"),
            IF f0[a].up = NoOne \/ Many THEN "" ELSE FirstBad(<<
              Say(f1[a].comp = w.comp, "compression due at " \o ToString(f1[a].comp) \o " instead of " \o ToString(w.comp)),
              Say(f1[a].ban = w.ban, "banishment due at " \o ToString(f1[a].ban) \o " instead of " \o ToString(w.ban)) >>),
            IF f0[a].gone /\ ~f1[a].gone THEN Say(f1[a].up = w.up, "came back under " \o f1[a].up \o " instead of " \o w.up) ELSE "",
            IF Task("referral/compression") /\ E.acc = a /\ MayCompress(f0[a], E.now) THEN
              Say(S.ref[a].kids = <<>> /\ (\A b \in Kids(f0)[a] : f1[b].up = f0[a].up /\ b \in ToSet(S.ref[f0[a].up].kids)), "its referrals did not all pass to its referrer") ELSE ""
          >>)),
        FirstOver(DOMAIN f1 \ DOMAIN f0, LAMBDA a :
          Say(f1[a].act \/ (f1[a].comp = E.now + 2*Month /\ f1[a].ban = NoTime), "a new account is to be compressed at " \o ToString(f1[a].comp)))
      >>)
  >>)

(* --- C11 --- *)
Price == par.ref.price
Fee == IF E.ante THEN E.fee ELSE BZero
PendingUntil(a) == IF a \in DOMAIN mem.dl THEN mem.dl[a] ELSE -1
Asked == {Ms("treq")[i].by : i \in DOMAIN Ms("treq")}
Answered == {Ms("tres")[i].subj : i \in DOMAIN Ms("tres")}
DestOf(a) == {Ms("treq")[i].dest : i \in {j \in DOMAIN Ms("treq") : Ms("treq")[j].by = a}}
C11Step ==
  IF E.op = "reset" THEN "" ELSE
  LET f0 == Facts(P)  f1 == Facts(S) IN
  FirstBad(<<
    FirstOver(DOMAIN f1, LAMBDA a :
      LET t0 == IF a \in DOMAIN f0 THEN f0[a].tr ELSE NoOne  t1 == f1[a].tr IN
      FirstBad(<<
        Say(t1 = t0 \/ (a \in Asked /\ t1 \in DestOf(a)) \/ (t1 = NoOne /\ (a \in Answered \/ (Task("referral/transition-timeout") /\ E.acc = a))), "requested move changed from " \o t0 \o " to " \o t1),
        Listed("C11-early-timeout", ~(t0 # NoOne /\ t1 = NoOne /\ Task("referral/transition-timeout")) \/ E.now >= PendingUntil(a), "request dropped before its deadline " \o ToString(PendingUntil(a))),
        IF Quiet THEN Say(t1 = NoOne \/ a \in Asked \/ PendingUntil(a) > E.now, "a request was not dropped though its deadline has passed") ELSE ""
      >>)),
    IF Single("treq") THEN
      LET m == E.msgs[1]  a == m.by
          may == a \in DOMAIN f0 /\ f0[a].tr = NoOne /\ MayMove(f0, a, m.dest, E.now, Month)
      IN FirstBad(<<
           Say(E.ok => may /\ a = E.by, "an improper request was accepted"),
           Say(E.ok => f1[a].tr = m.dest /\ f1[a].up = f0[a].up, "the request was not recorded"),
           Say(E.ok => P.bank.acc[a].m = BAdd(S.bank.acc[a].m, BAdd(Fee, Price)) /\ S.bank.acc["m_fee"].m = BAdd(P.bank.acc["m_fee"].m, BAdd(Fee, Price)), "the price was not paid"),
           Say(~E.ok /\ may /\ a = E.by /\ E.ante /\ E.gas = 0 => BLt(P.bank.acc[a].m, BAdd(Fee, Price)), "a proper request was refused: " \o E.err)
         >>)
    ELSE "",
    IF Single("tres") THEN
      LET m == E.msgs[1]  a == m.subj
          right == a \in DOMAIN f0 /\ f0[a].up = m.by
          may == right /\ (IF m.yes THEN f0[a].tr # NoOne /\ MayMove(f0, a, f0[a].tr, E.now, Month) ELSE TRUE)
      IN FirstBad(<<
           Say(E.ok => may, "decided by somebody else, or an improper move was approved"),
           Say(E.ok => f1[a].tr = NoOne /\ f1[a].up = (IF m.yes THEN f0[a].tr ELSE f0[a].up), "the decision was not carried out"),
           Say(~E.ok /\ may /\ m.by = E.by /\ E.ante /\ E.gas = 0 => FALSE, "a proper decision was refused: " \o E.err)
         >>)
    ELSE "",
    \* nobody moves to another line otherwise
    FirstOver(DOMAIN f1 \cap DOMAIN f0, LAMBDA a :
      Say(f1[a].up = f0[a].up \/ a \in Answered \/ f0[a].gone \/ (Task("referral/compression") /\ E.acc = f0[a].up), "moved without having been let go"))
  >>)

NewMem == [day |-> Day,
           dl |-> IF E.op = "reset" THEN <<>>
                  ELSE [a \in (DOMAIN mem.dl) \cup Asked |-> IF a \in Asked THEN E.now + Day ELSE mem.dl[a]]]
Step == CASE Prop = "C07" -> C07Step [] Prop = "C08" -> C08Step [] Prop = "C09" -> C09Step [] Prop = "C10" -> C10Step [] Prop = "C11" -> C11Step
Next == TNext(Step, IF Blind THEN mem ELSE NewMem)
Spec == Init /\ [][Next]_tvars
=============================================================================
