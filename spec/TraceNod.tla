------------------------------ MODULE TraceNod ------------------------------
(* C12 (jail, release, ban), C13 (the engine's validator set), C14 (keys) and C15 (qualification, lottery) on recorded    *)
(* histories. mem: the validator set that the engine has after all updates so far.                                        *)
EXTENDS TraceLib, Nod, Big
Nobody == [k \in {} |-> 0]
Init == TInit(Nobody)
RECURSIVE Small(_)
Small(b) == IF b = <<>> THEN 0 ELSE b[1] + 10000 * Small(Tail(b))
V(st) == TLCEval([a \in DOMAIN st.nod.v |-> LET r == st.nod.v[a] IN [r EXCEPT !.score = Small(r.score) - 1000000]])
V0 == IF l = 1 THEN [a \in {} |-> 0] ELSE V(P)
V1 == V(S)
Queue(v) == LET w == {<<v[a].lot, a>> : a \in {x \in DOMAIN v : v[x].lot # 0}} IN LET s == SortSeq(SetToSeq(w), LAMBDA x, y : x[1] < y[1]) IN [i \in DOMAIN s |-> s[i][2]]
Fresh == E.op \in {"reset", "reimport"}
Par1 == NewPar
One == E.op = "tx" /\ E.mode = "" /\ Len(E.msgs) = 1 /\ E.gas = 0 /\ E.ante /\ E.msgs[1].by = E.by
Msg == E.msgs[1]
Did(a, what) == Done /\ \E i \in DOMAIN E.msgs : E.msgs[i].by = a /\ E.msgs[i].m = what

(* --- begin of a block: reward, votes, evidence --- *)
Who(k) == IF k \in DOMAIN P.nod.idx THEN P.nod.idx[k].acc ELSE "none"
Rewarded(st) == IF E.prop = "none" \/ Who(E.prop) = "none" THEN st ELSE LET a == Who(E.prop) IN [st EXCEPT !.v[a].prop = @ + 1, !.q = Back(@, a)]
Known(s, Key(_)) == LET b == {i \in DOMAIN s : Who(Key(s[i])) = "none"} IN IF b = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in b : \A j \in b : i <= j) - 1)
Voted(st) == FoldLeft(LAMBDA t, x : LET a == Who(x.k) r == t.v[a] n == IF x.ok THEN Ticked(r) ELSE Stroked(r, E.h, par.nod) IN
                 [v |-> [t.v EXCEPT ![a] = n], q |-> IF x.ok \/ r.jailed THEN t.q ELSE IF n.jailed THEN Out(t.q, {a}) ELSE Back(t.q, a)],
               st, Known(E.votes, LAMBDA x : x.k))
Accused(st) == FoldLeft(LAMBDA t, k : LET a == Who(k) n == Byzantine(t.v[a]) IN
                 [v |-> [t.v EXCEPT ![a] = n], q |-> IF n.inf > 1 THEN Out(t.q, {a}) ELSE Back(t.q, a)],
               st, Known(E.ev, LAMBDA x : x))
BeginWant == Accused(Voted(Rewarded([v |-> V0, q |-> Queue(V0)])))

(* --- qualification, from the facts --- *)
Lines(st) == CASE st = 1 -> 4 [] st = 2 -> 6 [] st = 3 -> 8 [] OTHER -> 10
Team(st, a) == BSumSeq(SubSeq(st.ref[a].deleg, 1, Lines(st.ref[a].st) + 1))
Own(st, a) == LET b == st.bank.acc IN IF a \in DOMAIN b THEN b[a].d ELSE BZero
Staff(v, a) == a \in DOMAIN v /\ v[a].staff
InRef(st, a) == a \in DOMAIN st.ref
Qual(st, v, p, a) == InRef(st, a) /\ (Staff(v, a) \/ (st.ref[a].st >= p.nod.status /\ BLe(p.nod.self, Own(st, a)) /\ BLe(p.nod.total, Team(st, a))))
Facts(st, v, a) == <<IF InRef(st, a) THEN <<st.ref[a].st, Team(st, a)>> ELSE <<>>, Own(st, a), Staff(v, a)>>

(* --- C12 --- *)
Duty == {"jailed", "unjail", "miss", "ok", "strokes", "jc", "inf", "banned", "prop"}
Blank == [f \in Duty |-> IF f \in {"jailed", "banned"} THEN FALSE ELSE 0]
Sub(r) == [f \in Duty |-> r[f]]
Of(v, a) == IF a \in DOMAIN v THEN Sub(v[a]) ELSE Blank
\* an amnesty may be what a vote decided (whether it did is C16)
Amnesty == /\ (E.op = "task" /\ E.hook = "voting/complete") \/ (Done /\ \E i \in DOMAIN E.msgs : E.msgs[i].m \in {"vote", "propose"})
           /\ \A a \in DOMAIN V1 : V1[a].strokes = 0 /\ V1[a].jc = 0
DutyWant ==
  IF E.op = "begin" THEN LET w == BeginWant.v IN [a \in DOMAIN w |-> Sub(w[a])]
  ELSE [a \in DOMAIN V1 |-> LET r == Of(V0, a)
                                r1 == IF Did(a, "unjail") THEN [r EXCEPT !.jailed = FALSE] ELSE r
                            IN IF Amnesty THEN [r1 EXCEPT !.strokes = 0, !.jc = 0] ELSE r1]
Blocks(v, a) == IF a \in DOMAIN v THEN v[a].blocks ELSE <<>>
StateOf(r) == IF r.banned THEN 1 ELSE IF r.jailed THEN 2 ELSE IF ~r.on THEN 0 ELSE 3
C12Step ==
  FirstBad(<<
    IF E.op = "reset" THEN "" ELSE LET w == DutyWant IN
      FirstBad(<<
        Say(DOMAIN w \subseteq DOMAIN V1, "a record is lost"),
        FirstOver(DOMAIN V1, LAMBDA a : Say(Sub(V1[a]) = w[a], "is " \o ToString(Sub(V1[a])) \o " instead of " \o ToString(w[a])))
      >>),
    IF E.op = "begin" THEN
      FirstOver(DOMAIN V1, LAMBDA a : FirstBad(<<
        Say(V1[a].on = BeginWant.v[a].on, "switched on: " \o ToString(V1[a].on)),
        Say(V1[a].blocks = IF E.prop # "none" /\ Who(E.prop) = a THEN Append(V0[a].blocks, E.h - 1) ELSE V0[a].blocks, "wrong list of proposed blocks")>>))
    ELSE IF E.op = "reset" THEN "" ELSE FirstOver(DOMAIN V1, LAMBDA a : Say(V1[a].blocks = Blocks(V0, a), "the list of proposed blocks changed")),
    IF One /\ Msg.m = "unjail" THEN
      LET a == Msg.by may == a \in DOMAIN V0 /\ MayUnjail(V0[a], E.h) IN
      FirstBad(<< Say(may => E.ok, "release was refused: " \o E.err), Say(E.ok => may, "released too early") >>)
    ELSE "",
    FirstOver(DOMAIN V1, LAMBDA a : FirstBad(<<
      Say(V1[a].banned => ~V1[a].on, "banned but switched on"),
      Say(V1[a].banned => V1[a].inf > 1 \/ Fresh, "banned for nothing"),
      LET s == StateOf(V1[a]) IN Say(IF s = 3 THEN V1[a].state \in {3, 4, 5} ELSE V1[a].state = s, "the state reported is " \o ToString(V1[a].state)),
      Say((a \in ToSet(S.nod.active)) = Working(V1[a]), "wrongly listed as active or not") >>))
  >>)

(* --- C13 --- *)
\* the score by which validators are ranked: the logarithm of the team stake less strokes plus one per hundred blocks in a row
Exps == << \* e, e^2, e^3 ... rounded up
  <<3>>, <<8>>, <<21>>, <<55>>, <<149>>, <<404>>, <<1097>>, <<2981>>,
  <<8104>>, <<2027,2>>, <<9875,5>>, <<2755,16>>, <<2414,44>>, <<2605,120>>, <<9018,326>>, <<6111,888>>,
  <<4953,2415>>, <<9970,6565>>, <<2301,7848,1>>, <<5196,8516,4>>, <<5735,1881,13>>, <<2847,8491,35>>, <<3447,4480,97>>, <<2130,8912,264>>,
  <<9338,489,720>>, <<9429,2960,1957>>, <<602,4824,5320>>, <<4292,5706,4462,1>>, <<7145,3429,9313,3>>, <<1525,7458,6864,10>>, <<5248,4966,488,29>>, <<2681,6018,9629,78>>,
  <<5917,7978,6435,214>>, <<7455,4252,4617,583>>, <<3431,5231,134,1586>>, <<5196,4711,2315,4311>>, <<2612,7280,1423,1719,1>>, <<3757,5711,9317,1855,3>>, <<3747,2399,4004,6593,8>>, <<9986,3701,2668,5385,23>>,
  <<4950,3005,4935,9843,63>>, <<1048,2050,9415,9274,173>>, <<6562,2934,4682,7839,472>>>>
Ln(x) == Cardinality({n \in DOMAIN Exps : BLe(Exps[n], x)})
Base(v, a) == v[a].score + v[a].strokes - v[a].ok \div 100
ScoreOf(a) ==
  IF ~InRef(S, a) THEN ""
  ELSE LET want == Ln(Team(S, a))
           old == IF a \in DOMAIN V0 THEN Base(V0, a) ELSE 0
           got == Base(V1, a)
           due == (One /\ E.ok /\ (Msg.m = "on" \/ (Msg.m = "unjail" /\ V1[a].on)) /\ Msg.by = a)
                  \/ (InRef(P, a) /\ Team(P, a) # Team(S, a) /\ P.ref[a].st = S.ref[a].st /\ ~(Done /\ Len(E.msgs) > 1))
       IN Say(got = want \/ (got = old /\ ~due /\ ~Fresh), "scores " \o ToString(got) \o " instead of " \o ToString(want) \o " for its team stake")
Before == IF Fresh THEN Nobody ELSE mem
Upd == IF "upd" \in DOMAIN E THEN E.upd ELSE <<>>
Vals == IF E.op = "end" \/ Fresh THEN Apply(Before, Upd) ELSE mem
C13Step ==
  IF E.op = "end" \/ Fresh THEN
    LET v == V1
        q0 == IF Fresh THEN <<>> ELSE Queue(V0)
        w == Workers(v)
        sel == {a \in w : v[a].pk \in DOMAIN Vals}
        top == {a \in sel : v[a].lot = 0}
        won == Winners(v, Par1.nod, q0, top)
        lots == IF Fresh THEN sel \ top ELSE won
        pw == PowerOf(v, Par1.nod, top, lots)
        q1 == Queue(v)
    IN FirstBad(<<
      Say(ProperUpdates(Before, Upd), "a list of updates that the engine cannot apply: " \o ToString(Upd)),
      Say(DOMAIN Vals = {v[a].pk : a \in sel}, "the engine keeps keys of nobody who works: " \o ToString(Vals)),
      Say(IsTop(v, Par1.nod, top), "the top is " \o ToString(top)),
      Say(sel = top \cup lots, "chosen by lot: " \o ToString(sel \ top) \o " instead of " \o ToString(lots)),
      Say(Cardinality(sel) = Least(Cardinality(w), Par1.nod.max + (IF Fresh THEN 0 ELSE Least(Par1.nod.lottery, Cardinality(ToSet(Out(q0, top)))))), "wrong number of validators"),
      Say(Vals = EngineSet(v, pw), "the engine has " \o ToString(Vals) \o " instead of " \o ToString(EngineSet(v, pw))),
      FirstOver(DOMAIN v, LAMBDA a : ScoreOf(a)),
      FirstOver(w, LAMBDA a : Say(v[a].state = IF a \in top THEN 5 ELSE IF a \in lots THEN 4 ELSE 3, "the state reported is " \o ToString(v[a].state))),
      Say(LET o == Out(q0, top) IN IsPrefix(o, q1) /\ ToSet(q1) = w \ top, "the queue is " \o ToString(q1))
    >>)
  ELSE FirstOver(DOMAIN V1, LAMBDA a : ScoreOf(a))
(* --- C14 --- *)
C14Step ==
  FirstBad(<<
    Say(OneKeyEach(V1), "two operators with one key"),
    FirstOver(Workers(V1), LAMBDA a : Say(V1[a].pk \in DOMAIN S.nod.idx /\ S.nod.idx[V1[a].pk] = [acc |-> a, active |-> TRUE], "its key is attributed to another")),
    FirstOver(DOMAIN S.nod.idx, LAMBDA k : FirstBad(<<
      LET h == Holders(V1, k) IN Say(h # {} => S.nod.idx[k].acc \in h, "attributed to " \o S.nod.idx[k].acc),
      Say(S.nod.idx[k].active => S.nod.idx[k].acc \in Workers(V1) \cap Holders(V1, k), "wrongly said to be working"),
      IF Fresh \/ S.nod.idx[k].acc = P.nod.idx[k].acc THEN ""
      ELSE Say(Done /\ \E i \in DOMAIN E.msgs : E.msgs[i].m = "on" /\ E.msgs[i].by = S.nod.idx[k].acc /\ E.msgs[i].key = k, "attributed to another account all of a sudden") >>)),
    IF Fresh THEN "" ELSE FirstOver(DOMAIN V1, LAMBDA a : Say((a \notin DOMAIN V0 /\ V1[a].pk = "none") \/ (a \in DOMAIN V0 /\ V0[a].pk = V1[a].pk) \/ Did(a, "on"), "its key changed")),
    IF One /\ Msg.m = "on" /\ E.ok THEN Say(Holders(V0, Msg.key) \ {E.by} = {} /\ V1[E.by].on /\ V1[E.by].pk = Msg.key, "switched on with a key in use") ELSE ""
  >>)

(* --- C15 --- *)
C15Step ==
  LET p1 == Par1 IN
  FirstBad(<<
    IF One /\ Msg.m = "on" THEN
      LET a == Msg.by may == MaySwitchOn(V0, a, Msg.key, Qual(P, V0, par, a)) IN
      FirstBad(<< Say(may => E.ok, "switching on was refused: " \o E.err), Say(E.ok => may, "switched on without being entitled") >>)
    ELSE "",
    FirstOver(DOMAIN V1, LAMBDA a : FirstBad(<<
      \* who works without being qualified does so because the criteria were raised, and nothing else changed since
      IF Fresh \/ ~Working(V1[a]) \/ Qual(S, V1, p1, a) THEN ""
      ELSE Say(a \in DOMAIN V0 /\ Working(V0[a]) /\ Facts(S, V1, a) = Facts(P, V0, a), "works but is not qualified"),
      \* nobody stops or begins being a validator without a cause
      LET on0 == a \in DOMAIN V0 /\ V0[a].on IN
      IF Fresh \/ V1[a].on = on0 THEN ""
      ELSE IF V1[a].on THEN Say(Did(a, "on"), "switched on by itself")
      ELSE Say(\/ Did(a, "off")
               \/ E.op = "begin" /\ V1[a].inf > 1
               \/ Did(a, "unjail") /\ (~Qual(S, V1, p1, a) \/ Len(E.msgs) > 1)
               \/ ~Qual(S, V1, p1, a)                 \* the criteria may have been raised long ago
               \/ Done /\ Len(E.msgs) > 1, "switched off for no reason"),
      Say(V1[a].qual = Qual(S, V1, p1, a), "the application says qualified: " \o ToString(V1[a].qual)) >>)),
    IF Fresh THEN "" ELSE
      LET q1 == Queue(V1) IN
      CASE E.op = "begin" -> Say(q1 = BeginWant.q, "the queue is " \o ToString(q1) \o " instead of " \o ToString(BeginWant.q))
        [] E.op = "end" -> LET o == Out(Queue(V0), {a \in DOMAIN V1 : V1[a].lot = 0}) IN
             FirstBad(<<Say(IsPrefix(o, q1), "the order of the queue changed"), Say(Out(Queue(V0), ToSet(q1)) = <<>> \/ Cardinality({a \in Workers(V1) : V1[a].lot = 0}) <= par.nod.max, "lost its place"),
                        FirstOver(First(o, Least(par.nod.lottery, Cardinality(Workers(V1)) - Least(par.nod.max, Cardinality(Workers(V1))))), LAMBDA a : Say(V1[a].lp # 0, "does not get its turn"))>>)
        [] OTHER -> LET o == SelectSeq(Queue(V0), LAMBDA a : Working(V1[a])) IN Say(q1 = o \/ (Done /\ Len(E.msgs) > 1), "the queue changed")
  >>)
Step == CASE Prop = "C12" -> C12Step [] Prop = "C13" -> C13Step [] Prop = "C14" -> C14Step [] Prop = "C15" -> C15Step
Next == TNext(Step, Vals)
Spec == Init /\ [][Next]_tvars
=============================================================================
