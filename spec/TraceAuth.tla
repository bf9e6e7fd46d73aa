----------------------------- MODULE TraceAuth ------------------------------
(* C21 on recorded histories: privileged messages take effect only for those entitled to them, and the lists of the entitled *)
(* change only by votes that passed. mem: what each proposal ever made (identified by its digest) was about.                 *)
EXTENDS TraceLib, Auth, Big
NoProps == [x \in {} |-> [type |-> "", v |-> ""]]
Init == TInit(NoProps)
Rights(p, st) == TLCEval([ratesig |-> ToSet(p.prof.ratesig), stosig |-> ToSet(p.prof.stosig), vpnsig |-> ToSet(p.prof.vpnsig), signers |-> ToSet(p.earn.signers),
  creators |-> ToSet(p.prof.creators), blocked |-> ToSet(p.bank.blocked), gov |-> ToSet(st.vot.gov), staff |-> {a \in DOMAIN st.nod.v : st.nod.v[a].staff}])
R0 == Rights(par, P)
R1 == Rights(NewPar, S)
Props == IF E.op # "tx" THEN mem ELSE
  LET ms == SelectSeq(E.msgs, LAMBDA m : m.m = "propose") IN
  TLCEval([h \in DOMAIN mem \cup {ms[i].args : i \in DOMAIN ms} |->
    IF h \in DOMAIN mem THEN mem[h] ELSE LET m == ms[CHOOSE i \in DOMAIN ms : ms[i].args = h] IN [type |-> m.type, v |-> IF m.kind = "addr" THEN m.v ELSE "none"]])
Vote(x) == [yea |-> ToSet(x.agreed), nay |-> ToSet(x.disagreed), gov |-> ToSet(x.gov), type |-> x.p.type, v |-> Props[x.p.args].v]
NewVotes == {Vote(S.vot.hist[i]) : i \in {j \in DOMAIN S.vot.hist : j > Len(P.vot.hist)}}
May(m) == LET k == Needs(m.m) IN k = "own" \/ m.by \in R0[k] \/ (k \in DOMAIN R1 /\ m.by \in R1[k] /\ Len(E.msgs) > 1)
Ms(k) == IF Done THEN {E.msgs[i] : i \in {j \in DOMAIN E.msgs : E.msgs[j].m = k}} ELSE {}
Deciders(subj) == {st.ref[subj].up : st \in IF Len(E.msgs) > 1 THEN {P, S} ELSE {P}}
Lone(k) == E.op = "tx" /\ E.mode = "" /\ E.gas = 0 /\ E.ante /\ Len(E.msgs) = 1 /\ E.msgs[1].by = E.by /\ E.msgs[1].m = k
FeePool == "m_fee"
Creations == E.op = "tx" /\ E.mode = "" /\ E.ok /\ \A i \in DOMAIN E.msgs : E.msgs[i].m = "create"
RenamesDue == LET paid == SelectSeq(E.msgs, LAMBDA m : m.by \notin R0.creators) IN BMulS(par.prof.rename, Len(paid))
Used(f, k) == FirstOver({a \in DOMAIN S.prof.p \cap DOMAIN P.prof.p : S.prof.p[a][f] # P.prof.p[a][f] /\ S.prof.p[a][f] # BZero},
                        LAMBDA a : Say(\E m \in Ms(k) : m.addr = a, "usage changed, though nobody reported it"))
\* (an old report may lapse by itself)
Newer(a, k) == S.earn.list[a][k] >= 0 /\ (a \notin DOMAIN P.earn.list \/ P.earn.list[a][k] # S.earn.list[a][k])
Step ==
  IF E.op = "reset" THEN "" ELSE
  FirstBad(<<
    IF ~Done THEN "" ELSE FirstBad(<<
      Say(E.sig /\ \A i \in DOMAIN E.msgs : E.msgs[i].by = E.by, "accepted with the signature of somebody else"),
      FirstOver({E.msgs[i] : i \in DOMAIN E.msgs}, LAMBDA m : FirstBad(<<
        Say(May(m), m.by \o " is not entitled to " \o m.m),
        IF m.m = "tres" THEN Say(m.by \in Deciders(m.subj), m.by \o " decided on the move of " \o m.subj \o " without being its referrer") ELSE "" >>)),
      IF Creations THEN LET want == BAdd(P.bank.acc[FeePool].m, BAdd(E.fee, RenamesDue)) IN
        Say(S.bank.acc[FeePool].m = want, "registering cost another fee than it should: " \o ToString(S.bank.acc[FeePool].m) \o " instead of " \o ToString(want)) ELSE "" >>),
    FirstOver(Kinds, LAMBDA k : Say(Lawful(R0, R1, NewVotes, k), "changed from " \o ToString(R0[k]) \o " to " \o ToString(R1[k]) \o " with these votes: " \o ToString(NewVotes))),
    Say(NewPar.prof.rate = par.prof.rate \/ (\E m \in Ms("rate") : m.v = NewPar.prof.rate), "the exchange rate changed by itself"),
    Used("stocur", "stocur"), Used("vpncur", "vpncur"),
    FirstOver({a \in DOMAIN S.earn.list : Newer(a, "vpn") \/ Newer(a, "sto")}, LAMBDA a :
      Say(\E m \in Ms("earn") : \E i \in DOMAIN m.list : m.list[i].acc = a, "is an earner nobody reported")),
    IF S.vot.cur # P.vot.cur /\ S.vot.cur # <<>> THEN Say(\E m \in Ms("propose") : m.by = S.vot.cur[1].author, "a proposal came from nowhere") ELSE "",
    IF S.vot.poll # P.vot.poll /\ S.vot.poll # <<>> THEN Say(\E m \in Ms("poll") : m.by = S.vot.poll[1].author, "a poll came from nowhere") ELSE "",
    FirstOver((ToSet(S.vot.agreed) \ ToSet(P.vot.agreed)) \cup (ToSet(S.vot.disagreed) \ ToSet(P.vot.disagreed)), LAMBDA a :
      Say(\E m \in Ms("vote") \cup Ms("propose") : m.by = a, "is counted without having voted")),
    FirstOver({a \in DOMAIN S.ref \cap DOMAIN P.ref : S.ref[a].up # P.ref[a].up}, LAMBDA a :
      Say(\/ E.op = "task" /\ E.hook = "referral/compression"
          \/ P.ref[a].gone /\ ~S.ref[a].gone
          \/ \E m \in Ms("tres") : m.subj = a /\ m.yes, "moved without the referrer's decision")),
    IF Lone("rate") THEN Say(~E.ok /\ E.msgs[1].v[1] > 0 => E.msgs[1].by \notin R0.ratesig, "the rate was refused to one who may set it: " \o E.err) ELSE "",
    IF Lone("stocur") THEN Say(~E.ok /\ E.msgs[1].addr \in DOMAIN P.prof.p => E.msgs[1].by \notin R0.stosig, "a report was refused to one who may make it: " \o E.err) ELSE "",
    IF Lone("vpncur") THEN Say(~E.ok /\ E.msgs[1].addr \in DOMAIN P.prof.p => E.msgs[1].by \notin R0.vpnsig, "a report was refused to one who may make it: " \o E.err) ELSE ""
  >>)
Next == TNext(Step, IF E.op = "reset" THEN NoProps ELSE Props)
Spec == Init /\ [][Next]_tvars
=============================================================================
