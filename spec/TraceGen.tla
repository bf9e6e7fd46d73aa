----------------------------- MODULE TraceGen -------------------------------
(* C22 on recorded histories: an export at any block boundary starts a chain with the same state.                            *)
EXTENDS TraceLib, Big
Init == TInit(0)
Plain == {"bank", "refix", "del", "prof", "earn", "vot", "auth"}
\* compared as they lie on disk (the others hold equal things in different encodings, or what starts afresh)
Disk == {"acc", "artrbank", "delegating", "earning", "profile", "profileAliases", "profileCards"}
Living == {"referral", "referral-index", "schedule"}
\* a validator without what starts afresh: its place in the lottery, what the engine was last told; the score is meaningless while off
NodOf(v) == LET gone == {"lot", "lp", "lpk", "state"} \cup (IF v.on THEN {} ELSE {"score"}) IN [f \in DOMAIN v \ gone |-> v[f]]
Working(st) == {a \in DOMAIN st.nod.v : st.nod.v[a].on}
\* accounts whose fate is decided anew because the vote about what is too little to stay came after it was decided
Dusty == {a \in DOMAIN P.ref : ~P.ref[a].act /\
  LET d == IF a \in DOMAIN P.bank.acc THEN P.bank.acc[a].d ELSE BZero  dust == par.bank.dust r == P.ref[a] IN
    IF BLe(d, dust) THEN ~r.gone /\ r.ban < 0 /\ r.up # "none" /\ (r.comp < 0 \/ r.comp < E.now) /\ d # BZero
    ELSE r.ban >= 0 \/ r.gone}
Aside(st, d) == SelectSeq(st.tasks, LAMBDA t : ~(t.a \in d /\ t.h = "referral/banish"))
\* the order in which the active ones below an account are listed means nothing
RefOf(r, d, a) == LET q == IF a \in d THEN [r EXCEPT !.ban = 0] ELSE r IN [q EXCEPT !.akids = [n |-> Len(r.akids), k |-> {r.akids[i] : i \in DOMAIN r.akids}]]
Reordered == \E a \in DOMAIN P.ref \cap DOMAIN S.ref : P.ref[a].akids # S.ref[a].akids
Same1(k) == Say(P[k] = S[k], k \o " differs after the import in " \o ToString(IF k = "refix" THEN {} ELSE Diff(P[k], S[k])))
Ref(d) == FirstOver(DOMAIN P.ref \cup DOMAIN S.ref, LAMBDA a :
  IF a \notin DOMAIN P.ref \/ a \notin DOMAIN S.ref THEN "is in the structure only before or after the import"
  ELSE Say(RefOf(P.ref[a], d, a) = RefOf(S.ref[a], d, a), "has another place in the structure after the import: " \o ToString(Diff(RefOf(P.ref[a], d, a), RefOf(S.ref[a], d, a)))))
Import == LET d == TLCEval(Dusty) IN FirstBad(<<
  Say(E.err = "", "the export cannot be imported: " \o E.err),
  FirstOver(Plain, Same1),
  IF d = {} THEN "" ELSE Listed("dust", S.ref = P.ref /\ S.tasks = P.tasks, "fate decided anew at the import: " \o ToString(d)),
  IF \E a \in d : P.ref[a].gone THEN "" ELSE FirstBad(<<
    Ref(d),
    Say(Aside(P, d) = Aside(S, d), "other tasks are pending after the import"),
    FirstOver(DOMAIN E.exp \cup DOMAIN E.exp2, LAMBDA k : Say((d # {} /\ k \in Living) \/ (k \in DOMAIN E.exp /\ k \in DOMAIN E.exp2 /\ E.exp[k] = E.exp2[k]), "exporting again yields something else")) >>),
  FirstOver(Disk \cup (IF d # {} THEN {} ELSE IF Reordered THEN Living \ {"referral"} ELSE Living), LAMBDA k : Say(E.stores[k] = E.stores2[k], "is stored differently after the import")),
  FirstOver(DOMAIN P.nod.v \cup DOMAIN S.nod.v, LAMBDA a :
    IF a \notin DOMAIN P.nod.v \/ a \notin DOMAIN S.nod.v THEN "is a validator only before or after the import"
    ELSE Say(NodOf(P.nod.v[a]) = NodOf(S.nod.v[a]), "is another validator after the import: " \o ToString(Diff(NodOf(P.nod.v[a]), NodOf(S.nod.v[a]))))),
  Say(P.nod.active = S.nod.active, "other validators work after the import"),
  FirstOver(Working(S), LAMBDA a : Say(S.nod.idx[S.nod.v[a].pk].acc = a, "does not operate its key after the import")),
  LET q == NewPar IN Say([par EXCEPT !.upg = <<>>] = [q EXCEPT !.upg = <<>>], "parameters differ after the import in " \o ToString(Diff(par, q))) >>)
Step == IF E.op = "reimport" THEN Import ELSE ""
Fatal == E.op = "reimport" /\ E.err # ""
Next == /\ l <= Len(Trace) /\ bad = ""
        /\ bad' = IF Fatal THEN "the export cannot be imported: " \o E.err ELSE IF Blind THEN "" ELSE Step
        /\ mem' = 0 /\ par' = NewPar /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
=============================================================================
