------------------------------ MODULE TraceVote ------------------------------
(* C16 (proposals) and C17 (polls) on recorded histories. mem: the proposal being voted on, as it was proposed.         *)
EXTENDS TraceLib, Vote, Big
Init == TInit(<<>>)
V(st) == st.vot
Hist(h) == [p |-> h.p, gov |-> ToSet(h.gov), yea |-> ToSet(h.agreed), nay |-> ToSet(h.disagreed), started |-> h.started, finished |-> h.finished]
\* what is recorded, as a voting state
Abs(v) == [gov |-> ToSet(v.gov), cur |-> v.cur, yea |-> ToSet(v.agreed), nay |-> ToSet(v.disagreed), start |-> v.start,
           hist |-> [i \in DOMAIN v.hist |-> Hist(v.hist[i])], done |-> <<>>,
           poll |-> v.poll, ans |-> [a \in DOMAIN v.answers |-> v.answers[a]], polls |-> v.polls]
NoDup(q) == Len(q) = Cardinality(ToSet(q))
Clean(v) == NoDup(v.gov) /\ NoDup(v.agreed) /\ NoDup(v.disagreed) /\ v.nans = Cardinality(DOMAIN v.answers)
            /\ (\A i \in DOMAIN v.hist : NoDup(v.hist[i].gov) /\ NoDup(v.hist[i].agreed) /\ NoDup(v.hist[i].disagreed))
            /\ v.yes = Ayes(Abs(v)) /\ v.no = Noes(Abs(v))

(* ---- what proposals change *)
GovKind(t) == CASE t = "GOVERNMENT_ADD" -> "gov+" [] t = "GOVERNMENT_REMOVE" -> "gov-" [] OTHER -> "param"
\* the parameters with lists of accounts as sets; their order means nothing
Norm(p) == [p EXCEPT !.bank.blocked = ToSet(@), !.prof.creators = ToSet(@), !.prof.stosig = ToSet(@), !.prof.vpnsig = ToSet(@),
                     !.prof.ratesig = ToSet(@), !.earn.signers = ToSet(@)]
ListsClean(p) == NoDup(p.bank.blocked) /\ NoDup(p.prof.creators) /\ NoDup(p.prof.stosig) /\ NoDup(p.prof.vpnsig) /\ NoDup(p.prof.ratesig) /\ NoDup(p.earn.signers)
\* a change that the chain cannot take: a list of signers would become empty, a price of nothing and so on. The deciding
\* vote for such a proposal is refused, or it has no effect.
Impossible(q, t, v, now) ==
  CASE t = "FREE_CREATOR_REMOVE" -> q.prof.creators \subseteq {v}
    [] t = "TOKEN_RATE_SIGNER_REMOVE" -> q.prof.ratesig \subseteq {v}
    [] t = "VPN_SIGNER_REMOVE" -> q.prof.vpnsig \subseteq {v}
    [] t = "STORAGE_SIGNER_REMOVE" -> q.prof.stosig \subseteq {v}
    [] t = "EARNING_SIGNER_REMOVE" -> q.earn.signers \subseteq {v}
    [] t \in {"ENTER_PRICE", "PRODUCT_VPN_BASE_PRICE", "PRODUCT_STORAGE_BASE_PRICE", "MIN_DELEGATE"} -> v = BZero
    [] t \in {"MAX_VALIDATORS", "JAIL_AFTER"} -> v = 0
    [] t = "SOFTWARE_UPGRADE" -> v <= now
    [] OTHER -> FALSE
Apply(q, t, v) ==
  CASE t = "ENTER_PRICE" -> [q EXCEPT !.prof.price = v]
    [] t = "PRODUCT_VPN_BASE_PRICE" -> [q EXCEPT !.prof.vpngb = v]
    [] t = "PRODUCT_STORAGE_BASE_PRICE" -> [q EXCEPT !.prof.stogb = v]
    [] t = "TRANSITION_PRICE" -> [q EXCEPT !.ref.price = v]
    [] t = "FREE_CREATOR_ADD" -> [q EXCEPT !.prof.creators = @ \cup {v}]
    [] t = "FREE_CREATOR_REMOVE" -> [q EXCEPT !.prof.creators = @ \ {v}]
    [] t = "TOKEN_RATE_SIGNER_ADD" -> [q EXCEPT !.prof.ratesig = @ \cup {v}]
    [] t = "TOKEN_RATE_SIGNER_REMOVE" -> [q EXCEPT !.prof.ratesig = @ \ {v}]
    [] t = "VPN_SIGNER_ADD" -> [q EXCEPT !.prof.vpnsig = @ \cup {v}]
    [] t = "VPN_SIGNER_REMOVE" -> [q EXCEPT !.prof.vpnsig = @ \ {v}]
    [] t = "STORAGE_SIGNER_ADD" -> [q EXCEPT !.prof.stosig = @ \cup {v}]
    [] t = "STORAGE_SIGNER_REMOVE" -> [q EXCEPT !.prof.stosig = @ \ {v}]
    [] t = "EARNING_SIGNER_ADD" -> [q EXCEPT !.earn.signers = @ \cup {v}]
    [] t = "EARNING_SIGNER_REMOVE" -> [q EXCEPT !.earn.signers = @ \ {v}]
    [] t = "BLOCKED_SENDER_ADD" -> [q EXCEPT !.bank.blocked = @ \cup {v}]
    [] t = "BLOCKED_SENDER_REMOVE" -> [q EXCEPT !.bank.blocked = @ \ {v}]
    [] t = "MIN_SEND" -> [q EXCEPT !.bank.minsend = v]
    [] t = "MIN_DELEGATE" -> [q EXCEPT !.del.min = v]
    [] t = "MAX_VALIDATORS" -> [q EXCEPT !.nod.max = v]
    [] t = "LUCKY_VALIDATORS" -> [q EXCEPT !.nod.lottery = v]
    [] t = "JAIL_AFTER" -> [q EXCEPT !.nod.jailafter = v]
    [] t = "VALIDATOR_MINIMAL_CRITERIA" -> [q EXCEPT !.nod.status = v.status, !.nod.self = v.self, !.nod.total = v.total]
    [] t = "DUST_DELEGATION" -> [q EXCEPT !.bank.dust = v]
    [] t = "VOTING_POWER" -> [q EXCEPT !.nod.slices = v.slices, !.nod.lucky = v.lucky]
    [] t = "TRANSACTION_FEE" -> [q EXCEPT !.bank.fee = v]
    [] t = "MAX_TRANSACTION_FEE" -> [q EXCEPT !.bank.maxfee = v]
    [] t = "TRANSACTION_FEE_SPLIT_RATIOS" -> [q EXCEPT !.bank.prop = v[1], !.bank.comp = v[2]]
    [] t = "ACCRUE_PERCENTAGE_TABLE" -> [q EXCEPT !.del.table = v]
    [] t = "REVOKE" -> [q EXCEPT !.del.rev = v]
    [] t = "EXPRESS_REVOKE" -> [q EXCEPT !.del.xrev = v]
    [] t = "SOFTWARE_UPGRADE" -> [q EXCEPT !.upg = <<[name |-> "upg", t |-> v, info |-> "i", h |-> 0]>>]
    [] t = "CANCEL_SOFTWARE_UPGRADE" -> [q EXCEPT !.upg = <<>>]
    [] OTHER -> q
\* proposals whose change the chain accepts or not without a way to tell from outside
Doubtful(t) == t \in {"VALIDATOR_MINIMAL_CRITERIA", "VOTING_POWER", "REVOKE", "EXPRESS_REVOKE", "TRANSACTION_FEE_SPLIT_RATIOS", "TRANSACTION_FEE", "ACCRUE_PERCENTAGE_TABLE", "MAX_TRANSACTION_FEE"}

(* ---- folding the messages of a transaction. w: [s, q, staff, amnesty, m]                                            *)
Hour == 3600
PropRec(m, end) == [name |-> m.name, author |-> m.by, type |-> m.type, end |-> end, args |-> m.args, what |-> GovKind(m.type), v |-> IF m.kind = "addr" THEN m.v ELSE ""]
\* recorded proposals say nothing about the kind of change
Strip(p) == [name |-> p.name, author |-> p.author, type |-> p.type, end |-> p.end, args |-> p.args]
\* effects of what has just been decided
Effects(w) ==
  LET d == w.s.done IN
  IF d = <<>> THEN w
  ELSE LET m == w.m[1]  w1 == [w EXCEPT !.s.done = <<>>] IN
       CASE m.type = "STAFF_VALIDATOR_ADD" -> [w1 EXCEPT !.staff = @ \cup {m.v}]
         [] m.type = "STAFF_VALIDATOR_REMOVE" -> [w1 EXCEPT !.staff = @ \ {m.v}]
         [] m.type = "GENERAL_AMNESTY" -> [w1 EXCEPT !.amnesty = TRUE]
         [] OTHER -> IF Impossible(w.q, m.type, m.v, E.now) THEN [w1 EXCEPT !.imp = TRUE] ELSE [w1 EXCEPT !.q = Apply(@, m.type, m.v)]
Forget(w) == IF w.s.cur = <<>> THEN [w EXCEPT !.m = <<>>] ELSE w
NewPoll(m) == [name |-> m.name, author |-> m.by, start |-> E.now, end |-> E.now + par.vot.poll * Hour, quorum |-> m.quorum, req |-> m.req]
Entitled(req, by) == IF by \notin DOMAIN P.vot.ent THEN FALSE
                     ELSE LET x == P.vot.ent[by] IN CASE req = 0 -> TRUE [] req = -1 -> x.qual [] OTHER -> x.st >= req /\ ~x.err
One(w, m) ==
  CASE m.m = "propose" ->
         IF ~MayPropose(w.s, m.by) THEN [w EXCEPT !.why = "a proposal was let in though " \o (IF w.s.cur # <<>> THEN "another is being voted on" ELSE "its author is not in the government")]
         ELSE Forget(Effects([w EXCEPT !.s = Propose(@, PropRec(m, E.now + par.vot.period * Hour), E.h), !.m = <<m>>]))
    [] m.m = "vote" ->
         IF ~MayVote(w.s, m.by) THEN [w EXCEPT !.why = "a vote was counted that must not be"]
         ELSE Forget(Effects([w EXCEPT !.s = Cast(@, m.by, m.yes, E.h)]))
    [] m.m = "poll" ->
         IF ~MayStart(w.s, m.by) THEN [w EXCEPT !.why = "a poll was started that must not be"]
         ELSE [w EXCEPT !.s = StartPoll(@, NewPoll(m))]
    [] m.m = "answer" ->
         IF w.s.poll = <<>> THEN [w EXCEPT !.why = "an answer was taken without a poll"]
         ELSE IF ~MayAnswer(w.s, m.by, TRUE) THEN [w EXCEPT !.why = "an account answered twice"]
         ELSE IF Len(E.msgs) = 1 /\ ~Entitled(w.s.poll[1].req, m.by) THEN [w EXCEPT !.why = "somebody answered who does not meet the requirement"]
         ELSE [w EXCEPT !.s = Answer(@, m.by, m.yes)]
    [] m.m = "rate" -> [w EXCEPT !.q.prof.rate = NewPar.prof.rate]   \* not by vote; C21 and C19 judge it
    [] OTHER -> w
RECURSIVE Fold(_, _)
Fold(w, ms) == IF ms = <<>> \/ w.why # "" THEN w ELSE Fold(One(w, Head(ms)), Tail(ms))
Staff(st) == {a \in DOMAIN st.nod.v : st.nod.v[a].staff}
WithKind(s) == IF s.cur = <<>> THEN s ELSE [s EXCEPT !.cur = <<PropRec(mem[1], s.cur[1].end)>>]
W0 == [s |-> WithKind(Abs(P.vot)), q |-> Norm(par), staff |-> Staff(P), amnesty |-> FALSE, m |-> mem, why |-> "", imp |-> FALSE]
\* (the framework's upgrade module exports nothing, so a pending upgrade does not survive an export)
W1 == CASE E.op = "reimport" -> [W0 EXCEPT !.q.upg = <<>>]
        [] Done -> Fold(W0, E.msgs)
        [] E.op = "task" /\ E.hook = "voting/complete" -> Forget(Effects([W0 EXCEPT !.s = Deadline(@, E.h)]))
        [] E.op = "task" /\ E.hook = "voting/poll" -> IF W0.s.poll = <<>> THEN W0 ELSE [W0 EXCEPT !.s = EndPoll(@)]
        [] OTHER -> W0
Plain(s) == [s EXCEPT !.cur = IF @ = <<>> THEN @ ELSE <<Strip(@[1])>>, !.hist = [i \in DOMAIN @ |-> [@[i] EXCEPT !.p = Strip(@)]]]
\* (while tasks are being performed the list of tasks is in flux)
Pending(h) == {i \in DOMAIN S.tasks : S.tasks[i].h = h}
Deadlines(cur, h) == IF E.op \in {"begin", "task"} THEN TRUE ELSE IF cur = <<>> THEN Pending(h) = {} ELSE Cardinality(Pending(h)) = 1 /\ \A i \in Pending(h) : S.tasks[i].t = cur[1].end
Show(f, a, b) == f \o " should be " \o ToString(a[f]) \o " and is " \o ToString(b[f])
ParDiff(a, b) == {k \in DOMAIN a : a[k] # b[k]}

(* ---- obligations to let through: a single-message transaction that passed authentication *)
Lone == E.op = "tx" /\ E.mode = "" /\ E.gas = 0 /\ E.ante /\ Len(E.msgs) = 1 /\ E.msgs[1].by = E.by /\ ~E.ok
NeverValid(m) == \/ m.kind = "count" /\ m.type = "JAIL_AFTER" /\ m.v = 0
                 \/ Doubtful(m.type) \/ m.type \in {"MIN_DELEGATE", "DUST_DELEGATION"} \/ (m.kind = "price" /\ m.v = BZero) \/ m.type = "SOFTWARE_UPGRADE"
Spurned ==
  LET m == E.msgs[1] s == W0.s IN
  CASE m.m = "propose" -> IF MayPropose(s, m.by) /\ ~NeverValid(m) /\ ~(Cardinality(s.gov) = 1 /\ Impossible(W0.q, m.type, m.v, E.now))
                          THEN "a proposal of a member of the government was refused: " \o E.err ELSE ""
    [] m.m = "vote" -> IF MayVote(s, m.by)
                       THEN LET f == Cast(s, m.by, m.yes, E.h) IN
                            IF f.done = <<>> \/ ~(Impossible(W0.q, mem[1].type, mem[1].v, E.now) \/ Doubtful(mem[1].type))
                            THEN "the vote of a member of the government was refused: " \o E.err ELSE ""
                       ELSE ""
    [] OTHER -> ""
SpurnedPoll ==
  LET m == E.msgs[1] s == W0.s IN
  CASE m.m = "poll" -> IF MayStart(s, m.by) THEN "a poll of a member of the government was refused: " \o E.err ELSE ""
    [] m.m = "answer" -> IF s.poll # <<>> /\ MayAnswer(s, m.by, Entitled(s.poll[1].req, m.by)) THEN "an entitled answer was refused: " \o E.err ELSE ""
    [] OTHER -> ""
VoteFields == {"gov", "cur", "yea", "nay", "start", "hist"}
PollFields == {"poll", "ans", "polls"}
Compare(fields, w) == LET a == Plain(w.s) b == Abs(S.vot) IN FirstOver(fields, LAMBDA f : IF a[f] = b[f] THEN "" ELSE Show(f, a, b))
Proposals(w) ==
  FirstBad(<<
    w.why,
    Compare(VoteFields, w),
    Say(Clean(S.vot), "votes, members or answers are listed twice or miscounted"),
    Say(Norm(NewPar) = w.q, "parameters changed that no accepted proposal names, or an accepted change did not happen: "
        \o ToString(ParDiff(w.q, Norm(NewPar))) \o " expected " \o ToString([k \in ParDiff(w.q, Norm(NewPar)) |-> w.q[k]]) \o " got " \o ToString([k \in ParDiff(w.q, Norm(NewPar)) |-> Norm(NewPar)[k]])),
    Say(ListsClean(NewPar), "a list of accounts in the parameters contains one twice"),
    Say(Staff(S) = w.staff, "the staff changed without a vote or did not by one: expected " \o ToString(w.staff) \o " got " \o ToString(Staff(S))),
    IF E.op = "tx" \/ E.op = "task" THEN
      IF w.amnesty THEN Say(\A a \in DOMAIN S.nod.v : S.nod.v[a].strokes = 0 /\ S.nod.v[a].jc = 0, "the amnesty left something unforgiven")
      ELSE Say(\A a \in DOMAIN P.nod.v : a \in DOMAIN S.nod.v => S.nod.v[a].strokes = P.nod.v[a].strokes /\ S.nod.v[a].jc = P.nod.v[a].jc, "strokes were forgiven without an amnesty")
    ELSE "",
    IF E.op = "task" /\ E.hook = "voting/complete" THEN Say(P.vot.cur # <<>> /\ E.at = P.vot.cur[1].end, "a vote was ended at another time than its deadline") ELSE "",
    Say(Deadlines(S.vot.cur, "voting/complete"), "the end of the vote is not scheduled for exactly its deadline"),
    IF Lone THEN Spurned ELSE "" >>)
Polls(w) ==
  FirstBad(<<
    w.why,
    Compare(PollFields, w),
    Say(Clean(S.vot), "answers are miscounted"),
    IF E.op = "task" /\ E.hook = "voting/poll" THEN Say(P.vot.poll # <<>> /\ E.at = P.vot.poll[1].end, "a poll was ended at another time than announced") ELSE "",
    Say(Deadlines(S.vot.poll, "voting/poll"), "the end of the poll is not scheduled for exactly the announced time"),
    IF Lone THEN SpurnedPoll ELSE "" >>)
Step == IF E.op = "reset" THEN "" ELSE IF Prop = "C16" THEN Proposals(W1) ELSE Polls(W1)
Next == TNext(Step, IF E.op = "reset" THEN <<>> ELSE W1.m)
Spec == Init /\ [][Next]_tvars
=============================================================================
