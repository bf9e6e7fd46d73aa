------------------------------- MODULE MCVote -------------------------------
(* All histories of proposing, voting, deadlines, polls and answers of a few accounts. `set` counts the ordinary        *)
(* proposals that took effect, `log` what everybody did about the running vote and poll.                               *)
EXTENDS Vote, TLC
CONSTANTS Accs, Period, MaxTime, MaxProps, MaxPolls
VARIABLES s, now, n, said, told, effect
vars == <<s, now, n, said, told, effect>>
Quorums == {<<>>, <<1, 2>>, <<0, 1>>, <<1, 1>>}
Kinds == {[what |-> "set", v |-> "x"]} \cup {[what |-> w, v |-> a] : w \in {"gov+", "gov-"}, a \in Accs}
Init == /\ s \in [gov : SUBSET Accs \ {{}}, cur : {<<>>}, yea : {{}}, nay : {{}}, start : {0}, hist : {<<>>}, done : {<<>>}, poll : {<<>>}, ans : {NoAnswers}, polls : {<<>>}]
        /\ now = 0 /\ n = 0 /\ said = [a \in {} |-> TRUE] /\ told = [a \in {} |-> TRUE] /\ effect = 0
Put(f, a, x) == [b \in DOMAIN f \cup {a} |-> IF b = a THEN x ELSE f[b]]
Proposal(a) == /\ MayPropose(s, a) /\ n < MaxProps /\ n' = n + 1
               /\ \E k \in Kinds : s' = Propose(s, [author |-> a, end |-> now + Period, what |-> k.what, v |-> k.v], now)
               /\ said' = [b \in {a} |-> TRUE]
               /\ UNCHANGED <<now, told>> /\ effect' = effect + Len(s'.done) - Len(s.done)
Vote1(a, y) == /\ MayVote(s, a) /\ s' = Cast(s, a, y, now) /\ said' = Put(said, a, y)
               /\ UNCHANGED <<now, n, told>> /\ effect' = effect + Len(s'.done) - Len(s.done)
Poll1(a) == /\ MayStart(s, a) /\ Len(s.polls) < MaxPolls /\ \E q \in Quorums : s' = StartPoll(s, [author |-> a, end |-> now + Period, quorum |-> q])
            /\ told' = [b \in {} |-> TRUE] /\ UNCHANGED <<now, n, said, effect>>
\* who meets the requirement changes arbitrarily
Answer1(a, y) == /\ MayAnswer(s, a, TRUE) /\ s' = Answer(s, a, y) /\ told' = Put(told, a, y) /\ UNCHANGED <<now, n, said, effect>>
Tick == /\ now < MaxTime /\ now' = now + 1 /\ UNCHANGED <<n, said, told>>
        /\ LET a == IF s.cur # <<>> /\ s.cur[1].end <= now + 1 THEN Deadline(s, now + 1) ELSE s
               b == IF a.poll # <<>> /\ a.poll[1].end <= now + 1 THEN EndPoll(a) ELSE a IN
           s' = b /\ effect' = effect + Len(b.done) - Len(s.done)
Next == Tick \/ \E a \in Accs : Proposal(a) \/ Poll1(a) \/ (\E y \in BOOLEAN : Vote1(a, y) \/ Answer1(a, y))
Spec == Init /\ [][Next]_vars
Ok == Invariants(s)
\* the votes recorded are what was said, once each
Faithful == s.cur # <<>> => (s.yea = {a \in DOMAIN said : said[a]} /\ s.nay = {a \in DOMAIN said : ~said[a]} /\ s.cur[1].end > now)
\* everything that took effect had every member's vote and two thirds of them, at the time
Lawful == /\ Len(s.done) = Cardinality({i \in DOMAIN s.hist : LET r == s.hist[i] IN
                                           r.yea \cup r.nay = r.gov /\ 3 * Cardinality(r.yea) >= 2 * Cardinality(r.gov)})
          /\ effect = Len(s.done)
          /\ \A i \in DOMAIN s.hist : s.hist[i].yea \cup s.hist[i].nay \subseteq s.hist[i].gov /\ s.hist[i].yea \cap s.hist[i].nay = {}
          /\ n = Len(s.hist) + Len(s.cur)
\* the government changes only by what passed: each change is the next in the list of effects
GovByVote == [][s'.gov # s.gov => Len(s'.done) = Len(s.done) + 1 /\ s'.gov = ChangeGov(s.gov, s'.done[Len(s'.done)])]_vars
NothingByRejection == [][Len(s'.hist) > Len(s.hist) /\ Len(s'.done) = Len(s.done) => s'.gov = s.gov]_vars
HistoryGrows == [][Len(s'.hist) >= Len(s.hist) /\ SubSeq(s'.hist, 1, Len(s.hist)) = s.hist]_vars
Counted == s.poll # <<>> => s.ans = told
PollRight == [][Len(s'.polls) > Len(s.polls) => LET r == s'.polls[Len(s'.polls)]
                                                   y == {a \in DOMAIN told : told[a]} IN
                  r.yes = Cardinality(y) /\ r.no = Cardinality(DOMAIN told \ y)
                  /\ (r.dec = Positive <=> r.p.quorum # <<>> /\ y # {} /\ r.yes * r.p.quorum[2] >= r.p.quorum[1] * (r.yes + r.no))
                  /\ (r.dec = Undecided <=> r.p.quorum = <<>>)]_vars
=============================================================================
