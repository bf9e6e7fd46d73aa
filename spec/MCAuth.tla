------------------------------- MODULE MCAuth -------------------------------
(* All histories of votes about the lists of signers and about the government itself, and of privileged messages of          *)
(* everybody: the lists change only by votes, each by what the vote was about.                                                *)
EXTENDS Auth, TLC
CONSTANTS Accs, MaxTime, MaxProps
VARIABLES s, r, now, n, rater
vars == <<s, r, now, n, rater>>
Types == {"TOKEN_RATE_SIGNER_ADD", "TOKEN_RATE_SIGNER_REMOVE", "GOVERNMENT_ADD", "GOVERNMENT_REMOVE"}
What(t) == CASE t = "GOVERNMENT_ADD" -> "gov+" [] t = "GOVERNMENT_REMOVE" -> "gov-" [] OTHER -> t
Rights(sg, v) == [k \in {"ratesig", "gov"} |-> IF k = "gov" THEN v.gov ELSE sg]
Init == /\ s \in [gov : SUBSET Accs \ {{}}, cur : {<<>>}, yea : {{}}, nay : {{}}, start : {0}, hist : {<<>>}, done : {<<>>}, poll : {<<>>}, ans : {NoAnswers}, polls : {<<>>}]
        /\ r \in SUBSET Accs \ {{}} /\ now = 0 /\ n = 0 /\ rater = "none"
\* the last signer cannot be removed
Change(q, p) == CASE p.what = "TOKEN_RATE_SIGNER_ADD" -> q \cup {p.v}
                  [] p.what = "TOKEN_RATE_SIGNER_REMOVE" -> IF q = {p.v} THEN q ELSE q \ {p.v}
                  [] OTHER -> q
To(t) == /\ s' = t /\ r' = IF Len(t.done) > Len(s.done) THEN Change(r, t.done[Len(t.done)]) ELSE r
         /\ rater' = "none"
Proposal(a) == /\ Entitled(Rights(r, s), "propose", a) /\ MayPropose(s, a) /\ n < MaxProps /\ n' = n + 1
               /\ \E t \in Types, v \in Accs : To(Propose(s, [author |-> a, end |-> now + 1, what |-> What(t), type |-> t, v |-> v], now))
               /\ UNCHANGED now
Ballot(a, y) == Entitled(Rights(r, s), "vote", a) /\ MayVote(s, a) /\ To(Cast(s, a, y, now)) /\ UNCHANGED <<now, n>>
Rate(a) == Entitled(Rights(r, s), "rate", a) /\ rater' = a /\ UNCHANGED <<s, r, now, n>>
Tick == now < MaxTime /\ now' = now + 1 /\ To(IF s.cur # <<>> /\ s.cur[1].end <= now + 1 THEN Deadline(s, now + 1) ELSE s) /\ UNCHANGED n
Next == Tick \/ \E a \in Accs : Proposal(a) \/ Rate(a) \/ \E y \in BOOLEAN : Ballot(a, y)
Spec == Init /\ [][Next]_vars
New(i) == LET h == s'.hist[i] IN [yea |-> h.yea, nay |-> h.nay, gov |-> h.gov, type |-> h.p.type, v |-> h.p.v]
OnlyByVote == [][LET hs == {New(i) : i \in {j \in DOMAIN s'.hist : j > Len(s.hist)}} IN
                 \A k \in {"ratesig", "gov"} : Lawful(Rights(r, s), Rights(r', s'), hs, k)]_vars
Entrusted == rater # "none" => rater \in r
SomebodySigns == r # {}
=============================================================================
