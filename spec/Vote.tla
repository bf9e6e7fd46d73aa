-------------------------------- MODULE Vote --------------------------------
(* Proposals and polls. A voting state is a record                                                                     *)
(*   gov       the members of the government (a set)                                                                   *)
(*   cur       <<>> or <<proposal>>: what is being voted on, with the time it ends                                     *)
(*   yea, nay  the members that agreed / disagreed                                                                     *)
(*   start     the height at which the vote began                                                                      *)
(*   hist      the finished votes, oldest first                                                                        *)
(*   poll, ans, polls   likewise the running poll, the answers to it (account -> BOOLEAN) and the finished polls        *)
(* What a proposal names is opaque here, except changes of the government itself: kind "gov+" / "gov-" with account v.  *)
EXTENDS Integers, Sequences, FiniteSets
NoVote == [cur |-> <<>>, yea |-> {}, nay |-> {}, start |-> 0]
NoAnswers == [x \in {} |-> TRUE]
\* --- proposals
Complete(s) == Cardinality(s.gov) = Cardinality(s.yea) + Cardinality(s.nay)
Passed(s) == Complete(s) /\ 3 * Cardinality(s.yea) >= 2 * Cardinality(s.gov)
ChangeGov(gov, p) == CASE p.what = "gov+" -> gov \cup {p.v} [] p.what = "gov-" -> gov \ {p.v} [] OTHER -> gov
\* the vote ends now; what passed is added to `done`
Finish(s, h) ==
  LET rec == [p |-> s.cur[1], gov |-> s.gov, yea |-> s.yea, nay |-> s.nay, started |-> s.start, finished |-> h] IN
  [s EXCEPT !.cur = <<>>, !.yea = {}, !.nay = {}, !.start = 0, !.hist = Append(@, rec),
            !.gov = IF Passed(s) THEN ChangeGov(@, s.cur[1]) ELSE @,
            !.done = IF Passed(s) THEN Append(@, s.cur[1]) ELSE @]
Settle(s, h) == IF Complete(s) THEN Finish(s, h) ELSE s
MayPropose(s, by) == by \in s.gov /\ s.cur = <<>>
Propose(s, p, h) == Settle([s EXCEPT !.cur = <<p>>, !.yea = {p.author}, !.nay = {}, !.start = h], h)
MayVote(s, by) == s.cur # <<>> /\ by \in s.gov /\ by \notin s.yea \cup s.nay
Cast(s, by, yes, h) == Settle(IF yes THEN [s EXCEPT !.yea = @ \cup {by}] ELSE [s EXCEPT !.nay = @ \cup {by}], h)
Deadline(s, h) == IF s.cur = <<>> THEN s ELSE Finish(s, h)
\* --- polls
MayStart(s, by) == by \in s.gov /\ s.poll = <<>>
StartPoll(s, p) == [s EXCEPT !.poll = <<p>>, !.ans = NoAnswers]
\* `ent` tells whether the account meets the requirement
MayAnswer(s, by, ent) == s.poll # <<>> /\ ent /\ by \notin DOMAIN s.ans
Answer(s, by, yes) == [s EXCEPT !.ans = [a \in DOMAIN @ \cup {by} |-> IF a = by THEN yes ELSE @[a]]]
Ayes(s) == Cardinality({a \in DOMAIN s.ans : s.ans[a]})
Noes(s) == Cardinality({a \in DOMAIN s.ans : ~s.ans[a]})
Undecided == 0
Positive == 1
Negative == 2
\* quorum <<n, d>>: the share of the answers that has to be positive; at least one has
Outcome(q, yes, no) == IF q = <<>> THEN Undecided ELSE IF yes > 0 /\ yes * q[2] >= q[1] * (yes + no) THEN Positive ELSE Negative
EndPoll(s) == [s EXCEPT !.poll = <<>>, !.ans = NoAnswers,
                        !.polls = Append(@, [p |-> s.poll[1], yes |-> Ayes(s), no |-> Noes(s), dec |-> Outcome(s.poll[1].quorum, Ayes(s), Noes(s))])]
Invariants(s) == /\ s.yea \cap s.nay = {}
                 /\ s.yea \cup s.nay \subseteq s.gov
                 /\ (s.cur = <<>>) => s.yea \cup s.nay = {}
                 /\ (s.poll = <<>>) => DOMAIN s.ans = {}
=============================================================================
