------------------------------ MODULE MCQuery ------------------------------
(* All histories of a node that builds, checks, commits and loses blocks of entries of a history, schedules tasks, and is   *)
(* asked in between: an answer is that of a committed version, and pages, windows and depths fit together.                  *)
EXTENDS Query, TLC
CONSTANTS MaxLen, Kept
VARIABLES done, work, probe, told
vars == <<done, work, probe, told>>
\* the state of the abstract chain: a history (newest first), tasks in the order of their times, coins per level of a team
Empty == [hist |-> <<>>, tasks |-> <<>>, coins |-> <<>>]
Insert(ts, t) == LET k == Cardinality({i \in DOMAIN ts : ts[i].t <= t}) IN SubSeq(ts, 1, k) \o <<[t |-> t, n |-> Len(ts)]>> \o SubSeq(ts, k + 1, Len(ts))
Changes(st) == {[st EXCEPT !.hist = <<Len(@)>> \o @], [st EXCEPT !.coins = Append(@, BInt(Len(@) + 1))]} \cup {[st EXCEPT !.tasks = Insert(@, t)] : t \in 0..2}
Small(st) == Len(st.hist) + Len(st.tasks) + Len(st.coins) <= MaxLen
Init == done = <<Empty>> /\ work = Empty /\ probe = Empty /\ told = [of |-> Empty, st |-> Empty]
\* a transaction of the block that is being built; one that is only checked; the block committed; the node stopped
Deliver == \E st \in Changes(work) : Small(st) /\ work' = st /\ UNCHANGED <<done, probe, told>>
Check == \E st \in Changes(probe) : Small(st) /\ probe' = st /\ UNCHANGED <<done, work, told>>
Commit == Len(done) < Kept /\ done' = <<work>> \o done /\ probe' = work /\ UNCHANGED <<work, told>>
Stop == work' = done[1] /\ probe' = done[1] /\ UNCHANGED <<done, told>>
Ask == \E back \in 0..(Len(done) - 1) : told' = [of |-> done[back + 1], st |-> [hist |-> Page(done[back + 1].hist, MaxLen, 1), tasks |-> Window(done[back + 1].tasks, 0, 3), coins |-> done[back + 1].coins]]
       /\ UNCHANGED <<done, work, probe>>
Next == Deliver \/ Check \/ Commit \/ Stop \/ Ask
Spec == Init /\ [][Next]_vars
Committed == told.st = told.of /\ (told.of # Empty => \E i \in DOMAIN done : done[i] = told.of)
RECURSIVE Pages(_, _, _)
Pages(list, limit, page) == IF Page(list, limit, page) = <<>> THEN <<>> ELSE Page(list, limit, page) \o Pages(list, limit, page + 1)
\* the pages, one after the other, are the list; windows side by side are the window from the first to the last
Paged == \A i \in DOMAIN done : \A limit \in 1..(MaxLen + 1) : Pages(done[i].hist, limit, 1) = done[i].hist
Tiled == \A i \in DOMAIN done : \A a \in 0..3, b \in 0..3, c \in 0..3 :
           a <= b /\ b <= c => Window(done[i].tasks, a, b) \o Window(done[i].tasks, b, c) = Window(done[i].tasks, a, c)
\* the deeper a team is counted the more there is, down to where the status ends; no depth means all of it
LevelsOf(c) == [i \in 1..11 |-> IF i <= 3 * Len(c) THEN BInt(i) ELSE BZero]
Team(st, status) == [st |-> status, coins |-> LevelsOf(st.coins), deleg |-> LevelsOf(<<>>)]
Deeper == \A i \in DOMAIN done : \A status \in 1..5, d \in 1..11 :
            LET n(x) == TeamCoins(Team(done[i], status), x).total
            IN BLe(n(d), n(d + 1)) /\ BLe(n(d), n(0)) /\ (d >= Lines(status) => n(d) = n(0))
\* asking changes nothing, and what is being built or checked is never told
Quiet == [][told' # told => done' = done /\ work' = work /\ probe' = probe]_vars
=============================================================================
