------------------------------- MODULE Sched -------------------------------
(* The scheduler (x/schedule): a persistent queue of tasks ordered by due time, performed at the
   beginning of every block whose time has reached them.

   State is shaped like the implementation: one queue, ordered by due time and, within one due
   time, by insertion. A task is a record [tm, hk, dt, id, fl]; `id` identifies the instance (ghost)
   and `fl` says what the specification expects of it in the current block:

     "must"   was in the queue when the block began: performed in this block once it is due;
     "fresh"  added by a task of this very block although already due: performed in this block or
              in the next one, never lost;
     "may"    cancelled by another task of the same block while already due: may or may not be
              performed any more.
*)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES q,      \* the queue
          now,    \* time of the current (or last) block
          phase,  \* "idle" between the performing phases, "run" inside one
          nid,    \* ghost: next instance id
          log     \* ghost: what happened to each instance, a function id -> record
schedVars == <<q, now, phase, nid, log>>

SchedInit == q = <<>> /\ now = 0 /\ phase = "idle" /\ nid = 1 /\ log = <<>>

Due(t) == t.tm <= now

\* stable insertion by due time
InsertAt(s, t) == Cardinality({i \in DOMAIN s : s[i].tm <= t.tm})
Insert(s, t) == LET k == InsertAt(s, t) IN SubSeq(s, 1, k) \o <<t>> \o SubSeq(s, k + 1, Len(s))

Keep(s, P(_)) == SelectSeq(s, P)

Schedule(tm, hk, dt) ==
  LET fl == IF phase = "run" /\ tm <= now THEN "fresh" ELSE "must"
  IN /\ q' = Insert(q, [tm |-> tm, hk |-> hk, dt |-> dt, id |-> nid, fl |-> fl])
     /\ nid' = nid + 1
     /\ log' = Append(log, [tm |-> tm, born |-> now, inrun |-> phase = "run", ran |-> 0, at |-> 0, cancelled |-> FALSE])
     /\ UNCHANGED <<now, phase>>

\* cancellation of every queued task satisfying Sel
Cancel(Sel(_)) ==
  LET hit(t) == Sel(t)
      late(t) == phase = "run" /\ Due(t)
      relabelled == [i \in DOMAIN q |-> IF hit(q[i]) /\ late(q[i]) THEN [q[i] EXCEPT !.fl = "may"] ELSE q[i]]
      keep(t) == ~hit(t) \/ late(t)
      ids == {q[i].id : i \in {j \in DOMAIN q : hit(q[j])}}
  IN /\ q' = SelectSeq(relabelled, keep)
     /\ log' = [i \in DOMAIN log |-> IF i \in ids THEN [log[i] EXCEPT !.cancelled = TRUE] ELSE log[i]]
     /\ UNCHANGED <<now, phase, nid>>

Delete(tm, hk, dt) == Cancel(LAMBDA t : t.tm = tm /\ t.hk = hk /\ t.dt = dt)
DeleteAll(tm, hk)  == Cancel(LAMBDA t : t.tm = tm /\ t.hk = hk)

Begin(n) ==
  /\ phase = "idle" /\ n >= now
  /\ now' = n /\ phase' = "run"
  /\ q' = [i \in DOMAIN q |-> [q[i] EXCEPT !.fl = "must"]]
  /\ UNCHANGED <<nid, log>>

\* the task in position i is the next one to perform
CanRun(i) ==
  /\ phase = "run" /\ i \in DOMAIN q /\ Due(q[i])
  /\ \A j \in 1..(i - 1) : q[j].fl # "must"

\* Performing a task takes it out of the queue whether or not its handler completes.
Run(i) ==
  /\ CanRun(i)
  /\ q' = LET keep(j) == j # i /\ ~(j < i /\ q[j].fl = "may")
              idx == SelectSeq([j \in DOMAIN q |-> j], keep)
          IN [k \in DOMAIN idx |-> q[idx[k]]]
  /\ log' = [log EXCEPT ![q[i].id].ran = @ + 1, ![q[i].id].at = now]
  /\ UNCHANGED <<now, phase, nid>>

\* the block is through: everything that had to be performed has been
CanEnd == phase = "run" /\ \A i \in DOMAIN q : Due(q[i]) => q[i].fl # "must"
AfterEnd == SelectSeq(q, LAMBDA t : t.fl # "may")
End ==
  /\ CanEnd
  /\ q' = AfterEnd
  /\ phase' = "idle"
  /\ UNCHANGED <<now, nid, log>>

\* Neither a restart of the node nor an export/import of the chain touches the queue.
Restart == phase = "idle" /\ UNCHANGED schedVars

----------------------------------------------------------------------------
\* Invariants (over the ghost log)

Queued(id) == \E i \in DOMAIN q : q[i].id = id

Sorted == \A i, j \in DOMAIN q : i < j => q[i].tm <= q[j].tm
AtMostOnce == \A id \in DOMAIN log : log[id].ran <= 1
NeverEarly == \A id \in DOMAIN log : log[id].ran = 1 => log[id].at >= log[id].tm
NotLost == \A id \in DOMAIN log : log[id].ran = 0 /\ ~log[id].cancelled => Queued(id)
RunOrQueued == \A id \in DOMAIN log : log[id].ran = 1 => ~Queued(id)
\* between performing phases, nothing that was due before the phase began is left
NoneLeft == phase = "idle" =>
   \A i \in DOMAIN q : q[i].tm < now => log[q[i].id].born >= q[i].tm
=============================================================================
