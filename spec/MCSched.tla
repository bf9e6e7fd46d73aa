------------------------------ MODULE MCSched ------------------------------
EXTENDS Sched
CONSTANTS MaxTime, MaxTasks, Hooks
Data(n) == n

Next ==
  \/ \E tm \in 0..MaxTime, hk \in Hooks : nid <= MaxTasks /\ Schedule(tm, hk, nid)
  \/ \E i \in DOMAIN q : Delete(q[i].tm, q[i].hk, q[i].dt)
  \/ \E i \in DOMAIN q : DeleteAll(q[i].tm, q[i].hk)
  \/ \E n \in now..MaxTime : Begin(n)
  \/ \E i \in DOMAIN q : Run(i)
  \/ End
Spec == SchedInit /\ [][Next]_schedVars
\* A task performed in a block was not cancelled in an earlier phase.
NoZombie == [][\A id \in DOMAIN log : (log'[id].ran > log[id].ran /\ log[id].cancelled) => Queued(id)]_schedVars
=============================================================================
