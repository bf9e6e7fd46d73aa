----------------------------- MODULE TraceSched -----------------------------
(* Replays a recorded history of the real scheduler through the actions of Sched. *)
EXTENDS Sched, TLC, Json, IOUtils
VARIABLES l, bad
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<q, now, phase, nid, log, l, bad>>

Init == SchedInit /\ l = 1 /\ bad = ""

E == Trace[l]
View(s) == [i \in DOMAIN s |-> [tm |-> s[i].tm, hk |-> s[i].hk, dt |-> s[i].dt]]
Same(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : s[i].tm = t[i].tm /\ s[i].hk = t[i].hk /\ s[i].dt = t[i].dt

Reject(why) == bad' = why /\ UNCHANGED schedVars
Seen(s) == bad' = IF "q" \in DOMAIN E /\ ~Same(s, E.q) THEN "queue differs: expected " \o ToString(View(s)) ELSE ""

Cands == {i \in DOMAIN q : q[i].tm = E.tm /\ q[i].hk = E.hk /\ q[i].dt = E.dt /\ CanRun(i)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Step ==
  CASE E.op = "reset" -> /\ q' = <<>> /\ now' = E.now /\ phase' = "idle" /\ nid' = 1 /\ log' = <<>> /\ bad' = ""
    [] E.op = "sched" -> Schedule(E.tm, E.hk, E.dt) /\ Seen(q')
    [] E.op = "del" -> Delete(E.tm, E.hk, E.dt) /\ Seen(q')
    [] E.op = "delall" -> DeleteAll(E.tm, E.hk) /\ Seen(q')
    [] E.op = "begin" -> IF phase = "idle" /\ E.now >= now THEN Begin(E.now) /\ bad' = "" ELSE Reject("begin out of place")
    [] E.op = "run" -> IF Cands # {} THEN Run(MinOf(Cands)) /\ bad' = ""
                       ELSE Reject("task performed out of turn, early, twice, or after its cancellation")
    [] E.op = "end" -> IF CanEnd THEN End /\ Seen(AfterEnd) ELSE Reject("a due task was not performed")
    [] E.op \in {"restart", "reimport"} ->
          IF E.err # "" THEN Reject("restart failed") ELSE Restart /\ Seen(q)
    [] OTHER -> Reject("unknown event")

Next == l <= Len(Trace) /\ bad = "" /\ Step /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted == bad = ""
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
