------------------------------- MODULE MCGen --------------------------------
(* All histories of few accounts that pay, lapse, are compressed, banished and come back, with blocks at all times: at every   *)
(* block boundary exporting and importing yields the same.                                                                   *)
EXTENDS Gen, TLC, Sequences, SequencesExt
CONSTANTS MaxTime, MaxD, Jumps
VARIABLES s, now, due
vars == <<s, now, due>>
Init == /\ s \in [auto : [Accs -> BOOLEAN], d : [Accs -> 0..MaxD], until : {[a \in Accs |-> -1]}, act : {[a \in Accs |-> FALSE]}, comp : {[a \in Accs |-> CompIn]}, ban : {[a \in Accs |-> -1]}, gone : {[a \in Accs |-> FALSE]}, tasks : {{<<CompIn, "comp", a>> : a \in Accs}}, dust : {1}]
        /\ now = 0 /\ due = <<>>
\* the tasks due when a block begins are done in order of time, even if doing one makes another due
Begin(dt) == /\ due = <<>> /\ now + dt <= MaxTime /\ now' = now + dt
             /\ due' = SetToSortSeq({k \in s.tasks : k[1] <= now + dt}, LAMBDA x, y : x[1] < y[1])
             /\ s' = [s EXCEPT !.tasks = {k \in @ : k[1] > now + dt}]
Perform == due # <<>> /\ s' = Do(s, Head(due), now) /\ due' = Tail(due) /\ UNCHANGED now
PayNow(a) == due = <<>> /\ s' = Pay(s, a, now) /\ UNCHANGED <<now, due>>
Delegated(a, d) == due = <<>> /\ d # s.d[a] /\ s' = Hook(s, a, d, now) /\ UNCHANGED <<now, due>>
Next == Perform \/ (\E dt \in Jumps : Begin(dt)) \/ \E a \in Accs : PayNow(a) \/ \E d \in 0..MaxD : Delegated(a, d)
Spec == Init /\ [][Next]_vars
Paying == \A a \in Accs : s.until[a] <= MaxTime + 2
Carried == due = <<>> => Import(Export(s), now) = s
=============================================================================
