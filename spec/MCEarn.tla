------------------------------- MODULE MCEarn -------------------------------
(* All histories of reports, of time passing and of forgetting, for small times. `said` remembers every last report. *)
EXTENDS Earn, TLC
CONSTANTS Accs, MaxTime, Day, MaxList
VARIABLES rec, now, said
vars == <<rec, now, said>>
Times == {None} \cup 0..MaxTime
Entry == [acc : Accs, vpn : Times, sto : Times]
Init == rec = [x \in {} |-> NoReport] /\ now = 0 /\ said = [a \in Accs |-> NoReport]
DoReport(list) == /\ rec' = Report(rec, list)
                  /\ said' = [a \in Accs |-> LET m == {i \in DOMAIN list : list[i].acc = a} IN
                                IF m = {} THEN said[a] ELSE LET i == CHOOSE i \in m : \A j \in m : j <= i IN [vpn |-> list[i].vpn, sto |-> list[i].sto]]
                  /\ UNCHANGED now
Forget(a) == /\ a \in DOMAIN rec
             /\ rec' = Put(rec, a, [vpn |-> IF Fresh(rec[a].vpn, now, Day) THEN rec[a].vpn ELSE None, sto |-> IF Fresh(rec[a].sto, now, Day) THEN rec[a].sto ELSE None])
             /\ UNCHANGED <<now, said>>
Tick == now < MaxTime + 2*Day + 1 /\ now' = now + 1 /\ UNCHANGED <<rec, said>>
Next == Tick \/ (\E a \in Accs : Forget(a)) \/ (\E e \in Entry : DoReport(<<e>>)) \/ (MaxList > 1 /\ \E e, f \in Entry : DoReport(<<e, f>>))
Spec == Init /\ [][Next]_vars
\* an account is active exactly while its last report is less than two days old, forgotten or not
Right == \A a \in Accs : Active(rec, a, now, Day) = [vpn |-> said[a].vpn # None /\ now - said[a].vpn < 2*Day, sto |-> said[a].sto # None /\ now - said[a].sto < 2*Day]
\* nothing is kept for an account without report
NoGhosts == \A a \in DOMAIN rec : rec[a] # NoReport /\ rec[a].vpn \in {None, said[a].vpn} /\ rec[a].sto \in {None, said[a].sto}
ForgetIsAllowed == [][(\E a \in Accs : Forget(a)) => MayBecome(rec, rec', now, Day)]_vars
=============================================================================
