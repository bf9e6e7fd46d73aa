-------------------------------- MODULE Earn --------------------------------
(* Who counts as VPN or storage earner: the accounts with a report less than two days old. `rec` maps an account to the  *)
(* times last reported, -1 meaning none.                                                                              *)
EXTENDS Integers, Sequences, FiniteSets
None == -1
NoReport == [vpn |-> None, sto |-> None]
Fresh(t, now, day) == t # None /\ t + 2*day > now
Put(rec, a, r) == IF r.vpn = None /\ r.sto = None THEN [x \in DOMAIN rec \ {a} |-> rec[x]]
                  ELSE [x \in DOMAIN rec \cup {a} |-> IF x = a THEN r ELSE rec[x]]
\* a report for several accounts, in the given order
RECURSIVE Report(_, _)
Report(rec, list) == IF list = <<>> THEN rec
                     ELSE Report(Put(rec, Head(list).acc, [vpn |-> Head(list).vpn, sto |-> Head(list).sto]), Tail(list))
Active(rec, a, now, day) == IF a \in DOMAIN rec THEN [vpn |-> Fresh(rec[a].vpn, now, day), sto |-> Fresh(rec[a].sto, now, day)]
                            ELSE [vpn |-> FALSE, sto |-> FALSE]
\* times that are two days old may be forgotten
Lapse(t, now, day) == IF Fresh(t, now, day) THEN {t} ELSE {t, None}
MayBecome(rec, rec2, now, day) ==
  \A a \in DOMAIN rec \cup DOMAIN rec2 :
    LET r == IF a \in DOMAIN rec THEN rec[a] ELSE NoReport
        q == IF a \in DOMAIN rec2 THEN rec2[a] ELSE NoReport
    IN q.vpn \in Lapse(r.vpn, now, day) /\ q.sto \in Lapse(r.sto, now, day)
=============================================================================
