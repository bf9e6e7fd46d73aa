-------------------------------- MODULE Gen ---------------------------------
(* Export and import of what has a life of its own: subscriptions, activity, compression, banishment and the tasks that      *)
(* drive them. Modules are imported one after another, and importing balances and activity triggers the same reactions       *)
(* as living does; that the outcome is nevertheless what was exported is not obvious.                                       *)
(* s: for each account d (delegated), auto (renewed automatically), until (the end of the subscription, -1 never), act, comp, ban (times or -1), gone;     *)
(* tasks: a set of <<time, hook, account>>; dust: what is too little to stay.                                               *)
EXTENDS Integers, FiniteSets
CONSTANTS Accs, Month, CompIn, BanIn
\* ---- living
Cancel(s, t, h, a) == [s EXCEPT !.tasks = @ \ {<<t, h, a>>}]
Plan(s, t, h, a) == [s EXCEPT !.tasks = @ \cup {<<t, h, a>>}]
StopBan(s, a) == IF s.ban[a] < 0 THEN s ELSE [Cancel(s, s.ban[a], "ban", a) EXCEPT !.ban[a] = -1]
StartBan(s, a, now) == [Plan(s, now + BanIn, "ban", a) EXCEPT !.ban[a] = now + BanIn]
SetActive(s, a, v, now) == IF s.act[a] = v THEN s
  ELSE IF v THEN [StopBan(s, a) EXCEPT !.act[a] = TRUE, !.comp[a] = -1]
  ELSE [Plan(s, now + CompIn, "comp", a) EXCEPT !.act[a] = FALSE, !.comp[a] = now + CompIn]
Back(s, a, now) == [s EXCEPT !.gone[a] = FALSE, !.ban[a] = -1]
\* a change of the delegated amount
Hook(s, a, d, now) == LET t == [s EXCEPT !.d[a] = d] IN
  IF d = s.d[a] \/ s.act[a] THEN t
  ELSE IF d <= s.dust THEN (IF ~s.gone[a] /\ s.ban[a] < 0 /\ (s.comp[a] < 0 \/ now > s.comp[a]) THEN StartBan(t, a, now) ELSE t)
  ELSE LET u == StopBan(t, a) IN IF s.gone[a] THEN Back(u, a, now) ELSE u
Pay(s, a, now) == LET u == IF s.until[a] > now THEN s.until[a] + Month ELSE now + Month
                      t == SetActive(IF s.gone[a] THEN Back(s, a, now) ELSE s, a, TRUE, now) IN Plan([t EXCEPT !.until[a] = u], u, "refresh", a)
Do(s, k, now) == LET a == k[3] IN CASE
     k[2] = "refresh" -> IF s.until[a] > now THEN s
                         ELSE IF s.auto[a] THEN LET u == s.until[a] + Month IN Plan([s EXCEPT !.until[a] = u], u, "refresh", a)  \* perhaps already over, too
                         ELSE SetActive(s, a, FALSE, now)
  [] k[2] = "comp" -> IF s.comp[a] # k[1] THEN s ELSE LET t == [s EXCEPT !.comp[a] = -1] IN IF s.d[a] <= s.dust THEN StartBan(t, a, now) ELSE t
  [] k[2] = "ban" -> IF s.ban[a] # k[1] \/ s.act[a] \/ s.d[a] > s.dust THEN s ELSE [s EXCEPT !.ban[a] = -1, !.gone[a] = TRUE]
\* ---- carrying over
Export(s) == [d |-> s.d, auto |-> s.auto, until |-> s.until, comp |-> s.comp, ban |-> s.ban, gone |-> s.gone, tasks |-> s.tasks, dust |-> s.dust]
Blank(x) == [d |-> [a \in Accs |-> 0], auto |-> x.auto, until |-> x.until, act |-> [a \in Accs |-> FALSE], comp |-> x.comp, ban |-> x.ban, gone |-> x.gone, tasks |-> x.tasks, dust |-> x.dust]
\* counted active: paid for, or the end of the subscription not yet noticed
Counts(x, a, now) == x.until[a] > now \/ (x.until[a] >= 0 /\ <<x.until[a], "refresh", a>> \in x.tasks)
Over(Op(_, _), s0) == LET f[b \in SUBSET Accs] == IF b = {} THEN s0 ELSE LET a == CHOOSE a \in b : TRUE IN Op(f[b \ {a}], a) IN f[Accs]
Import(x, now) == LET balances == Over(LAMBDA s, a : Hook(s, a, x.d[a], now), Blank(x))
                      activity == Over(LAMBDA s, a : IF Counts(x, a, now) THEN SetActive(s, a, TRUE, now) ELSE s, balances) IN activity
=============================================================================
