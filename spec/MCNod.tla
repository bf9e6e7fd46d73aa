------------------------------- MODULE MCNod -------------------------------
(* Exhaustive check of the design in Nod for a few accounts and keys: the differences that the application sends to the  *)
(* engine, computed from what it remembers about each validator, add up to the set it means.                              *)
EXTENDS Nod, TLC
CONSTANTS Accs, Keys, Movers, MaxTop, MaxLucky, JailAfter, UnjailAfter, Evidence
VARIABLES v, last, q, vals, idx, qual, prev
vars == <<v, last, q, vals, idx, qual, prev>>
Par == [max |-> MaxTop, lottery |-> MaxLucky, jailafter |-> JailAfter, unjailafter |-> UnjailAfter, lucky |-> 1,
        slices |-> <<[part |-> <<1, 2>>, vp |-> 3], [part |-> <<1, 2>>, vp |-> 2]>>]
NoKey == "none"
Blank == [on |-> FALSE, pk |-> NoKey, miss |-> 0, ok |-> 0, strokes |-> 0, score |-> 0, jailed |-> FALSE, unjail |-> 0, jc |-> 0, inf |-> 0, banned |-> FALSE]
Fresh == [lp |-> 0, lpk |-> NoKey]
\* heights are relative: the block is always at 0 and the time left in jail counts down; scores and counters that only grow are capped
Norm(r) == [r EXCEPT !.score = IF @ > 1 THEN 1 ELSE IF @ < 0 THEN 0 ELSE @, !.ok = 0, !.strokes = 0, !.jc = 0, !.inf = IF Evidence THEN @ ELSE 0, !.banned = @ /\ Evidence, !.unjail = IF r.jailed THEN @ ELSE 0]
Empty == [k \in {} |-> 0]
Init == /\ v = [a \in Accs |-> Blank] /\ last = [a \in Accs |-> Fresh] /\ q = <<>> /\ vals = Empty
        /\ idx = [k \in Keys |-> NoKey] /\ qual = [a \in Accs |-> TRUE] /\ prev = {}
Keep(x) == UNCHANGED x
On(a, k) == /\ MaySwitchOn(v, a, k, qual[a])
            /\ v' = [v EXCEPT ![a].on = TRUE, ![a].pk = k] /\ idx' = [idx EXCEPT ![k] = a] /\ Keep(<<last, q, vals, qual, prev>>)
Off(a) == v[a].on /\ v' = [v EXCEPT ![a].on = FALSE] /\ q' = Out(q, {a}) /\ Keep(<<last, vals, idx, qual, prev>>)
Unjail(a) == MayUnjail(v[a], 0) /\ v' = [v EXCEPT ![a] = Norm(Released(v[a], qual[a]))] /\ Keep(<<last, q, vals, idx, qual, prev>>)
Restake(a) == v' = [v EXCEPT ![a].score = 1 - @] /\ Keep(<<last, q, vals, idx, qual, prev>>)
Lose(a) == /\ qual' = [qual EXCEPT ![a] = ~@]
           /\ IF qual[a] /\ Working(v[a]) THEN v' = [v EXCEPT ![a].on = FALSE] /\ q' = Out(q, {a}) ELSE Keep(<<v, q>>)
           /\ Keep(<<last, vals, idx, prev>>)
\* what the engine reports about a key it had in charge of one of the last blocks
Reported == {k \in prev \cup DOMAIN vals : idx[k] # NoKey}
Propose(k) == k \in Reported /\ q' = Back(q, idx[k]) /\ Keep(<<v, last, vals, idx, qual, prev>>)
Tick(k) == k \in Reported /\ v' = [v EXCEPT ![idx[k]] = Norm(Ticked(@))] /\ Keep(<<last, q, vals, idx, qual, prev>>)
Stroke(k) == /\ k \in Reported
             /\ LET a == idx[k] r == Stroked(v[a], 0, Par) IN
                v' = [v EXCEPT ![a] = Norm(r)] /\ q' = IF v[a].jailed THEN q ELSE IF r.jailed THEN Out(q, {a}) ELSE Back(q, a)
             /\ Keep(<<last, vals, idx, qual, prev>>)
Byz(k) == /\ Evidence /\ k \in Reported /\ v[idx[k]].inf < 2
          /\ LET a == idx[k] r == Byzantine(v[a]) IN v' = [v EXCEPT ![a] = Norm(r)] /\ q' = IF r.banned THEN Out(q, {a}) ELSE Back(q, a)
          /\ Keep(<<last, vals, idx, qual, prev>>)
\* how the application computes its updates: what it told last about each account against what it has to tell now
Told(a, pw) ==
  IF a \in DOMAIN pw
  THEN (IF v[a].pk # last[a].lpk /\ last[a].lpk # NoKey THEN <<[k |-> last[a].lpk, p |-> 0]>> ELSE <<>>)
       \o (IF v[a].pk # last[a].lpk \/ last[a].lp # pw[a] THEN <<[k |-> v[a].pk, p |-> pw[a]]>> ELSE <<>>)
  ELSE IF last[a].lp # 0 THEN <<[k |-> last[a].lpk, p |-> 0]>> ELSE <<>>
Merge(u) == LET ks == {u[i].k : i \in DOMAIN u} IN
  SetToSeq({[k |-> k, p |-> LET some == {i \in DOMAIN u : u[i].k = k /\ u[i].p # 0} IN IF some = {} THEN 0 ELSE u[Max(some)].p] : k \in ks})
Updates(pw) == Merge(FoldLeft(LAMBDA s, a : s \o Told(a, pw), <<>>, SetToSeq(Accs)))
Chosen(t) == PowerOf(v, Par, t, Winners(v, Par, q, t))
End == /\ \E t \in SUBSET Accs : IsTop(v, Par, t) /\
            LET pw == Chosen(t)
                u == Updates(pw)
                new == Workers(v) \ (t \cup ToSet(q))
            IN /\ Assert(ProperUpdates(vals, u), "improper updates")
               /\ vals' = Apply(vals, u)
               /\ Assert(vals' = EngineSet(v, pw), "the engine has another set")
               /\ last' = [a \in Accs |-> IF a \in DOMAIN pw THEN [lp |-> pw[a], lpk |-> v[a].pk] ELSE Fresh]
               /\ \E s \in SetToSeqs(new) : q' = Out(q, t) \o s
       /\ v' = [a \in Accs |-> [v[a] EXCEPT !.unjail = IF @ > 0 THEN @ - 1 ELSE 0]]
       /\ prev' = DOMAIN vals /\ Keep(<<idx, qual>>)
\* export and import: what was told is forgotten, and so is the queue; the engine starts afresh
Import == last' = [a \in Accs |-> Fresh] /\ q' = <<>> /\ vals' = Empty /\ prev' = {} /\ Keep(<<v, idx, qual>>)
Next == \/ \E a \in Movers : Restake(a) \/ Lose(a)
        \/ \E a \in Accs : Off(a) \/ Unjail(a) \/ \E k \in Keys : On(a, k)
        \/ \E k \in Keys : Propose(k) \/ Tick(k) \/ Stroke(k) \/ Byz(k)
        \/ End \/ Import
Spec == Init /\ [][Next]_vars
OneKey == OneKeyEach(v)
Attributed == \A a \in Accs : Working(v[a]) => idx[v[a].pk] = a
QueueOk == /\ \A a \in ToSet(q) : Working(v[a])
           /\ Cardinality(ToSet(q)) = Len(q)
Unbanned == \A a \in Accs : v[a].banned => ~v[a].on /\ v[a].inf > 1
=============================================================================
