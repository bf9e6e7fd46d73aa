-------------------------------- MODULE Nod --------------------------------
(* Validators. A record per account: on (switched on), pk (its consensus key), miss, ok, strokes, score, jailed, unjail   *)
(* (height at which the jail opens), jc (times jailed), inf (infractions), banned. The lottery queue is a sequence of     *)
(* accounts; the validator set of the consensus engine is a function from keys to powers.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions
Working(r) == r.on /\ ~r.jailed /\ ~r.banned
Workers(v) == {a \in DOMAIN v : Working(v[a])}

(* --- duties --- *)
Ticked(r) == [r EXCEPT !.miss = 0, !.ok = @ + 1, !.score = IF (r.ok + 1) % 100 = 0 THEN @ + 1 ELSE @]
Stroked(r, h, p) ==
  IF r.jailed THEN r
  ELSE LET j == r.miss + 1 >= p.jailafter IN
    [r EXCEPT !.strokes = @ + 1, !.ok = 0, !.score = @ - 1 - r.ok \div 100, !.miss = IF j THEN 0 ELSE @ + 1,
              !.jailed = j, !.unjail = IF j THEN h + p.unjailafter ELSE @, !.jc = IF j THEN @ + 1 ELSE @]
Byzantine(r) == [r EXCEPT !.inf = @ + 1, !.banned = @ \/ r.inf >= 1, !.on = @ /\ r.inf < 1]
MayUnjail(r, h) == r.jailed /\ h >= r.unjail
Released(r, q) == [r EXCEPT !.jailed = FALSE, !.on = @ /\ q]
Pardoned(r) == [r EXCEPT !.score = @ + r.strokes, !.strokes = 0, !.jc = 0]

(* --- the key of a validator is its own --- *)
Holders(v, k) == {a \in DOMAIN v : v[a].on /\ v[a].pk = k}
MaySwitchOn(v, a, k, q) == q /\ Holders(v, k) \ {a} = {} /\ (a \notin DOMAIN v \/ (~v[a].on /\ ~v[a].banned))
OneKeyEach(v) == \A a, b \in DOMAIN v : a # b /\ v[a].on /\ v[b].on => v[a].pk # v[b].pk

(* --- who is chosen --- *)
Out(q, set) == SelectSeq(q, LAMBDA x : x \notin set)
Back(q, a) == IF a \in ToSet(q) THEN Append(Out(q, {a}), a) ELSE q
First(q, n) == ToSet(SubSeq(q, 1, IF n < Len(q) THEN n ELSE Len(q)))
Least(a, b) == IF a < b THEN a ELSE b
Better(v, a, b) == v[a].score > v[b].score \/ (v[a].score = v[b].score /\ v[a].ok > v[b].ok)
IsTop(v, p, top) == LET w == Workers(v) IN
  /\ top \subseteq w /\ Cardinality(top) = Least(p.max, Cardinality(w))
  /\ \A a \in top, b \in w \ top : ~Better(v, b, a)
\* the lottery winners, given who is at the top
Winners(v, p, q, top) == LET w == Workers(v) IN First(Out(q, top), Least(p.lottery, Cardinality(w) - Cardinality(top)))
\* voting powers: from the best one on, the next slice begins when the parts so far are used up and the score differs
RECURSIVE Powers(_, _, _, _, _, _)
Powers(p, scores, i, ptr, accum, den) ==
  IF i > Len(scores) THEN <<>>
  ELSE LET same == i > 1 /\ (i * den <= accum * p.max \/ scores[i] = scores[i-1])
           ptr2 == IF same THEN ptr ELSE ptr + 1
           accum2 == IF same THEN accum ELSE accum + p.slices[ptr2].part[1] * (den \div p.slices[ptr2].part[2])
       IN <<p.slices[ptr2].vp>> \o Powers(p, scores, i + 1, ptr2, accum2, den)
Den(p) == FoldLeft(LAMBDA d, s : d * s.part[2], 1, p.slices)
PowerOf(v, p, top, won) ==
  LET w == Workers(v)
      scores == SortSeq(SetToSeq({<<a, v[a].score>> : a \in top}), LAMBDA x, y : x[2] > y[2])
      pw == Powers(p, [i \in DOMAIN scores |-> scores[i][2]], 1, 0, 0, Den(p))
  IN [a \in top \cup won |-> IF a \in won THEN p.lucky ELSE pw[CHOOSE i \in DOMAIN scores : scores[i][1] = a]]
\* the validator set that the engine shall have
EngineSet(v, pw) == [k \in {v[a].pk : a \in DOMAIN pw} |-> pw[CHOOSE a \in DOMAIN pw : v[a].pk = k]]
\* applying a list of updates: no key twice, only known keys removed
ProperUpdates(vals, u) == /\ \A i, j \in DOMAIN u : i # j => u[i].k # u[j].k
                          /\ \A i \in DOMAIN u : u[i].p >= 0 /\ (u[i].p = 0 => u[i].k \in DOMAIN vals)
Apply(vals, u) ==
  LET gone == {u[i].k : i \in {j \in DOMAIN u : u[j].p = 0}}
      set == {u[i].k : i \in DOMAIN u} \ gone
  IN [k \in (DOMAIN vals \cup set) \ gone |-> IF k \in set THEN u[CHOOSE i \in DOMAIN u : u[i].k = k].p ELSE vals[k]]
=============================================================================
