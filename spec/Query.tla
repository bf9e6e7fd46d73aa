------------------------------- MODULE Query -------------------------------
(* What the query services answer: a function of a committed state (the projections of the modules), the parameters in    *)
(* force then, and the time and height of the last committed block. An answer is [err, ans]: err tells whether the        *)
(* question has no answer (nothing found), ans what is answered otherwise. ctx = [s, par, now, h, day].                    *)
EXTENDS Deleg, Refer
Nothing == [err |-> TRUE, ans |-> <<>>]
Just(x) == [err |-> FALSE, ans |-> x]

(* --- parts of lists --- *)
Least(a, b) == IF a < b THEN a ELSE b
Page(list, limit, page) == SubSeq(list, limit * (page - 1) + 1, Least(limit * page, Len(list)))
Window(tasks, since, to) == SelectSeq(tasks, LAMBDA t : since <= t.t /\ t.t < to)

(* --- teams --- *)
Lines(st) == CASE st = 1 -> 4 [] st = 2 -> 6 [] st = 3 -> 8 [] OTHER -> 10
Deep(st, depth) == IF depth = 0 THEN Lines(st) ELSE Least(Lines(st), depth)
DownTo(x, depth) == BSumSeq(SubSeq(x, 1, depth + 1))
TeamCoins(r, depth) == LET n == Deep(r.st, depth) IN [total |-> DownTo(r.coins, n), deleg |-> DownTo(r.deleg, n)]

(* --- what is asked of a status --- *)
RECURSIVE SmallInt(_)
SmallInt(b) == IF b = <<>> THEN 0 ELSE b[1] + 10000 * SmallInt(Tail(b))
Criteria(ref, a, st) ==
  IF ref[a].gone THEN {[rule |-> 4, target |-> 1, actual |-> 0, x |-> 0]}
  ELSE IF st = 1 THEN {}
  ELSE LET r == Req(st)
           kids == ToSet(ref[a].akids)
           have == BDivS(BDivS(DownTo(ref[a].deleg, r.lines), 1000), 1000)
           teams == Cardinality({k \in kids : ref[k].acnt[2] >= r.with})
           big == Cardinality({k \in kids : SumInts(ref[k].acnt) >= r.big})
       IN {[rule |-> 2, target |-> r.coins, actual |-> IF BLe(BInt(r.coins), have) THEN r.coins ELSE SmallInt(have), x |-> 0],
           [rule |-> 1, target |-> r.teams, actual |-> Least(teams, r.teams), x |-> r.with]}
          \cup (IF r.big > 0 THEN {[rule |-> 3, target |-> 3, actual |-> Least(big, 3), x |-> r.big]} ELSE {})
Entitled(ref, a, st) == \A c \in Criteria(ref, a, st) : c.actual = c.target

(* --- validators --- *)
StateOf(x) == IF x.banned THEN 1 ELSE IF x.jailed THEN 2 ELSE IF ~x.on THEN 0 ELSE IF x.lp = 0 THEN 3 ELSE IF x.lot = 0 THEN 5 ELSE 4
Working(x) == x.on /\ ~x.jailed /\ ~x.banned
Verdict(c, a) ==
  LET s == c.s p == c.par.nod
  IN IF a \in DOMAIN s.nod.v /\ s.nod.v[a].staff THEN [ok |-> TRUE, why |-> 0]
     ELSE IF s.ref[a].st < p.status THEN [ok |-> FALSE, why |-> 1]
     ELSE IF BLt(s.bank.acc[a].d, p.self) THEN [ok |-> FALSE, why |-> 3]
     ELSE IF BLt(DownTo(s.ref[a].deleg, Lines(s.ref[a].st)), p.total) THEN [ok |-> FALSE, why |-> 2]
     ELSE [ok |-> TRUE, why |-> 0]
InQueue(v) == SetToSortSeq({[no |-> v[a].lot, who |-> a] : a \in {x \in DOMAIN v : v[x].lot # 0}}, LAMBDA x, y : x.no < y.no)

(* --- interest that accumulates --- *)
Recent(t, now, day) == t >= 0 /\ t + 2*day > now
FlagsOf(c, a) ==
  LET s == c.s IN
  <<TRUE,
    a \in DOMAIN s.nod.v /\ Working(s.nod.v[a]) /\ c.h - s.nod.v[a].unjail >= 6 * c.par.nod.unjailafter,
    a \in DOMAIN s.prof.p /\ s.prof.p[a].until > c.now,
    a \in DOMAIN s.earn.list /\ Recent(s.earn.list[a].vpn, c.now, c.day),
    a \in DOMAIN s.earn.list /\ Recent(s.earn.list[a].sto, c.now, c.day)>>
Accumulating(c, a) ==
  LET next == c.s.del[a].next
      d == c.s.bank.acc[a].d
      rate == Rate(c.par.del.table, c.par.bank.dust, d, FlagsOf(c, a))
  IN [start |-> next - c.day, end |-> next, rate |-> rate, percent |-> (100 * rate[1]) \div rate[2],
      total |-> Interest(rate, d, c.day, c.day), current |-> Interest(rate, d, c.now - (next - c.day), c.day)]
SameRate(daily, rate) == BMul(BInt(daily[1]), BMul(BInt(30), BInt(rate[2]))) = BMul(BInt(daily[2]), BInt(rate[1]))

(* --- people --- *)
EarnerOf(list, a) == IF a \in DOMAIN list THEN [who |-> a, vpn |-> list[a].vpn, sto |-> list[a].sto] ELSE [who |-> a, vpn |-> NoTime, sto |-> NoTime]
Profile(s, a) == [who |-> a, p |-> Restrict(s.prof.p[a], DOMAIN s.prof.p[a] \ {"num"})]
TheOne(set, s) == IF set = {} THEN Nothing ELSE Just(Profile(s, CHOOSE a \in set : TRUE))
NodeFields == {"on", "lp", "pk", "lpk", "strokes", "ok", "miss", "jailed", "unjail", "prop", "jc", "lot", "score", "inf", "banned", "staff"}

(* --- the services; \* those whose answer is not a plain value have a condition of their own in Right --- *)
Answer(c, q) ==
  LET s == c.s IN
  CASE q.q = "params" -> Just(c.par[q.mod])
    [] q.q = "supply" -> Just(s.bank.supply)
    [] q.q = "balance" -> Just(s.bank.acc[q.a])
    [] q.q = "ref" -> IF q.a \notin DOMAIN s.ref THEN Nothing
                      ELSE Just(IF q.light THEN [s.ref[q.a] EXCEPT !.kids = <<>>, !.akids = <<>>] ELSE s.ref[q.a])
    [] q.q = "coins" -> Just(TeamCoins(s.ref[q.a], q.depth))
    [] q.q = "move" -> Just(q.a \in DOMAIN s.ref /\ s.ref[q.a].tr = NoOne /\ q.to \in DOMAIN s.ref /\ MayMove(s.ref, q.a, q.to, c.now, 30 * c.day))
    [] q.q = "del" -> Just(s.del[q.a])
    [] q.q = "revoking" -> Just(s.del[q.a].req)
    [] q.q = "node" -> IF q.a \in DOMAIN s.nod.v THEN Just(Restrict(s.nod.v[q.a], NodeFields)) ELSE Nothing
    [] q.q = "state" -> Just(IF q.a \in DOMAIN s.nod.v THEN StateOf(s.nod.v[q.a]) ELSE 0)
    [] q.q = "allowed" -> Just(Verdict(c, q.a))
    [] q.q = "operator" -> IF s.nod.idx[q.k].acc = NoOne THEN Nothing ELSE Just(s.nod.idx[q.k].acc)
    [] q.q = "proposer" -> LET who == {a \in DOMAIN s.nod.v : \E i \in DOMAIN s.nod.v[a].blocks : s.nod.v[a].blocks[i] = q.n}
                           IN IF who = {} THEN Nothing ELSE Just(CHOOSE a \in who : TRUE)
    [] q.q = "queue" -> Just(InQueue(s.nod.v))
    [] q.q = "profile" -> IF q.a \in DOMAIN s.prof.p THEN Just(Profile(s, q.a)) ELSE Nothing
    [] q.q = "nick" -> IF q.nick = "" THEN Nothing ELSE TheOne({a \in DOMAIN s.prof.p : s.prof.p[a].nkey = q.nick}, s)
    [] q.q = "card" -> TheOne({a \in DOMAIN s.prof.p : s.prof.p[a].card = q.card}, s)
    [] q.q = "earner" -> Just(EarnerOf(s.earn.list, q.a))
    [] q.q = "gov" -> Just(s.vot.gov)
    [] q.q = "proposal" -> Just(IF s.vot.cur = <<>> THEN [cur |-> <<>>, gov |-> <<>>, agreed |-> <<>>, disagreed |-> <<>>]
                                ELSE [cur |-> s.vot.cur, gov |-> s.vot.gov, agreed |-> s.vot.agreed, disagreed |-> s.vot.disagreed])
    [] q.q = "history" -> Just(Page(s.vot.hist, q.limit, q.page))
    [] q.q = "poll" -> IF s.vot.poll = <<>> THEN Nothing ELSE Just([poll |-> s.vot.poll[1], yes |-> s.vot.yes, no |-> s.vot.no])
    [] q.q = "polls" -> Just(Page(s.vot.polls, q.limit, q.page))
    [] q.q = "tasks" -> Just(IF "since" \in DOMAIN q THEN Window(s.tasks, q.since, q.to) ELSE s.tasks)
Once(list) == Cardinality(ToSet(list)) = Len(list)
Right(c, q) ==
  LET s == c.s found == q.err = "" IN
  CASE q.q = "check" -> /\ found
                        /\ q.ans.all = Entitled(s.ref, q.a, q.st)
                        /\ {[rule |-> x.rule, target |-> x.target, actual |-> x.actual, x |-> x.x] : x \in ToSet(q.ans.crit)} = Criteria(s.ref, q.a, q.st)
                        /\ \A i \in DOMAIN q.ans.crit : q.ans.crit[i].met = (q.ans.crit[i].actual = q.ans.crit[i].target)
    [] q.q = "status" -> found /\ Once(q.ans) /\ ToSet(q.ans) = {a \in DOMAIN s.ref : ~s.ref[a].gone /\ s.ref[a].st = q.st}
    [] q.q = "switched" -> found /\ Once(q.ans) /\ ToSet(q.ans) = {a \in DOMAIN s.nod.v : Working(s.nod.v[a])}
    [] q.q = "earners" -> found /\ IF "of" \in DOMAIN q THEN q.ans = [i \in DOMAIN q.of |-> EarnerOf(s.earn.list, q.of[i])]
                          ELSE Once(q.ans) /\ ToSet(q.ans) = {EarnerOf(s.earn.list, a) : a \in DOMAIN s.earn.list}
    [] q.q = "accum" -> IF s.del[q.a].next = None THEN ~found
                        ELSE LET w == Accumulating(c, q.a) IN
                             /\ found /\ SameRate(q.ans.daily, w.rate)
                             /\ \A f \in {"start", "end", "percent", "total", "current"} : q.ans[f] = w[f]
    [] OTHER -> LET w == Answer(c, q) IN IF w.err THEN ~found ELSE found /\ q.ans = w.ans
\* questions about the time of the last block cannot be judged while no block has been committed since a start of the node
OnTime == {"move", "accum"}
\* questions about somebody that is not known to the module have no defined answer
Defined(c, q) ==
  LET s == c.s IN
  CASE q.q \in {"coins", "check", "allowed"} -> q.a \in DOMAIN s.ref /\ ~(q.q \in {"coins", "allowed"} /\ s.ref[q.a].gone)
    [] q.q = "accum" -> q.a \in DOMAIN s.del /\ q.a \in DOMAIN s.prof.p /\ ~s.del[q.a].missed
    [] q.q \in {"del", "revoking"} -> q.a \in DOMAIN s.del
    [] q.q = "balance" -> q.a \in DOMAIN s.bank.acc
    [] q.q = "ref" -> q.a \in DOMAIN s.ref
    [] OTHER -> TRUE
=============================================================================
