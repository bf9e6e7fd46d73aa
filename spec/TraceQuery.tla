----------------------------- MODULE TraceQuery -----------------------------
(* C26 on recorded histories: every answer of the query services is that of the last committed state (or of the one       *)
(* before, when the question is about that), and asking changes nothing. mem: where in the history the last blocks were    *)
(* committed, newest first, with the parameters; whether the time of the last block is known to the node; the day.        *)
EXTENDS TraceLib, Query
Init == TInit([c |-> <<>>, t |-> TRUE, day |-> 86400])
Ctx(back) == LET c == mem.c[back + 1] IN [s |-> Trace[c.i].s, par |-> c.par, now |-> mem.c[1].now, h |-> mem.c[1].h, day |-> mem.day]
Judged(q) == q.back + 1 <= Len(mem.c) /\ (q.q \in OnTime => mem.t) /\ Defined(Ctx(q.back), q)
Wrong(q) ==
  IF ~Judged(q) \/ Right(Ctx(q.back), q) THEN ""
  ELSE "asked " \o ToString([f \in DOMAIN q \ {"ans", "err", "back"} |-> q[f]]) \o (IF q.back > 0 THEN " about an earlier block" ELSE "")
       \o ", answered " \o (IF q.err # "" THEN q.err ELSE ToString(q.ans))
       \o (IF q.q \in {"check", "status", "switched", "earners", "accum"} THEN "" ELSE " instead of " \o ToString(Answer(Ctx(q.back), q)))
RECURSIVE Each(_)
Each(qs) == IF qs = <<>> THEN "" ELSE IF Wrong(Head(qs)) # "" THEN Wrong(Head(qs)) ELSE Each(Tail(qs))
Step == IF E.op # "ask" THEN ""
        ELSE FirstBad(<<Say(S = P, "asking changed " \o ToString(Diff(S, P))),
                        Each(E.qs) >>)
Mem == CASE E.op = "reset" -> [c |-> <<>>, t |-> TRUE, day |-> E.day]
         [] E.op = "end" -> [mem EXCEPT !.c = SubSeq(<<[i |-> l, par |-> NewPar, now |-> E.now, h |-> E.h]>> \o @, 1, Least(3, Len(@) + 1)), !.t = TRUE]
         [] E.op = "restart" -> [mem EXCEPT !.t = FALSE]
         [] E.op = "reimport" -> [mem EXCEPT !.c = <<>>, !.t = FALSE]
         [] OTHER -> mem
Next == TNext(Step, Mem)
Spec == Init /\ [][Next]_tvars
=============================================================================
