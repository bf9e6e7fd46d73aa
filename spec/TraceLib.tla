------------------------------ MODULE TraceLib ------------------------------
(* Common part of the specifications that validate recorded histories of the real application. A history is a sequence *)
(* of events; each carries what was done and the state of the application afterwards. `par` are the parameters in force *)
(* before the event, `mem` is whatever a specification has to remember.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLES l, bad, par, mem
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
KnownTags == ToSet(JsonDeserialize(IOEnv.KNOWN))
tvars == <<l, bad, par, mem>>
E == Trace[l]                 \* the event
S == E.s                      \* the state after it
P == Trace[l-1].s             \* the state before it
Field(r, f) == f \in DOMAIN r
NewPar == IF Field(E, "par") THEN E.par ELSE par
Say(ok, why) == IF ok THEN "" ELSE why
RECURSIVE FirstBad(_)
FirstBad(s) == IF s = <<>> THEN "" ELSE IF Head(s) # "" THEN Head(s) ELSE FirstBad(Tail(s))
\* a failure that is listed as a known finding
Listed(tag, ok, why) == IF ok THEN "" ELSE IF tag \in KnownTags THEN (IF PrintT("KNOWN-TAG " \o tag) THEN "" ELSE "") ELSE why
\* the first complaint about an element of a set
FirstOver(set, Op(_)) == LET b == {x \in set : Op(x) # ""} IN IF b = {} THEN "" ELSE LET x == CHOOSE x \in b : TRUE IN ToString(x) \o ": " \o Op(x)
\* a transaction that was delivered in a block and succeeded
Done == E.op = "tx" /\ E.mode = "" /\ E.ok
\* names of the fields in which two records with the same fields differ
Diff(a, b) == {f \in DOMAIN a \cup DOMAIN b : f \notin DOMAIN a \/ f \notin DOMAIN b \/ a[f] # b[f]}
Same(a, b) == a = b
\* events without a state: the application died, or an import failed; other properties judge that
Blind == "s" \notin DOMAIN E /\ E.op \in {"halt", "reimport", "agree"}
TInit(m) == l = 1 /\ bad = "" /\ par = <<>> /\ mem = m
TNext(step, m) == /\ l <= Len(Trace) /\ bad = ""
                  /\ IF Blind THEN bad' = "" /\ mem' = mem ELSE bad' = step /\ mem' = m
                  /\ par' = NewPar
                  /\ l' = l + 1
Accepted == bad = ""
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
