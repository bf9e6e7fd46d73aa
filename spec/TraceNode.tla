----------------------------- MODULE TraceNode ------------------------------
(* C23 and C24 on recorded histories: several nodes given the same blocks, and what each transaction leaves behind.           *)
(* mem: the last block that everybody has committed, and its state hash.                                                     *)
EXTENDS TraceLib, Big
Nothing == [h |-> 0, hash |-> ""]
Init == TInit(Nothing)
\* ---- C23
Main == E.nodes[1]
Opened(n, o) == IF o.when = "after" THEN Say(o.height = E.height /\ o.hash = n.hash, n.n \o " forgot the block it had just committed")
                ELSE Say(mem.h = 0 \/ (o.height = mem.h /\ o.hash = mem.hash), n.n \o " was opened with another state than it had committed")
OpenedAll(n) == FirstOver(DOMAIN n.opens, LAMBDA i : Opened(n, n.opens[i]))
FirstDiff(a, b) == IF Len(a) # Len(b) THEN "number of answers" ELSE LET d == {i \in DOMAIN a : a[i] # b[i]} IN IF d = {} THEN "" ELSE LET i == CHOOSE i \in d : TRUE IN a[i] \o " / " \o b[i]
Agree == FirstOver({i \in DOMAIN E.nodes : i > 1}, LAMBDA i : LET n == E.nodes[i] IN FirstBad(<<
    Say(n.ans = Main.ans, n.n \o " answered differently: " \o FirstDiff(Main.ans, n.ans)),
    Say(n.stores = Main.stores, n.n \o " has another state"),
    Say(n.hash = Main.hash, n.n \o " has another state hash") >>))
C23 == CASE E.op = "agree" -> FirstBad(<<Agree, FirstOver(DOMAIN E.nodes, LAMBDA i : OpenedAll(E.nodes[i]))>>)
         [] E.op = "restart" -> Say(E.same /\ E.err = "", "came back with another state")
         [] E.op = "reimport" /\ Field(E, "nodes") -> FirstOver({i \in DOMAIN E.nodes : i > 1}, LAMBDA i :
              Say([E.nodes[i] EXCEPT !.n = ""] = [Main EXCEPT !.n = ""], "nodes export or import differently"))
         [] OTHER -> ""
Mem == CASE E.op = "agree" -> [h |-> E.height, hash |-> Main.hash]
         [] E.op \in {"reset", "reimport"} -> Nothing
         [] OTHER -> mem
\* ---- C24
FeePool == "m_fee"
Fee == E.fee
Price == LET b0 == P.bank.acc b1 == S.bank.acc IN FirstBad(<<
  Say(S.auth[E.by] = P.auth[E.by] + 1, "sequence number of the signer"),
  FirstOver(DOMAIN b0 \cup DOMAIN b1, LAMBDA a : LET was == IF a \in DOMAIN b0 THEN b0[a].m ELSE BZero now == IF a \in DOMAIN b1 THEN b1[a].m ELSE BZero IN
    IF a = E.by THEN Say(BAdd(now, Fee) = was, "paid another fee than declared")
    ELSE IF a = FeePool THEN Say(now = BAdd(was, Fee), "another fee than declared was collected")
    ELSE Say(now = was, "has other money after a transaction that failed")) >>)
Tx == IF E.mode # "" THEN Say(S.stores = E.stores0, "only looking at a transaction changed " \o ToString(Diff(S.stores, E.stores0)))
      ELSE IF E.ok THEN FirstBad(<<
        Say(E.paid, "succeeded although it is not authentic"),
        IF Len(E.msgs) > 1 THEN Say(S.stores = E.storesM, "the messages did not take effect one after the other, but " \o ToString(Diff(S.stores, E.storesM))) ELSE "" >>)
      ELSE IF ~E.paid THEN Say(S.stores = E.stores0, "refused, but changed " \o ToString(Diff(S.stores, E.stores0)))
      ELSE FirstBad(<<
        Say(S.stores = E.storesA, "failed, but changed " \o ToString(Diff(S.stores, E.storesA))),
        Say(E.ante, "failed without using up its sequence number"),
        IF Len(E.msgs) > 1 /\ E.gas = 0 THEN Say(DOMAIN E.storesM = {}, "failed although each message is fine") ELSE "",
        Price >>)
C24 == IF E.op = "tx" THEN Tx ELSE ""
Step == CASE Prop = "C23" -> C23 [] Prop = "C24" -> C24
Next == TNext(Step, Mem)
Spec == Init /\ [][Next]_tvars
=============================================================================
