----------------------------- MODULE TraceBank -----------------------------
(* Validates recorded histories of the real application against Bank. Decides C01 (conservation), C02 (transfers) and  *)
(* C03 (fee distribution); PROP selects which.                                                                          *)
EXTENDS Bank, TLC, Json, IOUtils, SequencesExt
VARIABLES l, bad, par
Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP
tvars == <<l, bad, par>>
E == Trace[l]
B == E.s.bank
B0 == Trace[l-1].s.bank
Init == l = 1 /\ bad = "" /\ par = <<>>

Say(ok, why) == IF ok THEN "" ELSE why
RECURSIVE FirstBad(_)
FirstBad(s) == IF s = <<>> THEN "" ELSE IF Head(s) # "" THEN Head(s) ELSE FirstBad(Tail(s))

(* --- outcomes of a transaction made of transfers and burnings only --- *)
Simple == \A i \in DOMAIN E.msgs : E.msgs[i].m \in {"send", "burn"}
MsgOk(acc, m) == IF m.m = "send" THEN Sendable(par.bank, acc, ToSet(B0.exist), m) ELSE Burnable(acc, m)
MsgDo(acc, m) == IF m.m = "send" THEN Sent(par.bank, acc, m) ELSE Burnt(acc, m)
RECURSIVE Fold(_, _)
Fold(acc, i) == IF i > Len(E.msgs) THEN [ok |-> TRUE, acc |-> acc]
                ELSE IF MsgOk(acc, E.msgs[i]) THEN Fold(MsgDo(acc, E.msgs[i]), i+1) ELSE [ok |-> FALSE, acc |-> acc]
Acc0 == B0.acc
AnteAcc == IF E.ante THEN Move(Acc0, E.by, FeePool, "m", E.fee) ELSE Acc0
TxExpected ==
  IF E.mode # "" THEN Say(B.acc = Acc0 /\ B.supply = B0.supply, "a transaction that was only checked or simulated moved coins")
  ELSE LET f == Fold(AnteAcc, 1) IN
    FirstBad(<<
      Say(E.ante => E.sig /\ Has(Acc0, E.by, "m", E.fee), "fee taken that was not authorized or not affordable"),
      Say(E.ok => E.ante, "transaction succeeded without authentication"),
      Say(E.ok => f.ok, "refusable transfer succeeded"),
      Say(E.gas = 0 /\ E.sig /\ E.ante /\ f.ok => E.ok, "proper transfer refused: " \o E.err),
      Say(E.gas = 0 /\ E.sig /\ E.by \in ToSet(B0.exist) /\ Has(Acc0, E.by, "m", E.fee) /\ f.ok => E.ante, "proper transfer not admitted: " \o E.err),
      Say(B.acc = (IF E.ok THEN f.acc ELSE AnteAcc), "wrong balances after a transfer, expected " \o ToString([a \in {x \in DOMAIN B.acc : B.acc[x] # (IF E.ok THEN f.acc ELSE AnteAcc)[x]} |-> (IF E.ok THEN f.acc ELSE AnteAcc)[a]]))
    >>)

(* --- C01: how the supply may change --- *)
Ms(k) == SelectSeq(E.msgs, LAMBDA m : m.m = k)
SumOver(s, F(_)) == FoldLeft(LAMBDA x, m : BAdd(x, F(m)), BZero, s)
Net(m) == BSub(m.amt, FeeOf(par.bank, m.amt))
Amt(m) == m.amt
Share(which, m) == BFrac(par.del[which].burn, m.amt)
Same(f) == B.supply[f] = B0.supply[f]
SupplyTx ==
  IF ~E.ok \/ E.mode # "" THEN Say(B.supply = B0.supply, "supply changed by a failed, checked or simulated transaction")
  ELSE LET dIn == SumOver(Ms("delegate"), Net)
           burnt == SumOver(Ms("burn"), Amt)
           dOut == BAdd(SumOver(Ms("revoke"), Amt), SumOver(Ms("xrevoke"), Amt))
           share == BAdd(SumOver(Ms("revoke"), LAMBDA m : Share("rev", m)), SumOver(Ms("xrevoke"), LAMBDA m : Share("xrev", m)))
           may == \E i \in DOMAIN E.msgs : E.msgs[i].m \in {"delegate", "revoke", "xrevoke"}
       IN FirstBad(<<
         Say(B.supply.d = BSub(BAdd(B0.supply.d, dIn), dOut), "wrong supply of delegated coins"),
         Say(B.supply.r = BAdd(B0.supply.r, BSub(dOut, share)), "wrong supply of revoking coins"),
         Say(LET e == BSub(BSub(B0.supply.m, burnt), dIn) IN IF may THEN BLe(e, B.supply.m) ELSE B.supply.m = e, "wrong supply of main coins")
       >>)
SupplyTask ==
  CASE E.hook = "delegating/accrue" -> Say(Same("d") /\ Same("r") /\ BLe(B0.supply.m, B.supply.m), "accrual changed the supply wrongly")
    [] E.hook = "delegating/revoke" ->
         Say(Same("d") /\ BLe(B.supply.r, B0.supply.r) /\ B.supply.m = BAdd(B0.supply.m, BSub(B0.supply.r, B.supply.r)), "paying back a revocation changed the supply wrongly")
    [] E.hook = "referral/banish" ->
         Say(LET out == BSub(B0.supply.d, B.supply.d) IN
             BLe(B.supply.d, B0.supply.d) /\ B.supply.r = BAdd(B0.supply.r, BSub(out, BFrac(par.del.rev.burn, out))) /\ BLe(B0.supply.m, B.supply.m), "banishment changed the supply wrongly")
    [] OTHER -> Say(B.supply = B0.supply, "task " \o E.hook \o " changed the supply")
C01Step ==
  FirstBad(<<
    Say(NonNegative(B.acc), "negative balance"),
    Say(B.unknown = 0, "coins on an unknown account"),
    Say(\A a \in DOMAIN B.acc : DOMAIN B.acc[a] = {"m", "d", "r"}, "unknown denomination"),
    Say(Conserved(B.acc, B.supply), "supply is not the sum of balances"),
    CASE E.op = "reset" -> ""
      [] E.op = "tx" -> SupplyTx
      [] E.op = "task" -> SupplyTask
      [] E.op = "begin" -> Say(Same("d") /\ Same("r") /\ BLe(B.supply.m, B0.supply.m) /\ BLe(BSub(B0.supply.m, B.supply.m), Acc0[SplitPool].m), "block start changed the supply wrongly")
      [] OTHER -> Say(B.supply = B0.supply, E.op \o " changed the supply")
  >>)

(* --- C03 --- *)
Known(k) == k \in DOMAIN Trace[l-1].s.idx
C03Step ==
  CASE E.op = "begin" ->
         LET p == IF Known(E.prop) THEN Trace[l-1].s.idx[E.prop] ELSE "none"
             x == PaidOut(par.bank, Acc0, p)
         IN FirstBad(<<
              Say(B.acc = x, "fees wrongly distributed to proposer " \o p \o ", expected " \o ToString([a \in {y \in DOMAIN x : x[y] # B.acc[y]} |-> x[a]])),
              Say(Sum(x, "m") = B.supply.m, "fees to burn were not burnt exactly")
            >>)
    [] E.op = "tx" -> Say(\A p \in {FeePool, SplitPool} : BLe(Acc0[p].m, B.acc[p].m), "fee pool tapped")
    [] E.op = "task" -> Say(\A p \in {FeePool, SplitPool} : BLe(Acc0[p].m, B.acc[p].m), "fee pool tapped")
    [] E.op = "reset" -> ""
    [] OTHER -> Say(B.acc = Acc0, E.op \o " moved coins")

C02Step ==
  CASE E.op = "tx" /\ Simple -> TxExpected
    [] OTHER -> ""

(* A history ends with a failed import (C22 judges that); such an event carries no state. *)
Step ==
  CASE E.op = "halt" \/ "s" \notin DOMAIN E -> ""
    [] Prop = "C01" -> C01Step
    [] Prop = "C02" -> C02Step
    [] Prop = "C03" -> C03Step

Next == /\ l <= Len(Trace) /\ bad = ""
        /\ bad' = Step
        /\ par' = (IF "par" \in DOMAIN E THEN E.par ELSE par)
        /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
Accepted == bad = ""
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
