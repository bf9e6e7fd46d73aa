-------------------------------- MODULE Node --------------------------------
(* A node of the network: what it has committed, what it is working on, and what a transaction makes of the state.          *)
(* A state is a record of stores; "paid" (fees and sequence numbers) is one of them. A transaction has a fee, some           *)
(* messages and a limit of gas (one unit a write); a message is a sequence of writes, after which it may fail.              *)
EXTENDS Integers, Sequences, FiniteSets
\* ---- transactions
Payable(st, tx) == st.money >= tx.fee /\ ~tx.forged
Paid(st, tx) == [st EXCEPT !.money = @ - tx.fee, !.seq = @ + 1]
Write(st, w) == [st EXCEPT ![w] = Append(@, st.seq)]
\* one message on a branch of the state: <<branch, gas left, fine>>
RECURSIVE Writes(_, _, _)
Writes(st, ws, gas) == IF ws = <<>> THEN <<st, gas, TRUE>> ELSE IF gas = 0 THEN <<st, 0, FALSE>> ELSE Writes(Write(st, Head(ws)), Tail(ws), gas - 1)
RECURSIVE Messages(_, _, _)
Messages(st, ms, gas) == IF ms = <<>> THEN <<st, gas, TRUE>> ELSE
  LET x == Writes(st, Head(ms).writes, gas) IN IF ~x[3] \/ Head(ms).fails THEN <<x[1], x[2], FALSE>> ELSE Messages(x[1], Tail(ms), x[2])
Refused(st, tx) == ~Payable(st, tx)
Fine(st, tx) == Messages(Paid(st, tx), tx.msgs, tx.gas)[3]
\* what delivering it leads to: the branch is kept only if everything went well
Deliver(st, tx) == IF Refused(st, tx) THEN st ELSE IF Fine(st, tx) THEN Messages(Paid(st, tx), tx.msgs, tx.gas)[1] ELSE Paid(st, tx)
\* what it may lead to at most: nothing, its price, or all of it
RECURSIVE Together(_, _)
Together(st, ws) == IF ws = <<>> THEN st ELSE Together(Write(st, Head(ws)), Tail(ws))
RECURSIVE Flat(_)
Flat(ms) == IF ms = <<>> THEN <<>> ELSE Head(ms).writes \o Flat(Tail(ms))
Outcomes(st, tx) == {st, Paid(st, tx), Together(Paid(st, tx), Flat(tx.msgs))}
\* ---- nodes: disk is what was committed, work is the state of the block being built (a copy), probe what checking goes on
RECURSIVE Run(_, _)
Run(st, txs) == IF txs = <<>> THEN st ELSE Run(Deliver(st, Head(txs)), Tail(txs))
Open(disk) == [phase |-> "idle", done |-> 0, work |-> disk.st, probe |-> disk.st]
=============================================================================
