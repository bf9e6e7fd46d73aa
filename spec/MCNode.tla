------------------------------- MODULE MCNode -------------------------------
(* All histories of few nodes that are given the same blocks of few transactions, each at its own pace, checking and          *)
(* simulating transactions and losing everything not committed at any moment.                                                *)
EXTENDS Node, TLC
CONSTANTS Nodes, MaxHeight, MaxTxs
VARIABLES chain, disk, node
vars == <<chain, disk, node>>
Msgs == {[writes |-> <<"a">>, fails |-> FALSE], [writes |-> <<"a", "b">>, fails |-> TRUE], [writes |-> <<"b", "a">>, fails |-> FALSE]}
Txs == {[fee |-> 1, forged |-> g, gas |-> 2, msgs |-> ms] : g \in BOOLEAN, ms \in {<<m>> : m \in Msgs} \cup {<<m, n>> : m \in Msgs, n \in Msgs}}
Genesis == [money |-> 2, seq |-> 0, a |-> <<>>, b |-> <<>>]
Init == /\ chain = <<>> /\ disk = [n \in Nodes |-> [h |-> 0, st |-> Genesis]] /\ node = [n \in Nodes |-> Open(disk[n])]
\* the network decides on another block
Decide == Len(chain) < MaxHeight /\ (\E k \in 0..MaxTxs : \E b \in [1..k -> Txs] : chain' = Append(chain, b)) /\ UNCHANGED <<disk, node>>
Block(n) == chain[disk[n].h + 1]
Begin(n) == node[n].phase = "idle" /\ disk[n].h < Len(chain) /\ node' = [node EXCEPT ![n].phase = "in", ![n].work = disk[n].st, ![n].done = 0] /\ UNCHANGED <<chain, disk>>
Next1(n) == /\ node[n].phase = "in" /\ node[n].done < Len(Block(n))
            /\ node' = [node EXCEPT ![n].work = Deliver(@, Block(n)[node[n].done + 1]), ![n].done = @ + 1] /\ UNCHANGED <<chain, disk>>
Commit(n) == /\ node[n].phase = "in" /\ node[n].done = Len(Block(n))
             /\ disk' = [disk EXCEPT ![n] = [h |-> @.h + 1, st |-> node[n].work]] /\ node' = [node EXCEPT ![n] = Open(disk'[n])] /\ UNCHANGED chain
Stop(n) == node[n] # Open(disk[n]) /\ node' = [node EXCEPT ![n] = Open(disk[n])] /\ UNCHANGED <<chain, disk>>
\* checking takes the fee from the probe; simulating touches nothing
Check(n, tx) == Payable(node[n].probe, tx) /\ node' = [node EXCEPT ![n].probe = Paid(@, tx)] /\ UNCHANGED <<chain, disk>>
Next == Decide \/ \E n \in Nodes : Begin(n) \/ Next1(n) \/ Commit(n) \/ Stop(n)
                                   \/ Check(n, [fee |-> 1, forged |-> FALSE, gas |-> 2, msgs |-> <<>>])
Spec == Init /\ [][Next]_vars
Agree == \A n, m \in Nodes : disk[n].h = disk[m].h => disk[n].st = disk[m].st
RECURSIVE Upto(_)
Upto(h) == IF h = 0 THEN Genesis ELSE Run(Upto(h - 1), chain[h])
Lawful == \A n \in Nodes : disk[n].st = Upto(disk[n].h)
Atomic == [][\A n \in Nodes : node'[n].done = node[n].done + 1 => node'[n].work \in Outcomes(node[n].work, Block(n)[node'[n].done])]_vars
\* what is being checked or lost never touches what was committed or is being built
Apart == [][\A n \in Nodes : node'[n].probe # node[n].probe /\ disk'[n].h = disk[n].h => disk'[n].st = disk[n].st /\ node'[n].work \in {node[n].work, disk[n].st}]_vars
=============================================================================
