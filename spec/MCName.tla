------------------------------- MODULE MCName -------------------------------
(* Nicknames: the lookup index, kept by increments with every renaming and registration, is always the inverse of what the   *)
(* profiles say. Spellings that differ in case and surrounding spaces only are one nickname (Key).                            *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Accs, Spellings, Key(_), None
VARIABLES nick, idx
vars == <<nick, idx>>
Blank == ""
Init == nick = [a \in {} |-> Blank] /\ idx = [k \in {} |-> None]
Leads(k) == IF k \in DOMAIN idx THEN idx[k] ELSE None
Without(i, k) == [x \in DOMAIN i \ {k} |-> i[x]]
With(i, k, a) == [x \in DOMAIN i \cup {k} |-> IF x = k THEN a ELSE i[x]]
May(a, s) == Key(s) = Blank \/ Leads(Key(s)) \in {None, a}
Index(i, old, new, a) == LET j == IF Key(old) = Blank THEN i ELSE Without(i, Key(old)) IN IF Key(new) = Blank THEN j ELSE With(j, Key(new), a)
Register(a, s) == a \notin DOMAIN nick /\ May(a, s) /\ nick' = [b \in DOMAIN nick \cup {a} |-> IF b = a THEN s ELSE nick[b]] /\ idx' = Index(idx, Blank, s, a)
Rename(a, s) == a \in DOMAIN nick /\ s # nick[a] /\ May(a, s) /\ nick' = [nick EXCEPT ![a] = s] /\ idx' = Index(idx, nick[a], s, a)
Next == \E a \in Accs, s \in Spellings : Register(a, s) \/ Rename(a, s)
Spec == Init /\ [][Next]_vars
Unique == \A a, b \in DOMAIN nick : Key(nick[a]) # Blank /\ Key(nick[a]) = Key(nick[b]) => a = b
Inverse == \A k \in {Key(s) : s \in Spellings} \ {Blank} : LET h == {a \in DOMAIN nick : Key(nick[a]) = k} IN IF h = {} THEN Leads(k) = None ELSE h = {Leads(k)}
=============================================================================
