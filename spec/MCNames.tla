------------------------------ MODULE MCNames ------------------------------
EXTENDS Integers, FiniteSets, TLC
VARIABLES nick, idx
CONSTANT Accs
K(s) == CASE s \in {"bob", "Bob", " bob "} -> "bob" [] s \in {"eve", "EVE "} -> "eve" [] s \in {"", " "} -> "" [] OTHER -> s
INSTANCE MCName WITH Spellings <- {"bob", "Bob", " bob ", "eve", "EVE ", "", " ", "x"}, Key <- K, None <- "none"
=============================================================================
