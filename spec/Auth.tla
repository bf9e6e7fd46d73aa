-------------------------------- MODULE Auth --------------------------------
(* Who is entitled to what. Rights is a record of sets of accounts: ratesig, stosig, vpnsig, signers (of earning reports),   *)
(* creators (free of charge), blocked (not to send), gov (the government), staff.                                            *)
EXTENDS Vote
Kinds == {"ratesig", "stosig", "vpnsig", "signers", "creators", "blocked", "gov", "staff"}
\* which right a message takes; "own" is not a matter of lists
Needs(m) == CASE m = "rate" -> "ratesig" [] m = "stocur" -> "stosig" [] m = "vpncur" -> "vpnsig" [] m = "earn" -> "signers"
              [] m \in {"propose", "vote", "poll"} -> "gov" [] OTHER -> "own"
Adds(t) == CASE t = "TOKEN_RATE_SIGNER_ADD" -> "ratesig" [] t = "STORAGE_SIGNER_ADD" -> "stosig" [] t = "VPN_SIGNER_ADD" -> "vpnsig"
             [] t = "EARNING_SIGNER_ADD" -> "signers" [] t = "FREE_CREATOR_ADD" -> "creators" [] t = "BLOCKED_SENDER_ADD" -> "blocked"
             [] t = "GOVERNMENT_ADD" -> "gov" [] t = "STAFF_VALIDATOR_ADD" -> "staff" [] OTHER -> "none"
Takes(t) == CASE t = "TOKEN_RATE_SIGNER_REMOVE" -> "ratesig" [] t = "STORAGE_SIGNER_REMOVE" -> "stosig" [] t = "VPN_SIGNER_REMOVE" -> "vpnsig"
              [] t = "EARNING_SIGNER_REMOVE" -> "signers" [] t = "FREE_CREATOR_REMOVE" -> "creators" [] t = "BLOCKED_SENDER_REMOVE" -> "blocked"
              [] t = "GOVERNMENT_REMOVE" -> "gov" [] t = "STAFF_VALIDATOR_REMOVE" -> "staff" [] OTHER -> "none"
Entitled(r, m, by) == Needs(m) = "own" \/ by \in r[Needs(m)]
\* a finished vote that passed: everybody in the government at its end voted, two thirds of them for it
Passing(h) == h.yea \cup h.nay = h.gov /\ 3 * Cardinality(h.yea) >= 2 * Cardinality(h.gov)
\* the accounts that the votes hs (with what they were about) may add to, or take from, a list
Added(hs, k) == {h.v : h \in {x \in hs : Passing(x) /\ Adds(x.type) = k}}
Taken(hs, k) == {h.v : h \in {x \in hs : Passing(x) /\ Takes(x.type) = k}}
Lawful(r0, r1, hs, k) == r1[k] \ r0[k] \subseteq Added(hs, k) /\ r0[k] \ r1[k] \subseteq Taken(hs, k)
=============================================================================
