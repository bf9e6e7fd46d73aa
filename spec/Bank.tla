-------------------------------- MODULE Bank --------------------------------
(* Coins: main ("m", uartr), delegated ("d", uartrd) and revoking ("r", uartrr). State: acc, a function from holders  *)
(* (users, company accounts and the two fee pools) to [m, d, r], each a Big natural. The operators compute outcomes;   *)
(* MCBank explores all their interleavings for small amounts, TraceBank compares them with what the real code did.     *)
EXTENDS Big, FiniteSets, Functions
Sum(acc, f) == FoldFunction(LAMBDA x, s : BAdd(x[f], s), BZero, acc)
Total(acc) == [m |-> Sum(acc, "m"), d |-> Sum(acc, "d"), r |-> Sum(acc, "r")]
Coin(x) == [m |-> x.m, d |-> x.d, r |-> x.r]
NonNegative(acc) == \A a \in DOMAIN acc : IsNat(acc[a].m) /\ IsNat(acc[a].d) /\ IsNat(acc[a].r)
Conserved(acc, supply) == Total(acc) = Coin(supply)

FeePool == "m_fee"          \* declared transaction fees
SplitPool == "m_split"      \* transfer fees, to be split

Add(acc, a, f, x) == [acc EXCEPT ![a][f] = BAdd(@, x)]
Sub(acc, a, f, x) == [acc EXCEPT ![a][f] = BSub(@, x)]
Move(acc, a, b, f, x) == Add(Sub(acc, a, f, x), b, f, x)
Has(acc, a, f, x) == BLe(x, acc[a][f])

(* The published transfer fee: a fraction of the amount, at most maxfee unless that is zero, cut so that it splits evenly. *)
Shares(par) == Lcm(par.prop[2], par.comp[2])
Cut(fee, k) == BSub(fee, BInt(BModS(fee, k)))
FeeOf(par, amt) ==
  LET raw == BFrac(par.fee, amt)
      capped == IF par.maxfee # BZero THEN BMin(raw, par.maxfee) ELSE raw
  IN Cut(capped, Shares(par))

(* Sending: msg = [by, to, coins : sequence of [d, a]]. *)
Sendable(par, acc, exist, msg) ==
  /\ msg.to \in exist
  /\ \A i \in DOMAIN msg.coins : msg.coins[i].d = "uartr"
  /\ Len(msg.coins) = 1 /\ BLe(par.minsend, msg.coins[1].a) /\ msg.coins[1].a # BZero
  /\ \A i \in DOMAIN par.blocked : par.blocked[i] # msg.by
  /\ Has(acc, msg.by, "m", BAdd(msg.coins[1].a, FeeOf(par, msg.coins[1].a)))
Sent(par, acc, msg) ==
  LET x == msg.coins[1].a IN Move(Move(acc, msg.by, SplitPool, "m", FeeOf(par, x)), msg.by, msg.to, "m", x)

Burnable(acc, msg) == msg.amt # BZero /\ Has(acc, msg.by, "m", msg.amt)
Burnt(acc, msg) == Sub(acc, msg.by, "m", msg.amt)

(* A block starts: the pools are paid out. prop = "none" when the proposer is not a known validator. *)
PaidOut(par, acc, prop) ==
  IF prop = "none" THEN acc
  ELSE LET pool == acc[SplitPool].m
           forp == BFrac(par.prop, pool)
           forc == BFrac(par.comp, pool)
           a1 == Move(acc, FeePool, prop, "m", acc[FeePool].m)
           a2 == Move(a1, SplitPool, prop, "m", forp)
           a3 == Move(a2, SplitPool, par.company, "m", forc)
       IN Sub(a3, SplitPool, "m", BSub(BSub(pool, forp), forc))

(* Delegating and revoking, as far as coins are concerned. *)
BurnShare(par, amt) == BFrac(par.burn, amt)
Delegated(par, acc, a, amt) ==
  LET fee == FeeOf(par, amt)  x == BSub(amt, fee)
  IN Add(Sub(Move(acc, a, SplitPool, "m", fee), a, "m", x), a, "d", x)
Frozen(acc, a, amt, share) == Add(Sub(acc, a, "d", amt), a, "r", BSub(amt, share))
Returned(acc, a, x) == Add(Sub(acc, a, "r", x), a, "m", x)
=============================================================================
