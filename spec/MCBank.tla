------------------------------- MODULE MCBank -------------------------------
(* All histories of transfers, burning, delegating, revoking, paying back, accruals and blocks for small amounts. *)
EXTENDS Bank, TLC
CONSTANTS Users, MaxAmt, MaxMinted, Deep
Fees == IF Deep THEN {<<1,2>>, <<1,3>>, <<0,1>>} ELSE {<<1,2>>}
Splits == {<< <<1,2>>, <<1,4>> >>, << <<1,1>>, <<0,1>> >>} \cup (IF Deep THEN {<< <<1,3>>, <<1,2>> >>, << <<0,1>>, <<0,1>> >>} ELSE {})
VARIABLES acc, supply, par, pend, minted, last
vars == <<acc, supply, par, pend, minted, last>>
Holders == Users \cup {"co", FeePool, SplitPool}
Zero == [m |-> BZero, d |-> BZero, r |-> BZero]
Amts == {BInt(i) : i \in 1..MaxAmt}
Init ==
  /\ acc = [a \in Holders |-> IF a \in Users THEN [Zero EXCEPT !.m = BInt(MaxAmt)] ELSE Zero]
  /\ supply = Total(acc)
  /\ \E f \in Fees, s \in Splits, mx \in {0, 2} : par = [fee |-> f, prop |-> s[1], comp |-> s[2], maxfee |-> BInt(mx), minsend |-> BInt(2), blocked |-> <<>>,
        company |-> "co", burn |-> <<1, 2>>]
  /\ pend = {} /\ minted = 0 /\ last = "init"
Send(a, b, x) ==
  LET m == [by |-> a, to |-> b, coins |-> <<[d |-> "uartr", a |-> x]>>] IN
  /\ Sendable(par, acc, Users, m) /\ acc' = Sent(par, acc, m) /\ last' = "send" /\ UNCHANGED <<supply, par, pend, minted>>
Burn(a, x) ==
  /\ Burnable(acc, [by |-> a, amt |-> x]) /\ acc' = Burnt(acc, [by |-> a, amt |-> x])
  /\ supply' = [supply EXCEPT !.m = BSub(@, x)] /\ last' = "burn" /\ UNCHANGED <<par, pend, minted>>
TxFee(a) == /\ Has(acc, a, "m", BInt(1)) /\ acc' = Move(acc, a, FeePool, "m", BInt(1)) /\ last' = "fee" /\ UNCHANGED <<supply, par, pend, minted>>
Delegate(a, x) ==
  /\ Has(acc, a, "m", x) /\ acc' = Delegated(par, acc, a, x)
  /\ LET y == BSub(x, FeeOf(par, x)) IN supply' = [supply EXCEPT !.m = BSub(@, y), !.d = BAdd(@, y)]
  /\ last' = "delegate" /\ UNCHANGED <<par, pend, minted>>
Revoke(a, x) ==
  /\ Has(acc, a, "d", x)
  /\ \E n \in 1..2 : LET s == BurnShare(par, x) IN
       /\ \A p \in pend : p[1] # n
       /\ n = 2 => pend # {}
       /\ acc' = Frozen(acc, a, x, s)
       /\ supply' = [supply EXCEPT !.d = BSub(@, x), !.r = BAdd(@, BSub(x, s))]
       /\ pend' = pend \cup {<<n, a, BSub(x, s)>>}
  /\ last' = "revoke" /\ UNCHANGED <<par, minted>>
PayBack(p) ==
  /\ acc' = Returned(acc, p[2], p[3]) /\ supply' = [supply EXCEPT !.r = BSub(@, p[3]), !.m = BAdd(@, p[3])]
  /\ pend' = pend \ {p} /\ last' = "payback" /\ UNCHANGED <<par, minted>>
Accrue(a) ==
  /\ minted < MaxMinted /\ acc[a].d # BZero /\ minted' = minted + 1
  /\ acc' = Add(acc, a, "m", BInt(1)) /\ supply' = [supply EXCEPT !.m = BAdd(@, BInt(1))] /\ last' = "accrue" /\ UNCHANGED <<par, pend>>
Block(p) ==
  /\ last # "block" /\ acc' = PaidOut(par, acc, p)
  /\ supply' = [supply EXCEPT !.m = BSub(@, BSub(Sum(acc, "m"), Sum(acc', "m")))]
  /\ last' = "block" /\ UNCHANGED <<par, pend, minted>>
Next ==
  \/ \E a, b \in Users, x \in Amts : Send(a, b, x)
  \/ \E a \in Users, x \in Amts : Burn(a, x) \/ Delegate(a, x) \/ Revoke(a, x)
  \/ \E a \in Users : TxFee(a) \/ Accrue(a)
  \/ \E p \in pend : PayBack(p)
  \/ \E p \in Users \cup {"none"} : Block(p)
Spec == Init /\ [][Next]_vars
Nonneg == NonNegative(acc)
Conservation == Conserved(acc, supply)
\* what is in the splittable pool can always be divided in the configured ratios without a remainder
Evenly == BModS(acc[SplitPool].m, Shares(par)) = 0
FrozenIsPending == \A a \in Users : acc[a].r = FoldFunction(LAMBDA p, s : BAdd(p[3], s), BZero, [p \in {q \in pend : q[2] = a} |-> p])
PoolsEmptied == [][last' = "block" /\ acc' # acc => acc'[FeePool].m = BZero /\ acc'[SplitPool].m = BZero]_vars
SupplyMonotone == [][ /\ last' \in {"send", "fee"} => supply' = supply
                      /\ last' \in {"burn", "block"} => BLe(supply'.m, supply.m) /\ supply'.d = supply.d /\ supply'.r = supply.r ]_vars
=============================================================================
