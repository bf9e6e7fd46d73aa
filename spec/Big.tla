-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size as little-endian sequences of base-10000 digits without trailing zeros, because TLC's *)
(* integers have 32 bits and amounts of coins do not fit. The recorder writes numbers in the same form; <<-1>> would   *)
(* stand for a negative number and is never a valid natural. Small factors and divisors (below 200000) are TLC integers. *)
EXTENDS Integers, Sequences
LOCAL Base == 10000
BZero == <<>>
IsNat(a) == \A i \in DOMAIN a : a[i] \in 0..(Base-1)

RECURSIVE BNorm(_)
BNorm(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN BNorm(SubSeq(a, 1, Len(a)-1)) ELSE a

RECURSIVE BInt(_)
BInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o BInt(n \div Base)

LOCAL Dg(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
  IF i > Len(a) /\ i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Dg(a, i) + Dg(b, i) + c IN <<s % Base>> \o AddFrom(a, b, i+1, s \div Base)
BAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE AddFrom(a, b, 1, 0)

RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i-1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpFrom(a, b, Len(a))
BLt(a, b) == BCmp(a, b) < 0
BLe(a, b) == BCmp(a, b) <= 0
BMin(a, b) == IF BLe(a, b) THEN a ELSE b
BMax(a, b) == IF BLe(a, b) THEN b ELSE a

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] - Dg(b, i) - c IN
       IF s < 0 THEN <<s + Base>> \o SubFrom(a, b, i+1, 1) ELSE <<s>> \o SubFrom(a, b, i+1, 0)
(* a - b, for b <= a; <<-1>> (not a natural) otherwise *)
BSub(a, b) == IF b = <<>> THEN a ELSE IF BLt(a, b) THEN <<-1>> ELSE BNorm(SubFrom(a, b, 1, 0))
BMinus(a, b) == IF BLt(a, b) THEN <<>> ELSE BSub(a, b)      \* cut off at zero

RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, k, i, c) ==
  IF i > Len(a) THEN BInt(c) ELSE LET s == a[i] * k + c IN <<s % Base>> \o MulFrom(a, k, i+1, s \div Base)
BMulS(a, k) == IF k = 0 \/ a = <<>> THEN <<>> ELSE IF k = 1 THEN a ELSE MulFrom(a, k, 1, 0)

RECURSIVE MulB(_, _, _)
MulB(a, b, i) == IF i > Len(b) THEN <<>> ELSE BAdd(BMulS(a, b[i]), LET t == MulB(a, b, i+1) IN IF t = <<>> THEN <<>> ELSE <<0>> \o t)
BMul(a, b) == MulB(a, b, 1)

(* quotient and remainder by a small integer *)
RECURSIVE DivFrom(_, _, _, _)
DivFrom(a, k, i, r) == IF i = 0 THEN [q |-> <<>>, r |-> r]
  ELSE LET s == r * Base + a[i]  t == DivFrom(a, k, i-1, s % k) IN [q |-> Append(t.q, s \div k), r |-> t.r]
BDivS(a, k) == IF k = 1 THEN a ELSE BNorm(DivFrom(a, k, Len(a), 0).q)
BModS(a, k) == IF k = 1 THEN 0 ELSE DivFrom(a, k, Len(a), 0).r

(* trunc(f * a) for a fraction f = <<numerator, denominator>> *)
BFrac(f, a) == BDivS(BMulS(a, f[1]), f[2])

RECURSIVE BSumSeq(_)
BSumSeq(s) == IF s = <<>> THEN <<>> ELSE BAdd(Head(s), BSumSeq(Tail(s)))

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Lcm(a, b) == (a \div Gcd(a, b)) * b
=============================================================================
