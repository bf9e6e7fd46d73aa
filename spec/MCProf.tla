------------------------------- MODULE MCProf -------------------------------
(* All histories of one subscriber with little money: paying, automatic renewal, storage, traffic, messenger space, usage    *)
(* reports, blocks that come in time or late. The calendar (one renewal at the end of what is paid, one for messenger        *)
(* space) and the activity flag are kept by increments, the way the application does; the invariants say what they mean.     *)
EXTENDS Prof, TLC
CONSTANTS Money, MaxTime, Steps, Gbs, Auto
VARIABLES st, now, cal, act, got
vars == <<st, now, cal, act, got>>
U == "u"
Env == [bank |-> [fee |-> <<1, 2>>, maxfee |-> BInt(2), prop |-> <<1, 2>>, comp |-> <<1, 2>>], company |-> "co", now |-> now, day |-> 1,
        prof |-> [rate |-> <<1, 1>>, price |-> BInt(3), stogb |-> BInt(2), vpngb |-> BInt(1), basesto |-> 1, basevpn |-> 1]]
Zero == [m |-> BZero, d |-> BZero, r |-> BZero]
P0 == [until |-> Never, autopay |-> FALSE, stolim |-> BZero, stocur |-> BZero, vpnlim |-> BZero, vpncur |-> BZero, imx |-> BZero, imuntil |-> Never, autoim |-> FALSE]
Init == /\ st = [acc |-> [a \in {U, "co", SplitPool} |-> IF a = U THEN [Zero EXCEPT !.m = BInt(Money)] ELSE Zero], prof |-> [a \in {U} |-> P0], ok |-> TRUE, free |-> FALSE]
        /\ now = 0 /\ cal = {} /\ act = FALSE /\ got = 0
P == st.prof[U]
Due == {t \in cal : t.t <= now}
First == CHOOSE t \in Due : \A s \in Due : t.t <= s.t
\* what the application does to its calendar and its flag along with each outcome
Calendar(c, p0, p1) ==
  LET c1 == IF p1.until # p0.until THEN c \cup {[h |-> "refresh", t |-> p1.until]} ELSE c
      c2 == IF p1.imuntil # p0.imuntil THEN c1 \ {[h |-> "im", t |-> p0.imuntil]} ELSE c1
  IN IF p1.imuntil # p0.imuntil /\ p1.imuntil # Never THEN c2 \cup {[h |-> "im", t |-> p1.imuntil]} ELSE c2
Flag(p0, p1) == IF (p1.until > now) # (p0.until > now) THEN p1.until > now ELSE act
Apply(s) == /\ s.ok /\ ~s.free /\ st' = s /\ cal' = Calendar(cal, P, s.prof[U]) /\ act' = Flag(P, s.prof[U]) /\ UNCHANGED now
Plain(s) == Apply(s) /\ UNCHANGED got
Tariff(gb) == Apply(DoTariff(Env, st, U, gb, FALSE)) /\ got' = got + 1
Toggle(f) == Auto /\ st' = [st EXCEPT !.prof[U][f] = ~@] /\ UNCHANGED <<now, cal, act, got>>
Used(f) == \E x \in {BZero, GB(BInt(1)), GB(BInt(3))} : st.prof[U][f] # x /\ st' = [st EXCEPT !.prof[U][f] = x] /\ UNCHANGED <<now, cal, act, got>>
Perform ==
  /\ Due # {}
  /\ LET t == First  s == IF t.h = "refresh" THEN DoRefresh(Env, st, U) ELSE DoRefreshIm(Env, st, U)
         p1 == s.prof[U]
     IN /\ st' = s /\ cal' = Calendar(cal \ {t}, P, p1) /\ UNCHANGED now
        /\ IF t.h = "refresh" THEN /\ got' = IF p1.until # P.until THEN got + 1 ELSE got
                                   /\ act' = IF P.until > now THEN act ELSE IF p1.until # P.until THEN act ELSE FALSE
           ELSE UNCHANGED <<got, act>>
Clock(d) == Due = {} /\ now + d <= MaxTime /\ now' = now + d /\ UNCHANGED <<st, cal, act, got>>
Next == \/ Perform
        \/ /\ Due = {}
           /\ \/ \E g \in Gbs \cup {0} : Tariff(BInt(g))
              \/ \E g \in Gbs : \/ Plain(DoBuySto(Env, st, U, BInt(g))) \/ Plain(DoGiveSto(Env, st, U, BInt(g))) \/ Plain(DoBuyVpn(Env, st, U, BInt(g)))
                                \/ Plain(DoBuyIm(Env, st, U, BInt(g))) \/ Plain(DoGiveIm(Env, st, U, BInt(g-1)))
              \/ Plain(DoProlong(Env, st, U)) \/ Toggle("autopay") \/ Toggle("autoim") \/ Used("vpncur") \/ Used("stocur")
              \/ \E d \in Steps : Clock(d)
Spec == Init /\ [][Next]_vars
Quiet == Due = {}
Activity == Quiet => act = (P.until > now)
OneRenewal == Quiet => LET r == {t \in cal : t.h = "refresh"} IN
  /\ P.until > now => [h |-> "refresh", t |-> P.until] \in r
  /\ \A t \in r : t.t <= P.until
OneIm == Quiet => /\ {t \in cal : t.h = "im"} = IF P.imuntil = Never THEN {} ELSE {[h |-> "im", t |-> P.imuntil]}
                  /\ (P.imx # BZero) = (P.imuntil # Never)
                  /\ P.imuntil # Never => P.imuntil > now
Coins == NonNegative(st.acc) /\ Total(st.acc) = [Zero EXCEPT !.m = BInt(Money)]
\* nobody has been active for longer than paid for
NotLonger == P.until <= now + 30 * got
Limits == act => BLe(BaseSto(Env), P.stolim) /\ BLe(BaseVpn(Env), P.vpnlim)
\* whatever grows has been paid for, except what comes with the subscription
Pays1 == [][ /\ BLt(P.stolim, P'.stolim) => BLt(st'.acc[U].m, st.acc[U].m)
             /\ BLt(P.imx, P'.imx) => BLt(st'.acc[U].m, st.acc[U].m)
             /\ P'.until > P.until => BLt(st'.acc[U].m, st.acc[U].m)
             /\ BLt(st'.acc[U].m, st.acc[U].m) => P' # P ]_vars
=============================================================================
