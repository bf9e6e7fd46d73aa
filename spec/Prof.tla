-------------------------------- MODULE Prof --------------------------------
(* Subscriptions, storage, VPN traffic and messenger space. A profile is                                                  *)
(*   [until, autopay, stolim, stocur, vpnlim, vpncur, imx, imuntil, autoim, ...]                                          *)
(* (bytes and gigabytes as Big naturals; -1 stands for "no time"). Every operator takes and gives back a state            *)
(*   [acc |-> coins, prof |-> profiles, ok |-> accepted so far, free |-> some amount to be paid came to zero].          *)
(* env: [bank, prof (prices and signers), company (who gets the money), now, day].                                       *)
EXTENDS Bank
Never == -1
GB(n) == BMulS(BMulS(n, 32768), 32768)         \* n: Big
ToGB(b) == BDivS(BDivS(b, 32768), 32768)
MonthOf(env) == 30 * env.day
BaseSto(env) == GB(BInt(env.prof.basesto))
BaseVpn(env) == GB(BInt(env.prof.basevpn))
Active(env, p) == p.until > env.now
ImActive(env, p) == p.imx # BZero /\ p.imuntil > env.now

\* the price for n gigabytes at a unit price, for the whole month / for t seconds
Price(env, unit, n) == BFrac(env.prof.rate, BMul(n, unit))
PartPrice(env, unit, n, t) == BDivS(BDivS(BDivS(BMulS(BMul(BMul(n, unit), BInt(t)), env.prof.rate[1]), env.prof.rate[2]), env.day), 30)

\* a payment: the transfer fee on `base` goes to the pool, the rest to the company
Pays(env, st, a, total, base) ==
  LET fee == FeeOf(env.bank, base)
  IN [st EXCEPT !.acc = Move(Move(st.acc, a, env.company, "m", BSub(total, fee)), a, SplitPool, "m", fee),
                !.ok = st.ok /\ BLe(total, st.acc[a].m),
                !.free = @ \/ BSub(total, fee) = BZero]
Refuse(st) == [st EXCEPT !.ok = FALSE]
Put(st, a, p) == [st EXCEPT !.prof[a] = p]

\* a new month: the traffic used is taken off what was bought in addition
Reset(env, p) ==
  LET over == BMinus(p.vpncur, BaseVpn(env))
  IN [p EXCEPT !.vpncur = BZero, !.vpnlim = BMax(BMinus(p.vpnlim, over), BaseVpn(env)), !.stolim = IF p.stolim = BZero THEN BaseSto(env) ELSE p.stolim]

\* gb is a Big number; zero means "as much as I have now"
DoTariff(env, st, a, gb, auto) ==
  LET p == st.prof[a]
      base == BInt(env.prof.basesto)
      sto == IF gb # BZero THEN GB(gb) ELSE IF p.stolim = BZero THEN BaseSto(env) ELSE p.stolim
      valid == gb = BZero \/ (BLe(base, gb) /\ BLe(p.stocur, sto))
      tariff == Price(env, env.prof.price, <<1>>)
      n == ToGB(sto)  was == ToGB(p.stolim)
      whole(x) == BMulS(BMulS(x, env.day), 30)
      part(x) == BMul(x, BInt(p.until - env.now))
      plus == BAdd(whole(BMinus(n, base)), IF Active(env, p) THEN part(BMinus(n, was)) ELSE BZero)
      minus == BAdd(whole(BMinus(base, n)), IF Active(env, p) THEN part(BMinus(was, n)) ELSE BZero)
      extra == BDivS(BDivS(BFrac(env.prof.rate, BMul(BMinus(plus, minus), env.prof.stogb)), env.day), 30)
      s1 == Pays(env, st, a, BAdd(tariff, extra), tariff)
      p1 == [p EXCEPT !.until = IF Active(env, p) \/ auto THEN p.until + MonthOf(env) ELSE env.now + MonthOf(env), !.stolim = sto]
  IN IF valid /\ ~s1.free THEN Put(s1, a, IF auto \/ ~Active(env, p) THEN Reset(env, p1) ELSE p1) ELSE Refuse(st)

DoBuySto(env, st, a, gb) ==
  LET p == st.prof[a]  cost == PartPrice(env, env.prof.stogb, gb, p.until - env.now)
  IN IF ~Active(env, p) \/ gb = BZero \/ cost = BZero THEN Refuse(st)
     ELSE Put(Pays(env, st, a, cost, cost), a, [p EXCEPT !.stolim = BAdd(BMax(@, BaseSto(env)), GB(gb))])
DoGiveSto(env, st, a, gb) ==
  LET p == st.prof[a]  new == BMax(GB(gb), BaseSto(env))
  IN IF gb = BZero \/ BLt(new, p.stocur) \/ ~BLt(new, p.stolim) THEN Refuse(st) ELSE Put(st, a, [p EXCEPT !.stolim = new])
DoBuyVpn(env, st, a, gb) ==
  LET p == st.prof[a]  cost == Price(env, env.prof.vpngb, gb)
  IN IF ~Active(env, p) \/ gb = BZero THEN Refuse(st)
     ELSE Put(Pays(env, st, a, cost, cost), a, [p EXCEPT !.vpnlim = BAdd(@, GB(gb))])
DoBuyIm(env, st, a, gb) ==
  LET p == st.prof[a]  on == ImActive(env, p)
      cost == IF on THEN PartPrice(env, env.prof.stogb, gb, p.imuntil - env.now) ELSE Price(env, env.prof.stogb, gb)
  IN IF gb = BZero \/ cost = BZero THEN Refuse(st)
     ELSE Put(Pays(env, st, a, cost, cost), a, IF on THEN [p EXCEPT !.imx = BAdd(@, gb)] ELSE [p EXCEPT !.imx = gb, !.imuntil = env.now + MonthOf(env)])
DoGiveIm(env, st, a, gb) ==
  LET p == st.prof[a]
  IN IF ~ImActive(env, p) \/ ~BLt(gb, p.imx) THEN Refuse(st)
     ELSE Put(st, a, IF gb = BZero THEN [p EXCEPT !.imx = gb, !.imuntil = Never] ELSE [p EXCEPT !.imx = gb])
DoProlong(env, st, a) ==
  LET p == st.prof[a]  cost == Price(env, env.prof.stogb, p.imx)
  IN IF p.imx = BZero \/ p.imuntil = Never \/ cost = BZero THEN Refuse(st)
     ELSE Put(Pays(env, st, a, cost, cost), a, [p EXCEPT !.imuntil = @ + MonthOf(env)])
DoUsed(st, listed, by, a, f, v) == IF by \notin listed THEN Refuse(st) ELSE Put(st, a, [st.prof[a] EXCEPT ![f] = v])

\* the end of a month comes: nothing to do but starting anew if the next one is paid for already
DoRefresh(env, st, a) ==
  LET p == st.prof[a]  paid == DoTariff(env, st, a, BZero, TRUE)
  IN IF Active(env, p) THEN Put(st, a, Reset(env, p)) ELSE IF p.autopay /\ paid.ok THEN paid ELSE st
DoRefreshIm(env, st, a) ==
  LET p == st.prof[a]  paid == DoProlong(env, st, a)
  IN IF p.autoim /\ paid.ok THEN paid ELSE Put(st, a, [p EXCEPT !.imx = BZero, !.imuntil = Never, !.autoim = FALSE])
=============================================================================
