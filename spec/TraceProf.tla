----------------------------- MODULE TraceProf ------------------------------
(* C18 (nicknames and card numbers), C19 (subscription and activity) and C20 (storage, traffic, messenger space) on        *)
(* recorded histories. mem: the length of a day.                                                                           *)
EXTENDS TraceLib, Prof
Init == TInit(86400)
Day == IF E.op = "reset" THEN E.day ELSE mem
Pr0 == P.prof.p
Pr1 == S.prof.p
Acc0 == [a \in DOMAIN P.bank.acc |-> Coin(P.bank.acc[a])]
Acc1 == [a \in DOMAIN S.bank.acc |-> Coin(S.bank.acc[a])]
Env == [bank |-> par.bank, prof |-> par.prof, company |-> par.ref.company, now |-> E.now, day |-> Day]

\* what the messages of a transaction do, one after another
RenamePrice == BMulS(BInt(100), 10000)         \* one ARTR
TakenBy(prof, key) == {a \in DOMAIN prof : prof[a].nkey = key}
NickOk(prof, by, key) == key = "" \/ ((Len(key) < 5 \/ SubSeq(key, 1, 5) # "artr-") /\ TakenBy(prof, key) \subseteq {by})
Fresh(m, p) == [until |-> Never, autopay |-> m.hasprof /\ p.autopay, noding |-> m.hasprof /\ p.noding, storage |-> m.hasprof /\ p.storage,
  validator |-> m.hasprof /\ p.validator, vpn |-> m.hasprof /\ p.vpn, nick |-> IF m.hasprof THEN p.nick ELSE "", nkey |-> IF m.hasprof THEN p.nkey ELSE "",
  stolim |-> BZero, stocur |-> BZero, vpnlim |-> BZero, vpncur |-> BZero, imx |-> BZero, imuntil |-> Never, autoim |-> m.hasprof /\ p.autoim, card |-> BZero, num |-> 0]
DoCreate(st, m) ==
  LET key == IF m.hasprof THEN m.prof.nkey ELSE ""
      free == \E i \in DOMAIN par.prof.creators : par.prof.creators[i] = m.by
      fee == IF free THEN BZero ELSE par.prof.rename
  IN IF m.addr \in DOMAIN st.prof \/ ~NickOk(st.prof, m.addr, key) THEN Refuse(st)
     ELSE [st EXCEPT !.acc = Move(@, m.by, FeePool, "m", fee), !.ok = @ /\ BLe(fee, st.acc[m.by].m),
                     !.prof = [a \in DOMAIN st.prof \cup {m.addr} |-> IF a = m.addr THEN Fresh(m, IF m.hasprof THEN m.prof ELSE <<>>) ELSE st.prof[a]]]
RECURSIVE Upd(_, _)
Upd(p, us) ==
  IF us = <<>> THEN p
  ELSE LET u == Head(us) IN
    Upd(CASE u.f = "NICKNAME" -> [p EXCEPT !.nick = u.v, !.nkey = u.nkey]
          [] u.f = "AUTO_PAY" -> [p EXCEPT !.autopay = u.b]
          [] u.f = "NODING" -> [p EXCEPT !.noding = u.b]
          [] u.f = "STORAGE" -> [p EXCEPT !.storage = u.b]
          [] u.f = "VALIDATOR" -> [p EXCEPT !.validator = u.b]
          [] u.f = "VPN" -> [p EXCEPT !.vpn = u.b]
          [] u.f = "IM_AUTO_PAY" -> [p EXCEPT !.autoim = u.b], Tail(us))
DoUpd(st, m) ==
  LET p == Upd(st.prof[m.by], m.upd)
      fee == IF p.nick # st.prof[m.by].nick /\ p.nkey # "" THEN RenamePrice ELSE BZero
  IN IF ~NickOk(st.prof, m.by, p.nkey) THEN Refuse(st)
     ELSE [Put(st, m.by, p) EXCEPT !.acc = Move(@, m.by, FeePool, "m", fee), !.ok = @ /\ BLe(fee, st.acc[m.by].m)]

Kinds18 == {"upd", "create"}
Kinds19 == {"tariff"}
Kinds20 == {"buysto", "givesto", "buyvpn", "buyim", "giveim", "prolongim", "stocur", "vpncur"}
Kinds == Kinds18 \cup Kinds19 \cup Kinds20
Whose(m) == IF m.m \in {"stocur", "vpncur"} THEN m.addr ELSE m.by
One(st, m) ==
  IF m.m = "create" THEN DoCreate(st, m)
  ELSE IF Whose(m) \notin DOMAIN st.prof THEN Refuse(st)
  ELSE CASE m.m = "upd" -> DoUpd(st, m)
         [] m.m = "tariff" -> DoTariff(Env, st, m.by, m.gb, FALSE)
         [] m.m = "buysto" -> DoBuySto(Env, st, m.by, m.gb)
         [] m.m = "givesto" -> DoGiveSto(Env, st, m.by, m.gb)
         [] m.m = "buyvpn" -> DoBuyVpn(Env, st, m.by, m.gb)
         [] m.m = "buyim" -> DoBuyIm(Env, st, m.by, m.gb)
         [] m.m = "giveim" -> DoGiveIm(Env, st, m.by, m.gb)
         [] m.m = "prolongim" -> DoProlong(Env, st, m.by)
         [] m.m = "stocur" -> DoUsed(st, ToSet(par.prof.stosig), m.by, m.addr, "stocur", m.v)
         [] m.m = "vpncur" -> DoUsed(st, ToSet(par.prof.vpnsig), m.by, m.addr, "vpncur", m.v)
Ms(k) == SelectSeq(E.msgs, LAMBDA m : m.m \in k)
Mixed == E.op = "tx" /\ Ms(Kinds) # E.msgs
Rated == E.op = "tx" /\ Ms({"rate"}) # <<>>      \* the price itself changes within the transaction
Ante == IF E.ante THEN Move(Acc0, E.by, FeePool, "m", E.fee) ELSE Acc0
Start == [acc |-> Acc0, prof |-> Pr0, ok |-> TRUE, free |-> FALSE]
TxWant == IF E.mode # "" THEN Start
          ELSE LET w == TLCEval(FoldLeft(One, [Start EXCEPT !.acc = Ante], Ms(Kinds)))
               IN IF E.ok THEN w ELSE [Start EXCEPT !.acc = Ante, !.ok = w.ok, !.free = w.free]
Task(h) == E.op = "task" /\ E.hook = h
Want == CASE E.op = "tx" -> TxWant
          [] Task("profile/refresh") /\ E.acc \in DOMAIN Pr0 -> DoRefresh(Env, Start, E.acc)
          [] Task("profile/refresh-im") /\ E.acc \in DOMAIN Pr0 -> DoRefreshIm(Env, Start, E.acc)
          [] OTHER -> Start

F18 == {"nick", "nkey", "noding", "storage", "validator", "vpn"}
F19 == {"until", "autopay"}
F20 == {"stolim", "stocur", "vpnlim", "vpncur", "imx", "imuntil", "autoim"}
Fields(w, fs) ==
  FirstBad(<<
    Say(DOMAIN Pr1 = DOMAIN w.prof, "profiles exist for " \o ToString(DOMAIN Pr1) \o " instead of " \o ToString(DOMAIN w.prof)),
    IF DOMAIN Pr1 # DOMAIN w.prof THEN "" ELSE
    FirstOver({a \in DOMAIN Pr1 : Pr1[a] # w.prof[a]}, LAMBDA a : FirstOver(fs, LAMBDA f :
      Say(Pr1[a][f] = w.prof[a][f], "is " \o ToString(Pr1[a][f]) \o " instead of " \o ToString(w.prof[a][f])))) >>)
DiffAcc(w) == [a \in {x \in DOMAIN w : w[x] # Acc1[x]} |-> [want |-> w[a], got |-> Acc1[a]]]
Coins(w) == Say(Acc1 = w.acc, "coins: " \o ToString(DiffAcc(w.acc)))
Payment(w, kinds, hook) ==
  IF (E.op = "tx" /\ ~Mixed /\ Ms(kinds) # <<>>) \/ Task(hook) THEN Coins(w) ELSE ""
\* a single message, with all the gas it needs
Ruled(w, kinds) ==
  IF E.op = "tx" /\ E.mode = "" /\ E.ante /\ ~Mixed /\ Ms(kinds) = E.msgs THEN FirstBad(<<
    Say(E.ok => w.ok, "a " \o E.msgs[1].m \o " was accepted that should not be"),
    Say(w.ok /\ ~w.free /\ E.gas = 0 /\ Len(E.msgs) = 1 => E.ok, "a proper " \o E.msgs[1].m \o " was refused: " \o E.err) >>)
  ELSE ""

(* --- C18 --- *)
C18Step ==
  FirstBad(<<
    FirstOver(DOMAIN Pr1, LAMBDA a : LET k == Pr1[a].nkey IN IF k = "" THEN "" ELSE FirstBad(<<
      Say(TakenBy(Pr1, k) = {a}, "its nickname " \o Pr1[a].nick \o " is carried by " \o ToString(TakenBy(Pr1, k))),
      Say(S.prof.nicks[k] = a, "its nickname " \o Pr1[a].nick \o " leads to " \o S.prof.nicks[k]) >>)),
    FirstOver({k \in DOMAIN S.prof.nicks : TakenBy(Pr1, k) = {}}, LAMBDA k : Say(S.prof.nicks[k] = "none", "leads to " \o S.prof.nicks[k] \o ", who does not carry it")),
    FirstOver(DOMAIN Pr1, LAMBDA a : FirstBad(<<
      Say(S.prof.cards[a] = a, "its card number leads to " \o S.prof.cards[a]),
      Say(\A b \in DOMAIN Pr1 : Pr1[b].card = Pr1[a].card => a = b, "shares its card number"),
      IF E.op # "reset" /\ a \in DOMAIN Pr0 THEN Say(Pr0[a].card = Pr1[a].card, "its card number changed") ELSE "" >>)),
    Say(S.prof.nocards = <<>>, "card numbers of nobody lead to " \o ToString(S.prof.nocards)),
    IF E.op = "reset" THEN "" ELSE
      LET w == Want
          \* only the other half of registering somebody (see C08) may refuse it
          reg == E.op = "tx" /\ Ms({"create"}) # <<>>
      IN FirstBad(<<
        IF E.op = "tx" /\ E.ok /\ E.mode = "" /\ Rated THEN "" ELSE Fields(w, F18),
        Payment(w, Kinds18, "none"),
        IF reg THEN Say(Done /\ ~Mixed /\ Ms(Kinds18) = E.msgs => w.ok, "a registration was accepted that should not be") ELSE Ruled(w, Kinds18) >>) >>)

(* --- C19 --- *)
Refreshes(st, a) == SelectSeq(st.tasks, LAMBDA t : t.h = "profile/refresh" /\ t.a = a)
C19Step ==
  FirstBad(<<
    IF E.op \notin {"tx", "end", "restart", "reimport", "reset"} THEN "" ELSE
    FirstOver(DOMAIN Pr1 \cap DOMAIN S.ref, LAMBDA a :
      LET u == Pr1[a].until  ts == Refreshes(S, a)  now == SelectSeq(ts, LAMBDA t : t.t = u) IN FirstBad(<<
        Say((u > E.now) => S.ref[a].act, "has paid until " \o ToString(u) \o " but is not active"),
        Say(S.ref[a].act => u > E.now \/ (u # Never /\ now # <<>>), "is active, though it has paid until " \o ToString(u)),
        Say(u > E.now => Len(now) = 1, "renewal at " \o ToString(u) \o " is scheduled " \o ToString(Len(now)) \o " times"),
        Say(\A i \in DOMAIN ts : ts[i].t <= u, "a renewal is scheduled after the end"),
        IF S.ref[a].up \in DOMAIN S.ref /\ ~S.ref[a].gone THEN Say(S.ref[a].act = (a \in ToSet(S.ref[S.ref[a].up].akids)), "is seen by its referrer as " \o (IF S.ref[a].act THEN "inactive" ELSE "active")) ELSE "" >>)),
    IF E.op = "reset" THEN "" ELSE
      LET w == Want IN FirstBad(<< Fields(w, F19), IF Rated THEN "" ELSE Payment(w, Kinds19, "profile/refresh"), Ruled(w, Kinds19) >>) >>)

(* --- C20 --- *)
Renewals(st, a) == SelectSeq(st.tasks, LAMBDA t : t.h = "profile/refresh-im" /\ t.a = a)
C20Step ==
  FirstBad(<<
    IF E.op \notin {"tx", "end", "restart", "reimport", "reset"} THEN "" ELSE
    FirstOver(DOMAIN Pr1, LAMBDA a : LET p == Pr1[a]  ts == Renewals(S, a) IN FirstBad(<<
      Say(p.imuntil # Never => p.imuntil > E.now \/ ts # <<>>, "messenger space is still there after " \o ToString(p.imuntil)),
      Say(IF p.imuntil = Never THEN ts = <<>> /\ p.imx = BZero ELSE Len(ts) = 1 /\ ts[1].t = p.imuntil, "the end of its messenger space is scheduled " \o ToString(ts)) >>)),
    IF E.op = "reset" THEN "" ELSE
      LET w == Want IN FirstBad(<<
        IF Rated /\ Done THEN "" ELSE Fields(w, F20),
        IF Rated THEN "" ELSE Payment(w, Kinds20, "profile/refresh-im"),
        Ruled(w, Kinds20) >>) >>)
Step == IF Prop = "C18" THEN C18Step ELSE IF Prop = "C19" THEN C19Step ELSE C20Step
Next == TNext(Step, IF E.op = "reset" THEN E.day ELSE mem)
Spec == Init /\ [][Next]_tvars
=============================================================================
