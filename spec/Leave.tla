------------------------------- MODULE Leave --------------------------------
(* What can always be done: a trader leaves with everything (C33), the    *)
(* authority winds a market down and everybody is paid (C34).             *)
(*                                                                        *)
(* CanLeave and CanWind look ahead with Exec: the model checker evaluates *)
(* them in every state it reaches. MustPass says of a single call that it *)
(* may not be refused, without Exec.                                      *)
EXTENDS Props

LOCAL A(n, s, x) == [n |-> n, s |-> s, w |-> x]
LOCAL TokOf(w, t, mint) ==
  CHOOSE x \in DOMAIN w : w[x].k = "tok" /\ w[x].own = "token" /\ w[x].mint = mint /\ w[x].auth = t /\ ~w[x].fz
LOCAL HasTok(w, t, mint) ==
  \E x \in DOMAIN w : w[x].k = "tok" /\ w[x].own = "token" /\ w[x].mint = mint /\ w[x].auth = t /\ ~w[x].fz
LOCAL Hd(mn, t) == <<A("phoenix", FALSE, FALSE), A("log", FALSE, FALSE), A(mn, FALSE, TRUE), A(t, TRUE, TRUE)>>
LOCAL Vs(w, mn, t) ==
  LET m == w[mn]
  IN <<A(TokOf(w, t, m.bm.mint), FALSE, TRUE), A(TokOf(w, t, m.qm.mint), FALSE, TRUE),
       A(m.bm.vault, FALSE, TRUE), A(m.qm.vault, FALSE, TRUE), A("token", FALSE, FALSE)>>
LOCAL OwedQ(m, t) == (m.tr[t].ql ++ m.tr[t].qf)
LOCAL OwedB(m, t) == (m.tr[t].bl ++ m.tr[t].bf)
LOCAL OrdersLeft(m, t) ==
  {i \in 1..Len(m.bids) : m.bids[i].tr = t} \cup {i \in 1..Len(m.asks) : m.asks[i].tr = t}

\* carry out calls one after the other; stop at one that is refused
RECURSIVE Script(_, _)
Script(w, cs) ==
  IF cs = <<>> THEN [ok |-> TRUE, w |-> w]
  ELSE LET e == Exec(w, Head(cs)) IN IF e.ok THEN Script(e.acc, Tail(cs)) ELSE [ok |-> FALSE, w |-> w]
LOCAL Call(ix, accs, a, slot, ts) == [ix |-> ix, accs |-> accs, a |-> a, slot |-> slot, ts |-> ts]

-----------------------------------------------------------------------------
CanLeave(w, mn, t, slot, ts) ==
  LET m == w[mn]
      tb == TokOf(w, t, m.bm.mint)
      tq == TokOf(w, t, m.qm.mint)
      accs == Hd(mn, t) \o Vs(w, mn, t)
      r == Script(w, <<Call("CancelAll", accs, [none |-> TRUE], slot, ts),
                       Call("Withdraw", accs, [q |-> <<>>, b |-> <<>>], slot, ts)>>)
      m2 == r.w[mn]
      paidB == (w[tb].amt ++ (OwedB(m, t) ** m.bls))
      paidQ == (w[tq].amt ++ (OwedQ(m, t) ** m.qls))
  IN (/\ ReduceAllowed(m.st) /\ HasTok(w, t, m.bm.mint) /\ HasTok(w, t, m.qm.mint)
      /\ Fits(paidB) /\ Fits(paidQ)) =>
       /\ r.ok /\ m2.tr[t] = ZeroState /\ OrdersLeft(m2, t) = {}
       /\ r.w[tb].amt = paidB /\ r.w[tq].amt = paidQ

-----------------------------------------------------------------------------
LOCAL Closing(st) == CASE st = "AC" -> <<"PA", "CL">> [] st \in {"PO", "PA"} -> <<"CL">> [] OTHER -> <<>>
RECURSIVE Enum(_)
Enum(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Enum(S \ {x})
LOCAL UnseatCalls(w, mn, t, slot, ts) ==
  LET au == w[mn].auth
      sn == SeatAddr(mn, t)
      accs == Hd(mn, au) \o <<A(t, FALSE, FALSE), A(sn, FALSE, FALSE)>> \o Vs(w, mn, t)
      fc(s) == Call("ForceCancel", accs, [side |-> s, tl |-> <<>>, ns |-> <<>>, nc |-> <<>>], slot, ts)
  IN (IF w[sn].st = "AP"
      THEN <<Call("ChangeSeatStatus", Hd(mn, au) \o <<A(sn, FALSE, TRUE)>>, [st |-> "RT"], slot, ts)>> ELSE <<>>)
     \o <<fc("B"), fc("A"), Call("EvictSeat", accs, [none |-> TRUE], slot, ts)>>
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
CanWind(w, mn, slot, ts) ==
  LET m == w[mn]
      who == Enum(DOMAIN m.tr)
      st(s) == Call("ChangeMarketStatus", Hd(mn, m.auth), [st |-> s], slot, ts)
      fq == TokOf(w, m.fr, m.qm.mint)
      due(x) ==      \* what a token account is to receive
        (SumOver(DOMAIN m.tr, [t \in DOMAIN m.tr |->
           IF x = TokOf(w, t, m.bm.mint) THEN (OwedB(m, t) ** m.bls)
           ELSE IF x = TokOf(w, t, m.qm.mint) THEN (OwedQ(m, t) ** m.qls) ELSE Z])
         ++ IF x = fq THEN (m.unc ** m.qls) ELSE Z)
      paid == {TokOf(w, t, m.bm.mint) : t \in DOMAIN m.tr} \cup {TokOf(w, t, m.qm.mint) : t \in DOMAIN m.tr} \cup {fq}
      r == Script(w,
             [i \in 1..Len(Closing(m.st)) |-> st(Closing(m.st)[i])]
             \o Concat([i \in 1..Len(who) |-> UnseatCalls(w, mn, who[i], slot, ts)])
             \o <<Call("CollectFees", Hd(mn, m.auth) \o <<A(fq, FALSE, TRUE), A(m.qm.vault, FALSE, TRUE), A("token", FALSE, FALSE)>>,
                       [none |-> TRUE], slot, ts), st("TO")>>)
  IN (/\ ReduceAllowed(m.st) /\ HasTok(w, m.fr, m.qm.mint)
      /\ \A t \in DOMAIN m.tr : HasTok(w, t, m.bm.mint) /\ HasTok(w, t, m.qm.mint)
      /\ \A x \in paid : Fits(w[x].amt ++ due(x))
      /\ Fits(w[m.auth].lam ++ m.lam)) =>
       /\ r.ok /\ ~IsMarket(r.w[mn])
       /\ \A x \in paid : r.w[x].amt = (w[x].amt ++ due(x))

-----------------------------------------------------------------------------
\* genuine accounts from i on, able to take everything the market owes t
LOCAL Payable(w, c, i, t) ==
  LET mn == MarketName(c)
      m == w[mn]
  IN /\ VaultsOk(w, c, i, m, t)
     /\ \A j \in i..(i + 3) : Writable(c, Nm(c, j)) /\ ~w[Nm(c, j)].fz
     /\ Nm(c, i) # m.bm.vault /\ Nm(c, i + 1) # m.qm.vault
     /\ t \in DOMAIN m.tr =>
          /\ Fits(w[Nm(c, i)].amt ++ (OwedB(m, t) ** m.bls))
          /\ Fits(w[Nm(c, i + 1)].amt ++ (OwedQ(m, t) ** m.qls))
     /\ InvVaults(w, mn) /\ InvLocked(m)

MustPass(w, c) ==
  LET mn == MarketName(c)
      m == w[mn]
      t == Signer(c)
      r == Nm(c, 5)
      known == t \in DOMAIN m.tr
      leave ==
        CASE c.ix = "CancelAll" -> ReduceAllowed(m.st) /\ Payable(w, c, 5, t)
          [] c.ix = "CancelAllFF" -> InvVaults(w, mn) /\ InvLocked(m)
          [] c.ix = "Withdraw" -> /\ ReduceAllowed(m.st) /\ known /\ OrderArgOk(c.a)
                                  /\ Payable(w, c, 5, t)
          [] OTHER -> FALSE
      forced == /\ HasAcc(c, 11) /\ SeatRecOk(w, c, 6, mn, r) /\ w[Nm(c, 6)].st # "AP" /\ Payable(w, c, 7, r)
                /\ r \in DOMAIN m.tr
      wind ==
        CASE c.ix = "ChangeMarketStatus" ->
               /\ t = m.auth /\ OrderArgOk(c.a) /\ <<m.st, c.a.st>> \in StatusSteps
               /\ c.a.st = "TO" =>
                    /\ m.bids = <<>> /\ m.asks = <<>> /\ DOMAIN m.tr = {} /\ m.unc = Z
                    /\ LET x == IF HasAcc(c, 5) THEN r ELSE t
                       IN x # mn /\ Writable(c, x) /\ Fits(w[x].lam ++ m.lam)
          [] c.ix = "ChangeSeatStatus" ->
               /\ t = m.auth /\ OrderArgOk(c.a) /\ HasAcc(c, 5) /\ w[r].k = "seat" /\ Writable(c, r)
               /\ SeatRecOk(w, c, 5, mn, w[r].trader)
               /\ c.a.st \in {"NA", "RT"} /\ <<w[r].st, c.a.st>> \in SeatSteps
          [] c.ix = "ForceCancel" -> t = m.auth /\ OrderArgOk(c.a) /\ forced
          [] c.ix = "EvictSeat" -> t = m.auth /\ forced /\ m.tr[r].ql = Z /\ m.tr[r].bl = Z
          [] c.ix = "CollectFees" ->
               /\ HasAcc(c, 7) /\ TokOk(w, c, 5, m.qm.mint, m.fr) /\ Nm(c, 6) = m.qm.vault /\ Nm(c, 7) = "token"
               /\ Writable(c, r) /\ Writable(c, Nm(c, 6)) /\ ~w[r].fz /\ ~w[Nm(c, 6)].fz /\ r # Nm(c, 6)
               /\ Fits(w[r].amt ++ (m.unc ** m.qls)) /\ Fits(m.col ++ m.unc) /\ InvVaults(w, mn)
          [] OTHER -> FALSE
  IN IF /\ HasAcc(c, 4) /\ mn \in DOMAIN w /\ Nm(c, 1) = "phoenix" /\ Nm(c, 2) = "log"
        /\ IsMarket(m) /\ c.accs[4].s /\ Writable(c, mn)
     THEN (IF leave THEN {"C33"} ELSE {}) \cup (IF wind THEN {"C34"} ELSE {})
     ELSE {}
=============================================================================
