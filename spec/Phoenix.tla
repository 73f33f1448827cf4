------------------------------ MODULE Phoenix -------------------------------
(* The Phoenix program: accounts, instructions and their effects.         *)
(*                                                                        *)
(* The world w maps account names to records:                             *)
(*   [k |-> "raw",  own, lam, len, zero]         any other account        *)
(*   [k |-> "tok",  own, lam, mint, auth, amt, fz, nat]  token account;   *)
(*         nat: wrapped SOL, every atom backed by a lamport               *)
(*   [k |-> "mint", own, lam, dec, nat]          token mint               *)
(*   [k |-> "seat", own, lam, market, trader, st]                         *)
(*   [k |-> "market", own, lam, len, st, size, bm, qm, bls, qls, tqa,     *)
(*         auth, fr, succ, mseq, raw, T, B, fee, oseq, col, unc, bids,    *)
(*         asks, tr]   (bm/qm = [dec, mint, vault])                       *)
(* own is the owning program: "phoenix", "token", "system" or "other".    *)
(* Derived addresses are named by SeatAddr and VaultAddr.                 *)
(*                                                                        *)
(* A call c is [ix, accs, a, slot, ts]: accs is a sequence of             *)
(* [n, s, w] (name, is signer, is writable), a the decoded arguments      *)
(* ([bad |-> TRUE] when the bytes decode to none).                        *)
(*                                                                        *)
(* Exec(w, c) is the one allowed outcome: [ok, why, acc, ev, ret, tags].  *)
(* acc is the world afterwards, ev the audit log, ret the returned ids.   *)
(* A failed call leaves the world as it was.                              *)
EXTENDS Engine

SeatAddr(m, t) == "seat:" \o m \o ":" \o t
VaultAddr(m, mint) == "vault:" \o m \o ":" \o mint

RentFor(len) == ((N(128) ++ len) ** N(6960))
SeatLen == N(128)
TokenLen == N(165)

\* sizes the program offers, and (verification build only) small ones
OfferedSizes == {
  <<N(512), N(512), N(128)>>,    <<N(512), N(512), N(1025)>>,   <<N(512), N(512), N(1153)>>,
  <<N(1024), N(1024), N(128)>>,  <<N(1024), N(1024), N(2049)>>, <<N(1024), N(1024), N(2177)>>,
  <<N(2048), N(2048), N(128)>>,  <<N(2048), N(2048), N(4097)>>, <<N(2048), N(2048), N(4225)>>,
  <<N(4096), N(4096), N(128)>>,  <<N(4096), N(4096), N(8193)>>, <<N(4096), N(4096), N(8321)>> }
SmallSizes == { <<N(2), N(2), N(3)>>, <<N(4), N(4), N(6)>>, <<N(8), N(8), N(8)>> }
Sizes == OfferedSizes \cup SmallSizes
\* header 576, market fields 304, a tree header 32; a book node 64 and a trader node 144
BodyLen(b, a, s) == (N(304 + 96) ++ ((b ++ a) ** N(64)) ++ (s ** N(144)))
MarketLen(b, a, s) == (N(576) ++ BodyLen(b, a, s))

CrossAllowed(st) == st = "AC"
PostAllowed(st) == st \in {"AC", "PO"}
ReduceAllowed(st) == st \in {"AC", "PO", "PA", "CL"}
StatusSteps ==
  { <<"UN", "PO">>, <<"AC", "PO">>, <<"AC", "PA">>, <<"AC", "AC">>, <<"PO", "AC">>,
    <<"PO", "PA">>, <<"PO", "CL">>, <<"PO", "PO">>, <<"CL", "TO">>, <<"CL", "PA">>,
    <<"CL", "CL">>, <<"CL", "PO">>, <<"PA", "AC">>, <<"PA", "PO">>, <<"PA", "CL">>,
    <<"PA", "PA">> }
SeatSteps == { <<"NA", "AP">>, <<"AP", "NA">>, <<"AP", "RT">>, <<"NA", "RT">> }

-----------------------------------------------------------------------------
(* Outcomes                                                               *)
Refuse(w, why, tags) ==
  [ok |-> FALSE, why |-> why, acc |-> w, ev |-> <<>>, ret |-> <<>>, tags |-> tags]

HasAcc(c, i) == Len(c.accs) >= i
Nm(c, i) == c.accs[i].n
MarketName(c) == Nm(c, 3)
Signer(c) == Nm(c, 4)
IsMarket(r) == r.k = "market" /\ r.own = "phoenix"

Writable(c, n) == \E i \in 1..Len(c.accs) : c.accs[i].n = n /\ c.accs[i].w
RECURSIVE LamSum(_, _)
LamSum(w, ns) == IF ns = {} THEN Z
                 ELSE LET n == CHOOSE n \in ns : TRUE IN (w[n].lam ++ LamSum(w, ns \ {n}))

\* what the runtime demands of every successful instruction: only accounts
\* passed as writable change, and lamports are neither made nor lost
MaxReturned == 63        \* ids of 16 bytes after a length of 4, in 1024 bytes
Commit(w, c, x, w1, ret) ==
  LET ns == {Nm(c, i) : i \in 1..Len(c.accs)}
      ch == {n \in ns : w[n] # w1[n]}
  IN IF ~x.ok THEN Refuse(w, x.why, x.tags)
     ELSE IF Len(ret) > MaxReturned THEN Refuse(w, "return", x.tags)
     ELSE IF \E n \in ch : ~Writable(c, n) THEN Refuse(w, "readonly", x.tags)
     ELSE IF (\E n \in ch : w[n].lam # w1[n].lam) /\ LamSum(w, ns) # LamSum(w1, ns)
     THEN Refuse(w, "lamports", x.tags)
     ELSE [ok |-> TRUE, why |-> "", acc |-> w1, ev |-> x.ev, ret |-> ret, tags |-> x.tags]

\* the market after a successful instruction
Bump(m) == [m EXCEPT !.mseq = (@ ++ One)]
Done(w, c, x, ret) == Commit(w, c, x, [w EXCEPT ![MarketName(c)] = Bump(x.m)], ret)

-----------------------------------------------------------------------------
(* Accounts an instruction names                                          *)
TokOk(w, c, i, mint, auth) ==
  LET r == w[Nm(c, i)]
  IN r.k = "tok" /\ r.own = "token" /\ r.mint = mint /\ r.auth = auth

\* base account, quote account, base vault, quote vault, token program
VaultsOk(w, c, i, m, owner) ==
  /\ HasAcc(c, i + 4)
  /\ TokOk(w, c, i, m.bm.mint, owner)
  /\ TokOk(w, c, i + 1, m.qm.mint, owner)
  /\ Nm(c, i + 2) = m.bm.vault /\ TokOk(w, c, i + 2, m.bm.mint, m.bm.vault)
  /\ Nm(c, i + 3) = m.qm.vault /\ TokOk(w, c, i + 3, m.qm.mint, m.qm.vault)
  /\ Nm(c, i + 4) = "token"

SeatRecOk(w, c, i, mn, t) ==
  /\ HasAcc(c, i)
  /\ LET r == w[Nm(c, i)]
     IN /\ r.k = "seat" /\ r.own = "phoenix"
        /\ Nm(c, i) = SeatAddr(mn, t)
        /\ r.market = mn /\ r.trader = t

\* move atoms between token accounts: y = [x, w]
Xfer(y, from, to, amt) ==
  LET f == y.w[from]
      g == y.w[to]
  IN IF amt = Z \/ ~y.x.ok THEN y
     ELSE IF ~Fits(amt) THEN [y EXCEPT !.x = Bad(@, "overflow")]
     ELSE IF f.fz \/ g.fz THEN [y EXCEPT !.x = Bad(@, "frozen")]
     ELSE IF ~(amt \preceq f.amt) \/ ~Fits(g.amt ++ amt) \/ (g.nat /\ ~Fits(g.lam ++ amt))
     THEN [y EXCEPT !.x = Tag(Bad(@, "tokens"), "tokens")]
     ELSE [y EXCEPT !.w = [@ EXCEPT ![from] = [@ EXCEPT !.amt = (@ -- amt), !.lam = IF f.nat THEN (@ -- amt) ELSE @],
                                    ![to] = [@ EXCEPT !.amt = (@ ++ amt), !.lam = IF f.nat THEN (@ ++ amt) ELSE @]],
                    !.x = Tag(@, "xfer")]

\* pay lots out of the vaults to the accounts at i, i+1
PayOut(y, c, i, m, rel) ==
  Xfer(Xfer(y, m.qm.vault, Nm(c, i + 1), (rel.q ** m.qls)),
       m.bm.vault, Nm(c, i), (rel.b ** m.bls))
\* pull lots in
PullIn(y, c, i, m, q, b) ==
  Xfer(Xfer(y, Nm(c, i + 1), m.qm.vault, (q ** m.qls)),
       Nm(c, i), m.bm.vault, (b ** m.bls))

Finish(w, c, y, ret) ==
  Commit(w, c, y.x, [y.w EXCEPT ![MarketName(c)] = Bump(y.x.m)], ret)

-----------------------------------------------------------------------------
(* Placing                                                                *)
AvailQ(w, c, m, t, iv) ==
  (m.tr[t].qf ++ (IF iv = 0 THEN Z ELSE (w[Nm(c, iv + 1)].amt // m.qls)))
AvailB(w, c, m, t, iv) ==
  (m.tr[t].bf ++ (IF iv = 0 THEN Z ELSE (w[Nm(c, iv)].amt // m.bls)))

\* iv: index of the first token account, 0 when only deposited funds are used
NewOrder(w, c, iv) ==
  LET m == w[MarketName(c)]
      p == c.a
      t == Signer(c)
      x0 == Start(m)
      px == p.px[1]
      aq == AvailQ(w, c, m, t, iv)
      ab == AvailB(w, c, m, t, iv)
      sure == /\ Fits(aq) /\ Fits(ab)
              /\ p.side = "B" => AdjFits(m, px, p.bl)
      short == IF p.side = "A" THEN (ab \prec p.bl)
               ELSE (aq \prec Quote(m, px, p.bl))
      r == Place(x0, t, p, c.slot, c.ts)
      x1 == IF r.x.ok /\ r.trade /\ ~CrossAllowed(m.st)
            THEN Tag(Bad(r.x, "status"), "status") ELSE r.x
      y0 == [x |-> x1, w |-> w]
      y1 == IF p.side = "B"
            THEN PullIn(PayOut(y0, c, iv, m, [q |-> Z, b |-> r.out]), c, iv, m, r.dep, Z)
            ELSE PullIn(PayOut(y0, c, iv, m, [q |-> r.out, b |-> Z]), c, iv, m, Z, r.dep)
      y2 == IF iv = 0 THEN [y0 EXCEPT !.x = Need(@, r.dep = Z, "funds")] ELSE y1
  IN IF p.fs /\ ~Registered(m, t) THEN Refuse(w, "unregistered", {})
     ELSE IF p.fs /\ ~sure THEN Refuse(w, "overflow", {})
     ELSE IF p.fs /\ short THEN Done(w, c, Tag(x0, "silent"), <<>>)
     ELSE Finish(w, c, y2, r.id)

OrderArgOk(a) == "bad" \notin DOMAIN a

Swap(w, c) ==
  LET m == w[MarketName(c)]
  IN IF ~CrossAllowed(m.st) THEN Refuse(w, "status", {"status"})
     ELSE IF ~VaultsOk(w, c, 5, m, Signer(c)) THEN Refuse(w, "acct", {})
     ELSE IF ~OrderArgOk(c.a) THEN Refuse(w, "decode", {})
     ELSE IF c.a.kind # "IOC" THEN Refuse(w, "kind", {})
     ELSE IF c.a.uof THEN Refuse(w, "uof", {})
     ELSE NewOrder(w, c, 5)

\* seat-holding senders: Place = limit or post only, else swap
Seated(w, c, swap, iv) ==
  LET m == w[MarketName(c)]
      t == Signer(c)
  IN IF IF swap THEN ~CrossAllowed(m.st) ELSE ~PostAllowed(m.st)
     THEN Refuse(w, "status", {"status"})
     ELSE IF ~SeatRecOk(w, c, 5, MarketName(c), t) THEN Refuse(w, "seat", {"seat"})
     ELSE IF w[Nm(c, 5)].st # "AP" THEN Refuse(w, "seatstatus", {"seat"})
     ELSE IF iv # 0 /\ ~VaultsOk(w, c, iv, m, t) THEN Refuse(w, "acct", {})
     ELSE IF ~OrderArgOk(c.a) THEN Refuse(w, "decode", {})
     ELSE IF (c.a.kind = "IOC") # swap THEN Refuse(w, "kind", {})
     ELSE IF c.a.uof # (iv = 0) THEN Refuse(w, "uof", {})
     ELSE NewOrder(w, c, iv)

\* one order of a batch, as the post-only order it stands for
AsPacket(o, s, a, ff) ==
  [kind |-> "PO", side |-> s, px |-> <<o.px>>, bl |-> o.sz, ql |-> Z, minb |-> Z, minq |-> Z,
   stb |-> "AB", ml |-> <<>>, coid |-> Opt(a.coid, Z), rej |-> a.beh \in {1, 3}, uof |-> ff,
   lvs |-> o.lvs, lvt |-> o.lvt, fs |-> a.beh \in {2, 3}]

SortBy(os, s) ==          \* most aggressive first, otherwise in the given order
  LET RECURSIVE Ins(_, _)
      Ins(acc, rest) ==
        IF rest = <<>> THEN acc
        ELSE LET o == Head(rest)
                 n == Len(SelectSeq(acc, LAMBDA r : ~Better(s, o.px, r.px)))
             IN Ins(SubSeq(acc, 1, n) \o <<o>> \o SubSeq(acc, n + 1, Len(acc)), Tail(rest))
  IN Ins(<<>>, os)

SameKey(o, r) == o.px = r.px /\ o.lvs = r.lvs /\ o.lvt = r.lvt
Merge(os) ==              \* adjacent entries with equal price and limits become one
  LET RECURSIVE Mg(_, _)
      Mg(acc, rest) ==
        IF rest = <<>> THEN acc
        ELSE LET o == Head(rest)
                 l == acc[Len(acc)]
             IN IF acc # <<>> /\ SameKey(o, l)
                THEN Mg([acc EXCEPT ![Len(acc)].sz = (@ ++ o.sz)], Tail(rest))
                ELSE Mg(Append(acc, o), Tail(rest))
  IN Mg(<<>>, os)

\* z = [x, aq, ab, q, b, ids]: available lots, deposits owed so far, ids
RECURSIVE PlaceAll(_, _, _, _, _, _, _)
PlaceAll(z, t, os, s, a, ff, c) ==
  IF os = <<>> \/ ~z.x.ok THEN z
  ELSE
  LET o == Head(os)
      p == AsPacket(o, s, a, ff)
      skips == a.beh \in {2, 3}
      m == z.x.m
      sure == Fits(o.sz) /\ (s = "B" => AdjFits(m, o.px, o.sz))
      short == IF s = "A" THEN (z.ab \prec o.sz) ELSE (z.aq \prec Quote(m, o.px, o.sz))
      r == Place(z.x, t, p, c.slot, c.ts)
      spent == (r.dep ++ r.used)
      have == IF s = "B" THEN z.aq ELSE z.ab
      x1 == Need(Need(r.x, ~skips \/ (spent \preceq have), "overflow"),
                 Fits((IF s = "B" THEN z.q ELSE z.b) ++ r.dep), "overflow")
      z1 == [z EXCEPT !.x = x1, !.ids = @ \o r.id,
                      !.aq = IF skips /\ s = "B" THEN (@ -- spent) ELSE @,
                      !.ab = IF skips /\ s = "A" THEN (@ -- spent) ELSE @,
                      !.q = IF s = "B" THEN (@ ++ r.dep) ELSE @,
                      !.b = IF s = "A" THEN (@ ++ r.dep) ELSE @]
  IN IF ~Fits(o.sz) THEN [z EXCEPT !.x = Bad(@, "overflow")]
     ELSE IF skips /\ ~sure THEN [z EXCEPT !.x = Bad(@, "overflow")]
     ELSE IF skips /\ short
     THEN PlaceAll([z EXCEPT !.x = Tag(@, "skip")], t, Tail(os), s, a, ff, c)
     ELSE IF ~x1.ok THEN [z EXCEPT !.x = x1]
     ELSE PlaceAll(z1, t, Tail(os), s, a, ff, c)

Best(os, s, d) == IF os = <<>> THEN d ELSE SortBy(os, s)[1].px

Multi(w, c, iv) ==
  LET m == w[MarketName(c)]
      t == Signer(c)
      a == c.a
      ff == iv = 0
      aq == AvailQ(w, c, m, t, iv)
      ab == AvailB(w, c, m, t, iv)
      bs == Merge(SortBy(a.bids, "B"))
      as == Merge(SortBy(a.asks, "A"))
      z0 == [x |-> Start(m), aq |-> aq, ab |-> ab, q |-> Z, b |-> Z, ids |-> <<>>]
      z == PlaceAll(PlaceAll(z0, t, bs, "B", a, ff, c), t, as, "A", a, ff, c)
      y0 == [x |-> z.x, w |-> w]
      y1 == IF ff THEN [y0 EXCEPT !.x = Need(@, z.q = Z /\ z.b = Z, "funds")]
            ELSE PullIn(y0, c, iv, m, z.q, z.b)
      tg == IF Len(bs) # Len(a.bids) \/ Len(as) # Len(a.asks) THEN Tag(y1.x, "merge") ELSE y1.x
  IN IF ~PostAllowed(m.st) THEN Refuse(w, "status", {"status"})
     ELSE IF ~SeatRecOk(w, c, 5, MarketName(c), t) THEN Refuse(w, "seat", {"seat"})
     ELSE IF w[Nm(c, 5)].st # "AP" THEN Refuse(w, "seatstatus", {"seat"})
     ELSE IF iv # 0 /\ ~VaultsOk(w, c, iv, m, t) THEN Refuse(w, "acct", {})
     ELSE IF ~OrderArgOk(a) THEN Refuse(w, "decode", {})
     ELSE IF (Best(a.asks, "A", U64MAX) \preceq Best(a.bids, "B", Z)) THEN Refuse(w, "crossed", {})
     ELSE IF ~Registered(m, t) THEN Refuse(w, "unregistered", {})
     ELSE IF ~(Fits(aq) /\ Fits(ab)) THEN Refuse(w, "overflow", {})
     ELSE Finish(w, c, [y1 EXCEPT !.x = tg], z.ids)

-----------------------------------------------------------------------------
(* Reducing, cancelling, withdrawing, depositing. ff: free funds only     *)
Reducing(w, c, ff, Body(_)) ==
  LET m == w[MarketName(c)]
  IN IF ~ff /\ ~ReduceAllowed(m.st) THEN Refuse(w, "status", {"status"})
     ELSE IF ~ff /\ ~VaultsOk(w, c, 5, m, Signer(c)) THEN Refuse(w, "acct", {})
     ELSE IF ~OrderArgOk(c.a) THEN Refuse(w, "decode", {})
     ELSE Body(m)

\* claim what was released and pay it out, unless free funds only
Release(w, c, ff, t, x, rel, i) ==
  LET m == x.m
      k == Claim(x, t, rel.q, rel.b)
  IN IF ~x.ok \/ ff THEN Done(w, c, x, <<>>)
     ELSE Finish(w, c, PayOut([x |-> k.x, w |-> w], c, i, m, k.rel), <<>>)

Reduce(w, c, ff) ==
  LET Body(m) ==
        LET t == Signer(c)
            a == c.a
            i == PosOf(Side(m, a.side), a.px, a.seq)
            o == Side(m, a.side)[i]
            n == Min(a.sz, o.sz)
            x == Tag(ReduceAt(Start(m), a.side, i, a.sz), "reduce")
        IN IF ~Registered(m, t) THEN Refuse(w, "unregistered", {})
           ELSE IF i = 0 THEN Done(w, c, Tag(Start(m), "unknown"), <<>>)
           ELSE IF o.tr # t THEN Refuse(w, "owner", {"owner"})
           ELSE Release(w, c, ff, t, x,
                  IF a.side = "B" THEN [q |-> Quote(m, o.px, n), b |-> Z]
                                  ELSE [q |-> Z, b |-> n], 5)
  IN Reducing(w, c, ff, Body)

CancelSet(w, c, ff, Ids(_)) ==
  LET Body(m) ==
        LET t == Signer(c)
            r == CancelIds(Start(m), t, Ids(m), NoFunds)
        IN IF ~Registered(m, t) THEN Done(w, c, Start(m), <<>>)
           ELSE Release(w, c, ff, t, r.x, r.rel, 5)
  IN Reducing(w, c, ff, Body)

CancelAll(w, c, ff) ==
  LET Ids(m) == IdsOf(Own(m, "B", Signer(c)), "B") \o IdsOf(Own(m, "A", Signer(c)), "A")
  IN CancelSet(w, c, ff, Ids)

CancelUpTo(w, c, ff) ==
  LET Ids(m) == UpToIds(m, Signer(c), c.a)
  IN CancelSet(w, c, ff, Ids)

CancelById(w, c, ff) ==
  LET good == SelectSeq(c.a.ids, LAMBDA d : d.side = SideOfSeq(d.seq))
      Ids(m) == [i \in 1..Len(good) |-> [s |-> good[i].side, px |-> good[i].px, seq |-> good[i].seq]]
  IN CancelSet(w, c, ff, Ids)

Withdraw(w, c) ==
  LET Body(m) ==
        LET t == Signer(c)
            st == m.tr[t]
        IN IF ~Registered(m, t) THEN Refuse(w, "unregistered", {})
           ELSE Release(w, c, FALSE, t, Start(m),
                        [q |-> Opt(c.a.q, st.qf), b |-> Opt(c.a.b, st.bf)], 5)
  IN Reducing(w, c, FALSE, Body)

Deposit(w, c) ==
  LET m == w[MarketName(c)]
      t == Signer(c)
      a == c.a
      x1 == IF Registered(m, t) THEN Start(m)
            ELSE IF SeatsFull(m) THEN Bad(Start(m), "seats")
            ELSE [Start(m) EXCEPT !.m.tr = With(@, t, ZeroState)]
      st == x1.m.tr[t]
      x2 == Need(x1, Fits(st.qf ++ a.q) /\ Fits(st.bf ++ a.b), "overflow")
      x3 == SetTr(x2, t, [st EXCEPT !.qf = (@ ++ a.q), !.bf = (@ ++ a.b)])
  IN IF ~PostAllowed(m.st) THEN Refuse(w, "status", {"status"})
     ELSE IF ~SeatRecOk(w, c, 5, MarketName(c), t) THEN Refuse(w, "seat", {"seat"})
     ELSE IF w[Nm(c, 5)].st # "AP" THEN Refuse(w, "seatstatus", {"seat"})
     ELSE IF ~VaultsOk(w, c, 6, m, t) THEN Refuse(w, "acct", {})
     ELSE IF ~OrderArgOk(a) THEN Refuse(w, "decode", {})
     ELSE IF ~x1.ok THEN Refuse(w, x1.why, {})
     ELSE IF ~x2.ok THEN Refuse(w, x2.why, {})
     ELSE Finish(w, c, PullIn([x |-> x3, w |-> w], c, 6, m, a.q, a.b), <<>>)

-----------------------------------------------------------------------------
(* The market authority                                                   *)
\* accounts: trader, its seat, then the trader's token accounts and vaults
Forced(w, c, Body(_, _)) ==
  LET m == w[MarketName(c)]
      t == Nm(c, 5)
  IN IF m.auth # Signer(c) THEN Refuse(w, "auth", {"auth"})
     ELSE IF ~HasAcc(c, 5) THEN Refuse(w, "acct", {})
     ELSE IF ~SeatRecOk(w, c, 6, MarketName(c), t) THEN Refuse(w, "seat", {"seat"})
     ELSE IF w[Nm(c, 6)].st = "AP" THEN Refuse(w, "seatstatus", {"seat"})
     ELSE IF ~VaultsOk(w, c, 7, m, t) THEN Refuse(w, "acct", {})
     ELSE Body(m, t)

EvictSeat(w, c) ==
  LET Body(m, t) ==
        LET st == m.tr[t]
            x == Start(m)
            x1 == [x EXCEPT !.m.tr = Without(@, t)]
        IN IF ~Registered(m, t) THEN Refuse(w, "unregistered", {})
           ELSE IF st.ql # Z \/ st.bl # Z THEN Refuse(w, "locked", {"locked"})
           ELSE Finish(w, c, PayOut([x |-> Tag(x1, "unseat"), w |-> w], c, 7, m,
                                    [q |-> st.qf, b |-> st.bf]), <<>>)
  IN Forced(w, c, Body)

ForceCancel(w, c) ==
  LET Body(m, t) ==
        LET r == CancelIds(Start(m), t, UpToIds(m, t, c.a), NoFunds)
        IN IF ~OrderArgOk(c.a) THEN Refuse(w, "decode", {})
           ELSE IF ~Registered(m, t) THEN Done(w, c, Start(m), <<>>)
           ELSE Release(w, c, FALSE, t, r.x, r.rel, 7)
  IN Forced(w, c, Body)

NameSuccessor(w, c) ==
  LET m == w[MarketName(c)]
  IN IF m.auth # Signer(c) THEN Refuse(w, "auth", {"auth"})
     ELSE IF ~OrderArgOk(c.a) THEN Refuse(w, "decode", {})
     ELSE Done(w, c, Start([m EXCEPT !.succ = c.a.succ]), <<>>)

ClaimAuthority(w, c) ==
  LET m == w[MarketName(c)]
  IN IF m.succ # Signer(c) THEN Refuse(w, "auth", {"auth"})
     ELSE Done(w, c, Start([m EXCEPT !.auth = Signer(c)]), <<>>)

ChangeMarketStatus(w, c) ==
  LET m == w[MarketName(c)]
      mn == MarketName(c)
      nx == c.a.st
      rcv == IF HasAcc(c, 5) THEN Nm(c, 5) ELSE Signer(c)
      gone == [k |-> "raw", own |-> "system", lam |-> Z, len |-> Z, zero |-> TRUE]
      w1 == [w EXCEPT ![rcv] = [@ EXCEPT !.lam = (@ ++ m.lam)]]
      w2 == [w1 EXCEPT ![mn] = gone]
  IN IF m.auth # Signer(c) THEN Refuse(w, "auth", {"auth"})
     ELSE IF ~OrderArgOk(c.a) THEN Refuse(w, "decode", {})
     ELSE IF <<m.st, nx>> \notin StatusSteps THEN Refuse(w, "transition", {})
     ELSE IF nx # "TO" THEN Done(w, c, Start([m EXCEPT !.st = nx]), <<>>)
     ELSE IF m.bids # <<>> \/ m.asks # <<>> THEN Refuse(w, "notempty", {"close"})
     ELSE IF m.unc # Z THEN Refuse(w, "fees", {"close"})
     ELSE IF DOMAIN m.tr # {} THEN Refuse(w, "traders", {"close"})
     ELSE IF ~Fits(w1[rcv].lam) THEN Refuse(w, "overflow", {"close"})
     ELSE Commit(w, c, Tag(Start(m), "close"), w2, <<>>)

-----------------------------------------------------------------------------
(* Seats                                                                  *)
\* create the account nm of len bytes, paid by payer up to the rent
CanPay(w, payer, amt) ==
  amt = Z \/ (w[payer].own = "system" /\ w[payer].len = Z /\ (amt \preceq w[payer].lam))
Due(w, nm, len) == IF w[nm].lam = Z THEN RentFor(len) ELSE SatSub(RentFor(len), w[nm].lam)
Funded(w, payer, nm, len, rec) ==
  LET due == Due(w, nm, len)
      w1 == [w EXCEPT ![payer] = [@ EXCEPT !.lam = (@ -- due)]]
  IN [w1 EXCEPT ![nm] = [lam |-> (w[nm].lam ++ due)] @@ rec]
Empty(r) == r.k = "raw" /\ r.own = "system" /\ r.len = Z

NewSeat(w, c, payer, t, i) ==
  LET mn == MarketName(c)
      m == w[mn]
      nm == Nm(c, i)
      rec == [k |-> "seat", own |-> "phoenix", market |-> mn, trader |-> t, st |-> "NA"]
      w1 == Funded(w, payer, nm, SeatLen, rec)
      x == Tag(Start(m), IF w[nm].lam = Z THEN "seat" ELSE "prefunded")
  IN IF ~HasAcc(c, i + 1) THEN Refuse(w, "acct", {})
     ELSE IF ~Empty(w[nm]) THEN Refuse(w, "exists", {"seat"})
     ELSE IF Nm(c, i + 1) # "system" THEN Refuse(w, "acct", {})
     ELSE IF nm # SeatAddr(mn, t) THEN Refuse(w, "seataddr", {"seat"})
     ELSE IF ~CanPay(w, payer, Due(w, nm, SeatLen)) THEN Refuse(w, "rent", {"seat"})
     ELSE Commit(w, c, x, [w1 EXCEPT ![mn] = Bump(m)], <<>>)

RequestSeat(w, c) ==
  IF ~PostAllowed(w[MarketName(c)].st) THEN Refuse(w, "status", {"status"})
  ELSE NewSeat(w, c, Signer(c), Signer(c), 5)

RequestSeatAuthorized(w, c) ==
  IF w[MarketName(c)].auth # Signer(c) THEN Refuse(w, "auth", {"auth"})
  ELSE IF ~HasAcc(c, 6) THEN Refuse(w, "acct", {})
  ELSE IF ~(c.accs[5].s /\ c.accs[5].w) THEN Refuse(w, "signer", {"seat"})
  ELSE NewSeat(w, c, Nm(c, 5), Nm(c, 6), 7)

ChangeSeatStatus(w, c) ==
  LET mn == MarketName(c)
      m == w[mn]
      sn == Nm(c, 5)
      seat == w[sn]
      t == seat.trader
      nx == c.a.st
      same == seat.st = nx
      x == IF same \/ nx # "AP" \/ Registered(m, t) THEN Start(m)
           ELSE IF SeatsFull(m) THEN Tag(Bad(Start(m), "seats"), "seats")
           ELSE Tag([Start(m) EXCEPT !.m.tr = With(@, t, ZeroState)], "register")
      w1 == [w EXCEPT ![sn] = [@ EXCEPT !.st = nx]]
  IN IF m.auth # Signer(c) THEN Refuse(w, "auth", {"auth"})
     ELSE IF ~HasAcc(c, 5) THEN Refuse(w, "acct", {})
     ELSE IF seat.k # "seat" THEN Refuse(w, "seat", {"seat"})
     ELSE IF ~SeatRecOk(w, c, 5, mn, t) THEN Refuse(w, "seat", {"seat"})
     ELSE IF ~OrderArgOk(c.a) THEN Refuse(w, "decode", {})
     ELSE IF ~same /\ <<seat.st, nx>> \notin SeatSteps THEN Refuse(w, "transition", {"seat"})
     ELSE Commit(w, c, x, [w1 EXCEPT ![mn] = Bump(x.m)], <<>>)

-----------------------------------------------------------------------------
(* Fees                                                                   *)
CollectFees(w, c) ==
  LET m == w[MarketName(c)]
      x == Tag(Log([Start(m) EXCEPT !.m.col = (@ ++ m.unc), !.m.unc = Z], EvFee(m.unc)), "collect")
      x1 == Need(x, Fits(m.col ++ m.unc), "overflow")
  IN IF ~(HasAcc(c, 7) /\ TokOk(w, c, 5, m.qm.mint, m.fr)
          /\ Nm(c, 6) = m.qm.vault /\ TokOk(w, c, 6, m.qm.mint, m.qm.vault)
          /\ Nm(c, 7) = "token") THEN Refuse(w, "acct", {})
     ELSE Finish(w, c, Xfer([x |-> x1, w |-> w], m.qm.vault, Nm(c, 5), (m.unc ** m.qls)), <<>>)

ChangeFeeRecipient(w, c) ==
  LET m == w[MarketName(c)]
  IN IF m.auth # Signer(c) THEN Refuse(w, "auth", {"auth"})
     ELSE IF ~HasAcc(c, 5) THEN Refuse(w, "acct", {})
     ELSE IF m.unc # Z /\ ~(HasAcc(c, 6) /\ Nm(c, 6) = m.fr /\ c.accs[6].s)
     THEN Refuse(w, "recipient", {"recipient"})
     ELSE Done(w, c, Start([m EXCEPT !.fr = Nm(c, 5)]), <<>>)

-----------------------------------------------------------------------------
(* Initialization                                                         *)
RECURSIVE Pow10(_)
Pow10(d) == IF d = Z THEN One ELSE (N(10) ** Pow10(d -- One))

InitMarket(w, c) ==
  LET mn == MarketName(c)
      r == w[mn]
      a == c.a
      bm == w[Nm(c, 5)]
      qm == w[Nm(c, 6)]
      cr == Signer(c)
      raw == Opt(a.raw, One)
      unit == (Pow10(bm.dec) ** raw)
      qunit == Pow10(qm.dec)
      bls == (unit // a.nb)
      qls == (qunit // a.nq)
      bv == Nm(c, 7)
      qv == Nm(c, 8)
      \* what a wrapped SOL account holds beyond its rent is its balance
      tok(v, mint) == [k |-> "tok", own |-> "token", mint |-> mint, auth |-> v, fz |-> FALSE, nat |-> w[mint].nat,
                       amt |-> IF w[mint].nat THEN SatSub(w[v].lam, RentFor(TokenLen)) ELSE Z]
      w1 == Funded(w, cr, bv, TokenLen, tok(bv, Nm(c, 5)))
      w2 == Funded(w1, cr, qv, TokenLen, tok(qv, Nm(c, 6)))
      m == [k |-> "market", own |-> "phoenix", lam |-> r.lam, len |-> r.len, st |-> "PO",
            size |-> [b |-> a.b, a |-> a.a, s |-> a.s],
            bm |-> [dec |-> bm.dec, mint |-> Nm(c, 5), vault |-> bv],
            qm |-> [dec |-> qm.dec, mint |-> Nm(c, 6), vault |-> qv],
            bls |-> bls, qls |-> qls, tqa |-> (qls ** a.tick),
            auth |-> cr, fr |-> a.col, succ |-> cr, mseq |-> Z, raw |-> raw,
            T |-> a.tick, B |-> a.nb, fee |-> a.fee, oseq |-> One, col |-> Z, unc |-> Z,
            bids |-> <<>>, asks |-> <<>>, tr |-> <<>>]
  IN IF ~(r.k = "raw" /\ r.own = "phoenix" /\ r.zero /\ (N(576) \preceq r.len))
     THEN Refuse(w, "market", {"init"})
     ELSE IF ~c.accs[4].s THEN Refuse(w, "signer", {"init"})
     ELSE IF ~(HasAcc(c, 10) /\ bm.k = "mint" /\ bm.own = "token" /\ qm.k = "mint" /\ qm.own = "token"
               /\ Empty(w[bv]) /\ Empty(w[qv]) /\ Nm(c, 9) = "system" /\ Nm(c, 10) = "token")
     THEN Refuse(w, "acct", {"init"})
     ELSE IF ~OrderArgOk(a) THEN Refuse(w, "decode", {})
     ELSE IF ~(a.fee \preceq BPS) THEN Refuse(w, "feerate", {"init"})
     ELSE IF ~Fits(unit) \/ ~Fits(qunit) THEN Refuse(w, "overflow", {"init"})
     ELSE IF a.nb = Z \/ a.nq = Z \/ raw = Z \/ a.tick = Z THEN Refuse(w, "zero", {"init"})
     ELSE IF (unit %% a.nb) # Z \/ (qunit %% a.nq) # Z THEN Refuse(w, "lots", {"init"})
     ELSE IF ~Fits(qls ** a.tick) THEN Refuse(w, "overflow", {"init"})
     ELSE IF (a.tick %% a.nb) # Z THEN Refuse(w, "tick", {"init"})
     ELSE IF bv # VaultAddr(mn, Nm(c, 5)) \/ qv # VaultAddr(mn, Nm(c, 6)) \/ bv = qv
     THEN Refuse(w, "vaultaddr", {"init"})
     ELSE IF <<a.b, a.a, a.s>> \notin Sizes THEN Refuse(w, "sizes", {"init"})
     ELSE IF r.len # MarketLen(a.b, a.a, a.s) THEN Refuse(w, "length", {"init"})
     ELSE IF ~CanPay(w, cr, Due(w, bv, TokenLen)) \/ ~CanPay(w1, cr, Due(w1, qv, TokenLen))
     THEN Refuse(w, "rent", {"init"})
     ELSE Commit(w, c, Tag(Start(m), "init"), [w2 EXCEPT ![mn] = Bump(m)], <<>>)

-----------------------------------------------------------------------------
Dispatch(w, c) ==
  CASE c.ix = "Swap"             -> Swap(w, c)
    [] c.ix = "SwapFF"           -> Seated(w, c, TRUE, 0)
    [] c.ix = "PlaceLimit"       -> Seated(w, c, FALSE, 6)
    [] c.ix = "PlaceLimitFF"     -> Seated(w, c, FALSE, 0)
    [] c.ix = "Multi"            -> Multi(w, c, 6)
    [] c.ix = "MultiFF"          -> Multi(w, c, 0)
    [] c.ix = "Reduce"           -> Reduce(w, c, FALSE)
    [] c.ix = "ReduceFF"         -> Reduce(w, c, TRUE)
    [] c.ix = "CancelAll"        -> CancelAll(w, c, FALSE)
    [] c.ix = "CancelAllFF"      -> CancelAll(w, c, TRUE)
    [] c.ix = "CancelUpTo"       -> CancelUpTo(w, c, FALSE)
    [] c.ix = "CancelUpToFF"     -> CancelUpTo(w, c, TRUE)
    [] c.ix = "CancelById"       -> CancelById(w, c, FALSE)
    [] c.ix = "CancelByIdFF"     -> CancelById(w, c, TRUE)
    [] c.ix = "Withdraw"         -> Withdraw(w, c)
    [] c.ix = "Deposit"          -> Deposit(w, c)
    [] c.ix = "RequestSeat"      -> RequestSeat(w, c)
    [] c.ix = "RequestSeatAuthorized" -> RequestSeatAuthorized(w, c)
    [] c.ix = "ChangeSeatStatus" -> ChangeSeatStatus(w, c)
    [] c.ix = "EvictSeat"        -> EvictSeat(w, c)
    [] c.ix = "ForceCancel"      -> ForceCancel(w, c)
    [] c.ix = "NameSuccessor"    -> NameSuccessor(w, c)
    [] c.ix = "ClaimAuthority"   -> ClaimAuthority(w, c)
    [] c.ix = "ChangeMarketStatus" -> ChangeMarketStatus(w, c)
    [] c.ix = "CollectFees"      -> CollectFees(w, c)
    [] c.ix = "ChangeFeeRecipient" -> ChangeFeeRecipient(w, c)
    [] OTHER                     -> Refuse(w, "tag", {})

Exec(w, c) ==
  IF c.ix = "Log"            \* only the program itself may log, through the log authority
  THEN Refuse(w, "log", {})
  ELSE IF ~HasAcc(c, 4) THEN Refuse(w, "acct", {})
  ELSE IF Nm(c, 1) # "phoenix" \/ Nm(c, 2) # "log" THEN Refuse(w, "acct", {})
  ELSE IF c.ix = "Init" THEN InitMarket(w, c)
  ELSE IF ~IsMarket(w[MarketName(c)]) THEN Refuse(w, "market", {})
  ELSE IF ~c.accs[4].s THEN Refuse(w, "signer", {})
  ELSE Dispatch(w, c)
=============================================================================
