-------------------------------- MODULE Steps -------------------------------
(* Action properties: what must hold of a single call, over the worlds    *)
(* before and after (w, w2), the call c and its outcome o = [ok, ev, ret].*)
(* They are stated without the operators that define the outcome, so that *)
(* they check the specification (in MC) as well as the program (in Judge).*)
EXTENDS Leave

LOCAL PlaceIx == {"Swap", "SwapFF", "PlaceLimit", "PlaceLimitFF"}
LOCAL MultiIx == {"Multi", "MultiFF"}
LOCAL CancelIx == {"Reduce", "ReduceFF", "CancelAll", "CancelAllFF", "CancelUpTo", "CancelUpToFF",
                   "CancelById", "CancelByIdFF"}
LOCAL FreeIx == {"SwapFF", "PlaceLimitFF", "MultiFF", "ReduceFF", "CancelAllFF", "CancelUpToFF", "CancelByIdFF"}

LOCAL Of(ev, t) == SelectSeq(ev, LAMBDA x : x.t = t)
RECURSIVE SumNums(_)
SumNums(s) == IF s = <<>> THEN Z ELSE (Head(s) ++ SumNums(Tail(s)))
LOCAL SumSeq(s, f(_)) == SumNums([i \in 1..Len(s) |-> f(s[i])])
LOCAL Lots(s) == LET f(x) == x.n IN SumSeq(s, f)
LOCAL OrdersOf(m) == {<<o.px, o.seq>> : o \in {m.bids[i] : i \in 1..Len(m.bids)} \cup {m.asks[i] : i \in 1..Len(m.asks)}}
LOCAL SideOrders(m, s) == {Side(m, s)[i] : i \in 1..Len(Side(m, s))}
LOCAL AllOrders(m) == SideOrders(m, "B") \cup SideOrders(m, "A")
LOCAL Named(m, px, seq) == CHOOSE o \in AllOrders(m) : o.px = px /\ o.seq = seq
LOCAL Total(m, t) == IF t \in DOMAIN m.tr THEN [q |-> (m.tr[t].ql ++ m.tr[t].qf), b |-> (m.tr[t].bl ++ m.tr[t].bf)]
                     ELSE [q |-> Z, b |-> Z]
LOCAL Row(m, x) == IF x \in DOMAIN m.tr THEN m.tr[x] ELSE [ql |-> Z, qf |-> Z, bl |-> Z, bf |-> Z]
LOCAL Toks(w) == {x \in DOMAIN w : w[x].k = "tok"}
LOCAL Atoms(w, x) == IF w[x].k = "tok" THEN w[x].amt ELSE Z
LOCAL Same(w, w2, x) == x \in DOMAIN w /\ x \in DOMAIN w2 /\ w[x] = w2[x]
\* the accounts a call names are the ones it can change
LOCAL Touch(c) == {c.accs[i].n : i \in 1..Len(c.accs)}
LOCAL SeatOf(w, mn, t) == w[SeatAddr(mn, t)]
LOCAL Summ(ev) == Of(ev, "Summary")

-----------------------------------------------------------------------------
(* One order that may take: k = [m, m2, p, t, ev, slot, ts]               *)

\* C04: makers are taken best first, at their own prices, within the limit,
\* each whole before the next, and nothing that could still be taken is left
LOCAL Lim(p) == IF p.px = <<>> THEN (IF p.side = "B" THEN U64MAX ELSE Z) ELSE p.px[1]
LOCAL Stale(p, slot, ts) ==
  (p.lvs # <<>> /\ (p.lvs[1] \prec slot)) \/ (p.lvt # <<>> /\ (p.lvt[1] \prec ts))
LOCAL Priority(k) ==
  LET F == Of(k.ev, "Fill")
      opp == Side(k.m, Opp(k.p.side))
      pos == [j \in 1..Len(F) |-> PosOf(opp, F[j].px, F[j].seq)]
      own == Lots(Of(k.ev, "Reduce"))
      taken == (Lots(F) ++ IF k.p.stb = "DT" THEN own ELSE Z)
      left == Live(Side(k.m2, Opp(k.p.side)), k.slot, k.ts)
      worth(x) == ((x.px ** k.m.T) ** x.n)
      spent == (SumSeq(F, worth) ++ SumSeq(Of(k.ev, "Reduce"), worth))
  IN /\ \A j \in 1..Len(F) :
          /\ pos[j] # 0 /\ opp[pos[j]].tr = F[j].maker
          /\ (F[j].n ++ F[j].rem) = opp[pos[j]].sz
          /\ Reaches(k.p.side, Lim(k.p), F[j].px)
          /\ j > 1 => pos[j - 1] < pos[j]
          /\ j < Len(F) => F[j].rem = Z
     /\ F # <<>> =>
          \A i \in 1..(pos[Len(F)] - 1) : <<opp[i].px, opp[i].seq>> \notin OrdersOf(k.m2)
     /\ (/\ k.p.kind # "PO" /\ ~Stale(k.p, k.slot, k.ts)
         /\ k.ev = <<>> => ~k.p.fs          \* it may have given up silently
         /\ k.p.ql = Z /\ k.p.ml = <<>> /\ (taken \prec k.p.bl) /\ left # <<>>
         \* what an order can trade in all is bounded by what 64 bits hold
         /\ ((spent ++ (left[1].px ** k.m.T)) \preceq U64MAX)) =>
          ~Reaches(k.p.side, Lim(k.p), left[1].px)
     /\ (k.p.bl # Z) => (taken \preceq k.p.bl)

\* C05: an order that does not rest stays within what it names
LOCAL Bounded(k) ==
  LET F == Of(k.ev, "Fill")
      S == Summ(k.ev)
      n == Len(F) + Len(Of(k.ev, "Expired")) + Len(Of(k.ev, "Reduce"))
  IN /\ Of(k.ev, "Place") = <<>> /\ k.m2.oseq = k.m.oseq
     /\ Len(S) = 1 =>
          /\ S[1].base = Lots(F)
          /\ k.p.bl # Z => (S[1].base \preceq k.p.bl)
          /\ (k.p.ql # Z /\ k.p.side = "B") => (S[1].quote \preceq k.p.ql)
          /\ (k.p.minb \preceq S[1].base) /\ (k.p.minq \preceq S[1].quote)
          /\ k.p.ml # <<>> => (N(n) \preceq k.p.ml[1])

\* C06: the fee is the least whole number of lots that is not below the rate
\* on what was traded with others, and it is what the parties' sums differ by
LOCAL FeeRight(k) ==
  LET F == Of(k.ev, "Fill")
      S == Summ(k.ev)
      f(x) == ((x.px ** k.m.T) ** x.n)
      adj == SumSeq(F, f)
      unit == (k.m.B ** BPS)
  IN IF S = <<>> THEN F = <<>> /\ k.m2.unc = k.m.unc
     ELSE /\ Len(S) = 1
          /\ ((adj ** k.m.fee) \preceq (S[1].fee ** unit))
          /\ S[1].fee # Z => (((S[1].fee -- One) ** unit) \prec (adj ** k.m.fee))
          /\ k.m2.unc = (k.m.unc ++ S[1].fee)
          /\ (S[1].quote ** k.m.B) =
               IF k.p.side = "B" THEN (adj ++ (S[1].fee ** k.m.B)) ELSE (adj -- (S[1].fee ** k.m.B))

\* C09: nobody trades with themselves
LOCAL NoSelf(k) ==
  LET opp == Opp(k.p.side)
      mine(m) == {o \in SideOrders(m, opp) : o.tr = k.t}
      gone == mine(k.m) \ mine(k.m2)
      R == Of(k.ev, "Reduce")
  IN /\ \A i \in 1..Len(k.ev) : k.ev[i].t = "Fill" => k.ev[i].maker # k.t
     \* abort: own orders are only ever removed because they had expired
     /\ k.p.stb = "AB" => (\A o \in gone : Dead(o, k.slot, k.ts)) /\ R = <<>>
     \* cancel: an own order is left alone or removed
     /\ k.p.stb = "CP" => \A o \in gone : <<o.px, o.seq>> \notin OrdersOf(k.m2)
     /\ \A i \in 1..Len(R) : \E o \in mine(k.m) : o.seq = R[i].seq /\ (R[i].n ++ R[i].rem) = o.sz

\* C10: expired orders do not trade, and only they are thrown out
LOCAL Fresh(k) ==
  LET placed == Of(k.ev, "Place")
  IN /\ \A i \in 1..Len(k.ev) :
          /\ (k.ev[i].t = "Fill" /\ <<k.ev[i].px, k.ev[i].seq>> \in OrdersOf(k.m)) =>
               ~Dead(Named(k.m, k.ev[i].px, k.ev[i].seq), k.slot, k.ts)
          /\ k.ev[i].t = "Expired" =>
               /\ <<k.ev[i].px, k.ev[i].seq>> \in OrdersOf(k.m)
               /\ Dead(Named(k.m, k.ev[i].px, k.ev[i].seq), k.slot, k.ts)
LOCAL FreshOne(k) ==
  LET P == Of(k.ev, "Place")
  IN /\ Stale(k.p, k.slot, k.ts) =>
          k.ev = <<>> /\ AllOrders(k.m) = AllOrders(k.m2)
     /\ \A i \in 1..Len(P) : <<P[i].px, P[i].seq>> \in OrdersOf(k.m2) =>
          LET o == Named(k.m2, P[i].px, P[i].seq)
          IN o.lvs = Opt(k.p.lvs, Z) /\ o.lvt = Opt(k.p.lvt, Z)

\* C08: a post-only order takes nothing; where it may move it moves away
LOCAL OnlyPosts(k) ==
  /\ Of(k.ev, "Fill") = <<>> /\ Summ(k.ev) = <<>> /\ k.m2.unc = k.m.unc
LOCAL PostsAt(k) ==
  LET P == Of(k.ev, "Place")
      opp == Live(Side(k.m, Opp(k.p.side)), k.slot, k.ts)
      want == IF k.p.side = "B" THEN k.p.px[1] ELSE Max(k.p.px[1], One)
      hit == opp # <<>> /\ Reaches(k.p.side, want, opp[1].px)
  IN \A i \in 1..Len(P) :
       /\ P[i].n = k.p.bl
       /\ IF ~hit THEN P[i].px = want
          ELSE /\ ~k.p.rej
               /\ IF k.p.side = "B" THEN (P[i].px ++ One) = opp[1].px ELSE P[i].px = (opp[1].px ++ One)

\* C14: only the worst order of a full side gives way, to a better one
LOCAL EvictsWorst(k) ==
  \A i \in 1..Len(k.ev) : k.ev[i].t = "Evict" =>
     LET b == Side(k.m, k.p.side)
         e == k.ev[i]
         P == Of(k.ev, "Place")
     IN /\ N(Len(b)) = Cap(k.m, k.p.side)
        /\ <<e.px, e.seq>> = <<b[Len(b)].px, b[Len(b)].seq>> /\ e.n = b[Len(b)].sz
        /\ Len(P) = 1 /\ Better(k.p.side, P[1].px, e.px)
LOCAL EvictsForBetter(ev) ==
  \A i \in 1..Len(ev) : ev[i].t = "Evict" =>
     \E j \in (i + 1)..Len(ev) : ev[j].t = "Place" /\ Better(SideOfSeq(ev[i].seq), ev[j].px, ev[i].px)
                                 /\ SideOfSeq(ev[j].seq) = SideOfSeq(ev[i].seq)

-----------------------------------------------------------------------------
(* C21: the book afterwards can be told from the book before and the log  *)
LOCAL WithoutOrder(b, px, seq) == SelectSeq(b, LAMBDA o : ~(o.px = px /\ o.seq = seq))
LOCAL Resize(b, px, seq, n) == [i \in 1..Len(b) |-> IF b[i].px = px /\ b[i].seq = seq THEN [b[i] EXCEPT !.sz = n] ELSE b[i]]
LOCAL OnSide(z, s, F(_)) == IF s = "B" THEN [z EXCEPT !.b = F(@)] ELSE [z EXCEPT !.a = F(@)]
RECURSIVE Retell(_, _, _)
Retell(z, ev, t) ==
  IF ev = <<>> THEN z
  ELSE LET e == Head(ev)
           cut(b) == WithoutOrder(b, e.px, e.seq)
           less(b) == IF e.rem = Z THEN WithoutOrder(b, e.px, e.seq) ELSE Resize(b, e.px, e.seq, e.rem)
           add(b) == Insert(b, SideOfSeq(e.seq), [px |-> e.px, seq |-> e.seq, tr |-> t, sz |-> e.n, lvs |-> Z, lvt |-> Z])
           tif(b) == [i \in 1..Len(b) |-> IF b[i].seq = e.seq THEN [b[i] EXCEPT !.lvs = e.lvs, !.lvt = e.lvt] ELSE b[i]]
           z2 == CASE e.t \in {"Fill", "Reduce"} -> OnSide(z, SideOfSeq(e.seq), less)
                   [] e.t \in {"Evict", "Expired"} -> OnSide(z, SideOfSeq(e.seq), cut)
                   [] e.t = "Place" -> OnSide(z, SideOfSeq(e.seq), add)
                   [] e.t = "Tif" -> OnSide(z, SideOfSeq(e.seq), tif)
                   [] OTHER -> z
       IN Retell(z2, Tail(ev), t)
LOCAL Told(m, m2, ev, t) ==
  LET z == Retell([b |-> m.bids, a |-> m.asks], ev, t) IN z.b = m2.bids /\ z.a = m2.asks

-----------------------------------------------------------------------------
(* C13: whoever did not act is paid exactly for what was taken from them, *)
(* and whoever did owes and gets what the log says                        *)
LOCAL MakerMoved(m, m2, ev, x) ==
  LET F == SelectSeq(ev, LAMBDA e : e.t = "Fill" /\ e.maker = x)
      bid(e) == SideOfSeq(e.seq) = "B"
      quote(e) == (((e.px ** m.T) ** e.n) // m.B)
      inq(e) == IF bid(e) THEN Z ELSE quote(e)
      outq(e) == IF bid(e) THEN quote(e) ELSE Z
      inb(e) == IF bid(e) THEN e.n ELSE Z
      outb(e) == IF bid(e) THEN Z ELSE e.n
      a == Total(m, x)
      b == Total(m2, x)
  IN /\ (a.q ++ SumSeq(F, inq)) = (b.q ++ SumSeq(F, outq))
     /\ (a.b ++ SumSeq(F, inb)) = (b.b ++ SumSeq(F, outb))
\* what the sender had in market and token account, against afterwards
LOCAL Wealth(w, m, c, t, ib) ==
  [q |-> ((Total(m, t).q ** m.qls) ++ (IF ib = 0 THEN Z ELSE Atoms(w, Nm(c, ib + 1)))),
   b |-> ((Total(m, t).b ** m.bls) ++ (IF ib = 0 THEN Z ELSE Atoms(w, Nm(c, ib))))]
LOCAL TakerMoved(w, w2, m, m2, c, ev, t, ib) ==
  LET S == Summ(ev)
      buy == S # <<>> /\ c.a.side = "B"
      q == IF S = <<>> THEN Z ELSE (S[1].quote ** m.qls)
      b == IF S = <<>> THEN Z ELSE (S[1].base ** m.bls)
      x == Wealth(w, m, c, t, ib)
      y == Wealth(w2, m2, c, t, ib)
  IN IF S = <<>> THEN x = y
     ELSE IF buy THEN x.q = (y.q ++ q) /\ (x.b ++ b) = y.b
     ELSE (x.q ++ q) = y.q /\ x.b = (y.b ++ b)
LOCAL FirstTok(c) ==
  CASE c.ix \in {"Swap", "Reduce", "CancelAll", "CancelUpTo", "CancelById", "Withdraw"} -> 5
    [] c.ix \in {"PlaceLimit", "Multi", "Deposit"} -> 6
    [] c.ix \in {"EvictSeat", "ForceCancel"} -> 7
    [] OTHER -> 0

-----------------------------------------------------------------------------
(* C11: which orders a cancellation takes out                             *)
LOCAL Picked(m, c, who) ==
  LET a == c.a
  IN CASE c.ix \in {"CancelAll", "CancelAllFF"} -> {o \in AllOrders(m) : o.tr = who}
       [] c.ix \in {"CancelById", "CancelByIdFF"} ->
            {o \in AllOrders(m) : o.tr = who /\ \E i \in 1..Len(a.ids) :
               a.ids[i].px = o.px /\ a.ids[i].seq = o.seq /\ o \in SideOrders(m, a.ids[i].side)}
       [] c.ix \in {"CancelUpTo", "CancelUpToFF", "ForceCancel"} ->
            LET b == Side(m, a.side)
                fits(i) == /\ b[i].tr = who
                           /\ a.ns # <<>> => (N(i) \preceq a.ns[1])
                           /\ a.tl # <<>> => ~Better(a.side, a.tl[1], b[i].px)
                before(i) == Cardinality({j \in 1..(i - 1) : fits(j)})
            IN {b[i] : i \in {j \in 1..Len(b) : fits(j) /\ (a.nc # <<>> => (N(before(j)) \prec a.nc[1]))}}
       [] OTHER -> {}
LOCAL Reduced(m, m2, a, t) ==
  LET S == {o \in SideOrders(m, a.side) : o.px = a.px /\ o.seq = a.seq}
  IN IF S = {} THEN AllOrders(m2) = AllOrders(m)
     ELSE LET o == CHOOSE o \in S : TRUE
          IN /\ o.tr = t
             /\ AllOrders(m2) = (AllOrders(m) \ {o}) \cup
                  (IF (o.sz \preceq a.sz) THEN {} ELSE {[o EXCEPT !.sz = (@ -- a.sz)]})

(* C23: what an order that gives up silently would have needed            *)
LOCAL Short(w, m, c, t, ib) ==
  LET p == c.a
      free == IF p.side = "B" THEN m.tr[t].qf ELSE m.tr[t].bf
      held == IF ib = 0 THEN Z
              ELSE IF p.side = "B" THEN (Atoms(w, Nm(c, ib + 1)) // m.qls) ELSE (Atoms(w, Nm(c, ib)) // m.bls)
      cost == IF p.side = "B" THEN (((p.px[1] ** m.T) ** p.bl) // m.B) ELSE p.bl
  IN ((free ++ held) \prec cost)

(* C24: a batch goes through best prices first, bids before asks, and     *)
(* leaves out only what could not be paid for                             *)
LOCAL InOrder(placed) ==
  \A i, j \in 1..Len(placed) : i < j =>
     LET x == SideOfSeq(placed[i].seq)
         y == SideOfSeq(placed[j].seq)
     IN IF x = y THEN ~Better(x, placed[j].px, placed[i].px) ELSE x = "B"
LOCAL Omitted(w, m, c, t, ib, l, s, placed) ==
  LET P == {placed[i] : i \in {j \in 1..Len(placed) : SideOfSeq(placed[j].seq) = s}}
      cost(px, n) == IF s = "B" THEN (((px ** m.T) ** n) // m.B) ELSE n
      spent == LET f(x) == cost(x.px, x.n) IN SumSeq(SelectSeq(placed, LAMBDA e : SideOfSeq(e.seq) = s), f)
      free == IF s = "B" THEN m.tr[t].qf ELSE m.tr[t].bf
      held == IF ib = 0 THEN Z
              ELSE IF s = "B" THEN (Atoms(w, Nm(c, ib + 1)) // m.qls) ELSE (Atoms(w, Nm(c, ib)) // m.bls)
      plain == /\ Cardinality({l[i].px : i \in 1..Len(l)}) = Len(l)      \* nothing merged
               /\ \A e \in P : \E i \in 1..Len(l) : l[i].px = e.px /\ l[i].sz = e.n   \* nor moved
               /\ Cardinality({e.px : e \in P}) = Cardinality(P)
  IN plain => \A i \in 1..Len(l) :
       (l[i].px # Z /\ l[i].sz # Z /\ \A e \in P : e.px # l[i].px) =>
          ((free ++ held) \prec (spent ++ cost(l[i].px, l[i].sz)))

-----------------------------------------------------------------------------
(* C35: what a call does to those it is not about                         *)
LOCAL Untouched(m, m2, ev, x) ==
  LET bid(e) == SideOfSeq(e.seq) = "B"
      F == SelectSeq(ev, LAMBDA e : e.t = "Fill" /\ e.maker = x)
      G == SelectSeq(ev, LAMBDA e : e.t \in {"Expired", "Evict"} /\ e.maker = x)
      worth(e) == (((e.px ** m.T) ** e.n) // m.B)
      bq(e) == IF bid(e) THEN worth(e) ELSE Z
      aq(e) == IF bid(e) THEN Z ELSE worth(e)
      bn(e) == IF bid(e) THEN e.n ELSE Z
      an(e) == IF bid(e) THEN Z ELSE e.n
      a == Row(m, x)
      b == Row(m2, x)
      theirs(v) == {o \in AllOrders(v) : o.tr = x}
      told == {<<F[i].px, F[i].seq>> : i \in 1..Len(F)} \cup {<<G[i].px, G[i].seq>> : i \in 1..Len(G)}
  IN IF F = <<>> /\ G = <<>>
     THEN a = b /\ theirs(m) = theirs(m2)
     ELSE /\ a.ql = (b.ql ++ (SumSeq(F, bq) ++ SumSeq(G, bq)))
          /\ a.bl = (b.bl ++ (SumSeq(F, an) ++ SumSeq(G, an)))
          /\ b.qf = (a.qf ++ (SumSeq(F, aq) ++ SumSeq(G, bq)))
          /\ b.bf = (a.bf ++ (SumSeq(F, bn) ++ SumSeq(G, an)))
          /\ \A o \in theirs(m) : <<o.px, o.seq>> \in told \/ o \in theirs(m2)
          /\ \A o \in theirs(m2) : \E y \in theirs(m) : [o EXCEPT !.sz = y.sz] = y
\* whom the call is about, besides the signer
Subject(w, c) ==
  LET nm(i) == IF HasAcc(c, i) THEN Nm(c, i) ELSE ""
  IN CASE c.ix \in {"EvictSeat", "ForceCancel"} -> nm(5)
       [] c.ix = "RequestSeatAuthorized" -> nm(6)
       [] c.ix = "ChangeSeatStatus" -> IF nm(5) \in DOMAIN w /\ w[nm(5)].k = "seat" THEN w[nm(5)].trader ELSE ""
       [] c.ix = "CollectFees" -> IF IsMarket(w[MarketName(c)]) THEN w[MarketName(c)].fr ELSE ""
       [] OTHER -> ""
\* an account that such a call must leave alone
Foreign(w, c, x) ==
  LET mn == MarketName(c)
      us == {Signer(c), Subject(w, c)}
      signs == \E i \in 1..Len(c.accs) : c.accs[i].n = x /\ c.accs[i].s
  IN CASE w[x].k = "market" -> x # mn
       [] w[x].k = "tok" -> /\ w[x].auth \notin us
                            /\ IsMarket(w[mn]) => x \notin {w[mn].bm.vault, w[mn].qm.vault}
       [] w[x].k = "seat" -> w[x].market # mn \/ w[x].trader \notin us
       [] OTHER -> FALSE
\* wrapped SOL that moved as tokens
LOCAL Unwrapped(a, b) ==
  a.k = "tok" /\ b.k = "tok" /\ a.nat /\ (b.lam ++ a.amt) = (a.lam ++ b.amt)
LOCAL Bystanders(w, w2, c, ev, ns, m, m2) ==
  LET us == {Signer(c), Subject(w, c)} \ (IF c.ix = "CollectFees" THEN {m.fr} ELSE {})
      signs(x) == \E i \in 1..Len(c.accs) : c.accs[i].n = x /\ c.accs[i].s
  IN /\ \A x \in (DOMAIN m.tr \cup DOMAIN m2.tr) \ us : Untouched(m, m2, ev, x)
     /\ \A x \in ns : Foreign(w, c, x) => Same(w, w2, x)
     /\ \A x \in ns : (w2[x].lam \prec w[x].lam) => signs(x) \/ Unwrapped(w[x], w2[x])

-----------------------------------------------------------------------------
Broken(w, c, o, w2) ==
  LET ns == Touch(c)
      hasM == HasAcc(c, 4)
      mn == MarketName(c)
      t == Signer(c)
      P(id, cond) == IF cond THEN {} ELSE {id}
      \* the properties of a call on a market that is there before and after
      OnMarket ==
        LET m == w[mn]
            m2 == w2[mn]
            ev == o.ev
            arg == OrderArgOk(c.a)
            place == c.ix \in PlaceIx /\ arg
            k == [m |-> m, m2 |-> m2, p |-> c.a, t |-> t, ev |-> ev, slot |-> c.slot, ts |-> c.ts]
            who == IF c.ix \in {"EvictSeat", "ForceCancel"} THEN Nm(c, 5) ELSE t
            others == (DOMAIN m.tr \cup DOMAIN m2.tr) \ {who}
            ib == FirstTok(c)
            fills == Of(ev, "Fill")
            placed == Of(ev, "Place")
            quiet == o.ok /\ ev = <<>> /\ place /\ c.a.fs
            seats == {x \in ns : w[x].k = "seat" \/ w2[x].k = "seat"}
            seatsMoved == {x \in seats : w[x] # w2[x]}
            toksDown == {x \in Toks(w) \cap ns : (Atoms(w2, x) \prec Atoms(w, x))}
        IN UNION {
          P("C04", place => Priority(k)),
          P("C05", place /\ c.a.kind = "IOC" => Bounded(k)),
          P("C06", IF place /\ c.a.kind # "PO" THEN FeeRight(k)
                   ELSE c.ix # "CollectFees" => m2.unc = m.unc),
          P("C07", /\ IF c.ix = "CollectFees"
                      THEN /\ m2.unc = Z /\ m2.col = (m.col ++ m.unc)
                           /\ w[Nm(c, 5)].k = "tok" /\ w[Nm(c, 5)].auth = m.fr
                           /\ Atoms(w2, Nm(c, 5)) = (Atoms(w, Nm(c, 5)) ++ (m.unc ** m.qls))
                      ELSE m2.col = m.col
                   /\ m2.fr # m.fr =>
                        /\ c.ix = "ChangeFeeRecipient" /\ t = m.auth
                        /\ m.unc # Z => \E i \in 5..Len(c.accs) : c.accs[i].n = m.fr /\ c.accs[i].s),
          P("C08", /\ (place /\ c.a.kind = "PO") => OnlyPosts(k) /\ PostsAt(k)
                   /\ c.ix \in MultiIx => OnlyPosts(k)),
          P("C09", place => NoSelf(k)),
          P("C10", Fresh(k) /\ (place => FreshOne(k))),
          P("C11", c.ix \in CancelIx =>
                     /\ \A x \in AllOrders(m) : x.tr # t => x \in AllOrders(m2)
                     /\ \A x \in AllOrders(m2) :
                          \E y \in AllOrders(m) : [x EXCEPT !.sz = y.sz] = y /\ (x.sz \preceq y.sz)
                     /\ (arg /\ t \in DOMAIN m.tr) =>
                          IF c.ix \in {"Reduce", "ReduceFF"} THEN Reduced(m, m2, c.a, t)
                          ELSE AllOrders(m2) = AllOrders(m) \ Picked(m, c, t)
                     \* what is paid out is what was released, and nothing else is
                     /\ c.ix \notin FreeIx => Row(m2, t).qf = Row(m, t).qf /\ Row(m2, t).bf = Row(m, t).bf),
          P("C12", c.ix \in FreeIx => \A x \in ns \cap Toks(w) : Same(w, w2, x)),
          P("C13", /\ \A x \in others : MakerMoved(m, m2, ev, x)
                   /\ (c.ix \in PlaceIx \cup MultiIx \cup CancelIx \cup {"Withdraw", "Deposit", "EvictSeat", "ForceCancel"} /\ arg) =>
                        TakerMoved(w, w2, m, m2, c, ev, who, ib)),
          P("C14", (place => EvictsWorst(k)) /\ EvictsForBetter(ev)),
          P("C15", /\ c.ix \in {"EvictSeat", "ForceCancel", "NameSuccessor", "ChangeMarketStatus", "ChangeSeatStatus",
                               "RequestSeatAuthorized", "ChangeFeeRecipient"} => t = m.auth
                   /\ c.ix = "ClaimAuthority" => t = m.succ /\ m2.auth = t
                   /\ c.ix = "NameSuccessor" => m2.succ = c.a.succ
                   /\ m2.auth # m.auth => c.ix = "ClaimAuthority" /\ t = m.succ /\ m2.auth = t
                   /\ m2.succ # m.succ => c.ix = "NameSuccessor" /\ t = m.auth
                   /\ (m2.st # m.st \/ m2.fr # m.fr) => t = m.auth
                   /\ (\E x \in seatsMoved : w[x].k = "seat") => t = m.auth
                   /\ (DOMAIN m.tr \ DOMAIN m2.tr # {}) => t = m.auth),
          P("C16", /\ fills # <<>> => m.st = "AC"
                   /\ (placed # <<>> \/ c.ix = "Deposit") => m.st \in {"AC", "PO"}
                   /\ m2.st # m.st => c.ix = "ChangeMarketStatus" /\ <<m.st, m2.st>> \in StatusSteps
                   /\ m.st \notin {"AC", "PO", "PA", "CL"} => m2 = Bump(m)),
          P("C17", /\ placed # <<>> => SeatOf(w, mn, t).k = "seat" /\ SeatOf(w, mn, t).st = "AP"
                   /\ \A x \in DOMAIN m2.tr \ DOMAIN m.tr :
                        SeatOf(w2, mn, x).k = "seat" /\ SeatOf(w2, mn, x).st = "AP"
                        /\ SeatOf(w2, mn, x).trader = x /\ SeatOf(w2, mn, x).market = mn),
          P("C18", \A x \in seatsMoved :
                     IF w[x].k # "seat"
                     THEN /\ w2[x].st = "NA" /\ w2[x].own = "phoenix"
                          /\ x = SeatAddr(w2[x].market, w2[x].trader) /\ w2[x].market = mn
                          /\ IF c.ix = "RequestSeat" THEN w2[x].trader = t
                             ELSE c.ix = "RequestSeatAuthorized" /\ t = m.auth
                          /\ (RentFor(SeatLen) \preceq w2[x].lam)
                     ELSE /\ c.ix = "ChangeSeatStatus" /\ w2[x].k = "seat"
                          /\ <<w[x].st, w2[x].st>> \in SeatSteps
                          /\ [w2[x] EXCEPT !.st = w[x].st] = w[x]),
          P("C19", /\ \A x \in DOMAIN m.tr \ DOMAIN m2.tr :
                        /\ c.ix = "EvictSeat" /\ x = who /\ SeatOf(w, mn, x).st # "AP"
                        /\ m.tr[x].ql = Z /\ m.tr[x].bl = Z
                        /\ w[Nm(c, 7)].auth = x /\ w[Nm(c, 8)].auth = x
                   /\ c.ix \in {"EvictSeat", "ForceCancel"} => t = m.auth
                   /\ c.ix = "ForceCancel" =>
                        /\ arg => AllOrders(m2) = AllOrders(m) \ Picked(m, c, who)
                        /\ Row(m2, who).qf = Row(m, who).qf /\ Row(m2, who).bf = Row(m, who).bf
                        /\ SeatOf(w, mn, who).st # "AP"
                        /\ \A x \in AllOrders(m) \ AllOrders(m2) : x.tr = who
                        /\ w[Nm(c, 7)].auth = who /\ w[Nm(c, 8)].auth = who),
          \* nobody loses tokens, orders or market funds to a call they did not sign,
          \* other than by trade, expiry, eviction or an authority's cancellation
          P("C20", /\ \A x \in toksDown : w[x].auth = t \/ x \in {m.bm.vault, m.qm.vault}
                   /\ \A x \in AllOrders(m) \ AllOrders(m2) : x.tr = who \/
                        \E i \in 1..Len(ev) : ev[i].t \in {"Fill", "Expired", "Evict"} /\ ev[i].seq = x.seq
                   /\ \A x \in others : x \in DOMAIN m.tr => x \in DOMAIN m2.tr
                   /\ \A x \in ns : x # mn /\ w2[x] # w[x] => w[x].k # "market"),
          P("C21", Told(m, m2, ev, t)),
          P("C22", /\ m2.mseq = (m.mseq ++ One)
                   /\ m2.oseq = (m.oseq ++ N(Len(placed)))
                   /\ \A i \in 1..Len(placed) :
                        \/ placed[i].seq = (m.oseq ++ N(i - 1))
                        \/ placed[i].seq = (U64MAX -- (m.oseq ++ N(i - 1)))
                   /\ o.ret = [i \in 1..Len(placed) |-> [px |-> placed[i].px, seq |-> placed[i].seq]]),
          P("C23", /\ (place /\ c.a.fs /\ c.a.px # <<>> /\ t \in DOMAIN m.tr /\ ~Stale(c.a, c.slot, c.ts)) =>
                        (ev = <<>>) = Short(w, m, c, t, ib)
                   /\ quiet => /\ \A x \in ns \ {mn} : Same(w, w2, x)
                            /\ AllOrders(m) \cap AllOrders(m2) = AllOrders(m2)),
          P("C24", c.ix \in MultiIx /\ arg =>
                     LET szB(x) == x.sz
                         B == SelectSeq(placed, LAMBDA e : SideOfSeq(e.seq) = "B")
                         A == SelectSeq(placed, LAMBDA e : SideOfSeq(e.seq) = "A")
                         fresh(x) == ~Stale(x, c.slot, c.ts)
                         b == SelectSeq(c.a.bids, fresh)
                         a == SelectSeq(c.a.asks, fresh)
                     IN /\ \A i \in 1..Len(c.a.bids) : \A j \in 1..Len(c.a.asks) : (c.a.bids[i].px \prec c.a.asks[j].px)
                        /\ InOrder(placed)
                        /\ c.a.beh \in {2, 3} => Omitted(w, m, c, t, ib, b, "B", placed) /\ Omitted(w, m, c, t, ib, a, "A", placed)
                        /\ (Lots(B) \preceq SumSeq(b, szB)) /\ (Lots(A) \preceq SumSeq(a, szB))
                        /\ c.a.beh \in {0, 1} => Lots(B) = SumSeq(b, szB) /\ Lots(A) = SumSeq(a, szB)
                        /\ \A i \in 1..Len(placed) :
                             LET l == IF SideOfSeq(placed[i].seq) = "B" THEN b ELSE a
                             IN /\ c.a.beh \in {1, 3} => \E j \in 1..Len(l) : l[j].px = placed[i].px \/ (l[j].px = Z /\ placed[i].px = One)
                                /\ placed[i].coid = Opt(c.a.coid, Z)),
          P("C25", \A f \in {"size", "bm", "qm", "bls", "qls", "tqa", "raw", "T", "B", "fee", "len", "own", "lam"} : m2[f] = m[f]),
          P("C35", Bystanders(w, w2, c, ev, ns, m, m2)) }
      Gone ==       \* the market account is no longer a market
        LET m == w[mn]
        IN P("C26", /\ c.ix = "ChangeMarketStatus" /\ t = m.auth /\ m.st = "CL"
                    /\ m.bids = <<>> /\ m.asks = <<>> /\ DOMAIN m.tr = {} /\ m.unc = Z
                    /\ w2[mn].lam = Z /\ w2[mn].k = "raw" /\ w2[mn].len = Z)
      New == LET m2 == w2[mn]
             IN P("C25", /\ c.ix = "Init" /\ InvConfig(w2, mn) /\ m2.st = "PO" /\ m2.auth = t /\ m2.succ = t
                         /\ m2.fr = c.a.col /\ m2.bids = <<>> /\ m2.asks = <<>> /\ DOMAIN m2.tr = {}
                         /\ m2.unc = Z /\ m2.col = Z /\ m2.fee = c.a.fee /\ m2.T = c.a.tick /\ m2.B = c.a.nb
                         /\ (m2.qls ** c.a.nq) = Pow10(m2.qm.dec)
                         /\ m2.oseq = One
                         /\ m2.bm.mint # m2.qm.mint)
  IN IF o.ok /\ c.ix \notin {"?", "Log"} /\ ~OrderArgOk(c.a) THEN {"C36"}
     ELSE IF ~o.ok THEN MustPass(w, c) \cup IF \A x \in ns : Same(w, w2, x) THEN {} ELSE {"C23"}
     ELSE IF ~hasM THEN {}
     ELSE IF mn \notin DOMAIN w \/ mn \notin DOMAIN w2 THEN {}
     ELSE IF IsMarket(w[mn]) /\ IsMarket(w2[mn]) THEN OnMarket
     ELSE IF IsMarket(w[mn]) THEN Gone
     ELSE IF IsMarket(w2[mn]) THEN New
     ELSE {}
=============================================================================
