------------------------------- MODULE Engine -------------------------------
(* The matching engine: one market's book, traders and fees.              *)
(*                                                                        *)
(* A market m is a record with                                            *)
(*   T      quote lots per base unit per tick     B   base lots per unit  *)
(*   fee    taker fee in basis points             oseq next order number  *)
(*   col    collected fees   unc  uncollected fees (quote lots)           *)
(*   size   [b, a, s] capacities                                          *)
(*   bids, asks  sequences of orders, best first; an order is             *)
(*          [px, seq, tr, sz, lvs, lvt]  (lvs/lvt = 0: no limit)          *)
(*   tr     function trader name -> [ql, qf, bl, bf]                      *)
(*          (quote/base lots, locked/free)                                *)
(*                                                                        *)
(* Every operation threads an execution x = [ok, why, m, ev, tags]: ok is *)
(* FALSE once the instruction must fail (it then has no effect at all),   *)
(* ev is the audit log so far, tags is the set of situations met, which   *)
(* serves attribution and coverage only.                                  *)
EXTENDS Num, Sequences, FiniteSets, TLC

Z == N(0)
One == N(1)
Fits(x) == (x \preceq U64MAX)
Min(a, b) == IF (a \preceq b) THEN a ELSE b
Max(a, b) == IF (a \preceq b) THEN b ELSE a
SatSub(a, b) == IF (b \preceq a) THEN (a -- b) ELSE Z
CeilDiv(a, b) == ((a ++ (b -- One)) // b)
IsZero(a) == a = Z

Without(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
With(f, k, v) == (k :> v) @@ f
\* functions compared pointwise, whatever TLC's representation
FEq(f, g) == DOMAIN f = DOMAIN g /\ \A k \in DOMAIN f : f[k] = g[k]

Start(m) == [ok |-> TRUE, why |-> "", m |-> m, ev |-> <<>>, tags |-> {}]
Bad(x, why) == IF x.ok THEN [x EXCEPT !.ok = FALSE, !.why = why] ELSE x
Need(x, cond, why) == IF cond THEN x ELSE Bad(x, why)
Log(x, e) == [x EXCEPT !.ev = Append(@, e)]
Tag(x, t) == [x EXCEPT !.tags = @ \cup {t}]

-----------------------------------------------------------------------------
(* Events of the audit log                                                *)
EvFill(mk, seq, px, filled, rem) ==
  [t |-> "Fill", maker |-> mk, seq |-> seq, px |-> px, n |-> filled, rem |-> rem]
EvPlace(seq, px, n, coid) ==
  [t |-> "Place", seq |-> seq, px |-> px, n |-> n, coid |-> coid]
EvReduce(seq, px, n, rem) ==
  [t |-> "Reduce", seq |-> seq, px |-> px, n |-> n, rem |-> rem]
EvEvict(mk, seq, px, n) ==
  [t |-> "Evict", maker |-> mk, seq |-> seq, px |-> px, n |-> n]
EvSummary(coid, base, quote, fee) ==
  [t |-> "Summary", coid |-> coid, base |-> base, quote |-> quote, fee |-> fee]
EvFee(fee) == [t |-> "Fee", fee |-> fee]
EvTif(seq, lvs, lvt) == [t |-> "Tif", seq |-> seq, lvs |-> lvs, lvt |-> lvt]
EvExpired(mk, seq, px, n) ==
  [t |-> "Expired", maker |-> mk, seq |-> seq, px |-> px, n |-> n]

-----------------------------------------------------------------------------
(* The book                                                               *)
Opp(s) == IF s = "B" THEN "A" ELSE "B"
Side(m, s) == IF s = "B" THEN m.bids ELSE m.asks
SetSide(m, s, b) == IF s = "B" THEN [m EXCEPT !.bids = b] ELSE [m EXCEPT !.asks = b]
Cap(m, s) == IF s = "B" THEN m.size.b ELSE m.size.a
Full(m, s) == N(Len(Side(m, s))) = Cap(m, s)

\* price p is strictly more aggressive than q on side s
Better(s, p, q) == IF s = "B" THEN (q \prec p) ELSE (p \prec q)
\* an incoming order on side s with limit price lim reaches a resting price
Reaches(s, lim, px) == IF s = "B" THEN (px \preceq lim) ELSE (lim \preceq px)

\* the leading bit of an id tells the side: bids carry the complement
SeqFor(s, n) == IF s = "B" THEN (U64MAX -- n) ELSE n
SideOfSeq(seq) == IF (seq \preceq SEQMAX) THEN "A" ELSE "B"

Expired(o, slot, ts) ==
  \/ (o.lvs # Z /\ (o.lvs \prec slot))
  \/ (o.lvt # Z /\ (o.lvt \prec ts))

Drop(b, i) == SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b))
PosOf(b, px, seq) ==
  IF \E i \in 1..Len(b) : b[i].seq = seq /\ b[i].px = px
  THEN CHOOSE i \in 1..Len(b) : b[i].seq = seq /\ b[i].px = px ELSE 0
\* after every order that is at least as aggressive: older orders stay ahead
Insert(b, s, o) ==
  LET n == Len(SelectSeq(b, LAMBDA r : ~Better(s, o.px, r.px)))
  IN SubSeq(b, 1, n) \o <<o>> \o SubSeq(b, n + 1, Len(b))

Registered(m, t) == t \in DOMAIN m.tr
ZeroState == [ql |-> Z, qf |-> Z, bl |-> Z, bf |-> Z]
SeatsFull(m) == N(Cardinality(DOMAIN m.tr)) = m.size.s

\* adjusted quote lots of n base lots at a price, and whether 64 bits hold it
Adj(m, px, n) == ((px ** m.T) ** n)
AdjFits(m, px, n) == Fits(px ** m.T) /\ Fits(Adj(m, px, n))
\* quote lots (a whole number, because B divides T)
Quote(m, px, n) == (Adj(m, px, n) // m.B)

SetTr(x, t, st) == [x EXCEPT !.m.tr = [@ EXCEPT ![t] = st]]

\* give n base lots' worth of the funds locked by an order back as free funds
Unlock(x, t, s, px, n) ==
  LET st == x.m.tr[t]
      q == Quote(x.m, px, n)
  IN IF s = "B"
     THEN LET y == Need(x, AdjFits(x.m, px, n) /\ (q \preceq st.ql) /\ Fits(st.qf ++ q), "overflow")
          IN IF ~y.ok THEN y
             ELSE SetTr(y, t, [st EXCEPT !.ql = (@ -- q), !.qf = (@ ++ q)])
     ELSE LET y == Need(x, (n \preceq st.bl) /\ Fits(st.bf ++ n), "overflow")
          IN IF ~y.ok THEN y
             ELSE SetTr(y, t, [st EXCEPT !.bl = (@ -- n), !.bf = (@ ++ n)])

\* remove n base lots (all, if n is not less) of the order at position i
ReduceAt(x, s, i, n) ==
  LET b == Side(x.m, s)
      o == b[i]
      k == Min(n, o.sz)
      rem == (o.sz -- k)
      b2 == IF rem = Z THEN Drop(b, i) ELSE [b EXCEPT ![i].sz = rem]
      y == [x EXCEPT !.m = SetSide(@, s, b2)]
  IN Unlock(Log(y, EvReduce(o.seq, o.px, k, rem)), o.tr, s, o.px, k)

\* remove the expired best order of a side
ExpireTop(x, s) ==
  LET o == Head(Side(x.m, s))
      y == [x EXCEPT !.m = SetSide(@, s, Tail(Side(x.m, s)))]
  IN Tag(Unlock(Log(y, EvExpired(o.tr, o.seq, o.px, o.sz)), o.tr, s, o.px, o.sz), "expired")

-----------------------------------------------------------------------------
(* Taking: walk the opposite side                                         *)
(* tk = [s, lim, stb, t, slot, ts]; the walk w = [x, base, adj, ml, done, *)
(* mb, ma]: remaining base and adjusted quote budget, match limit,        *)
(* matched base lots and adjusted quote lots.                             *)
RECURSIVE Walk(_, _)
Walk(w, tk) ==
  LET x == w.x
      m == x.m
      os == Opp(tk.s)
      b == Side(m, os)
  IN IF ~x.ok \/ w.done \/ w.base = Z \/ w.adj = Z \/ w.ml = Z \/ b = <<>> THEN w
     ELSE
     LET o == Head(b)
         unit == (o.px ** m.T)
     IN IF ~Reaches(tk.s, tk.lim, o.px) THEN w
        ELSE IF Expired(o, tk.slot, tk.ts)
        THEN Walk([w EXCEPT !.x = ExpireTop(x, os), !.ml = (@ -- One)], tk)
        ELSE IF o.tr = tk.t /\ tk.stb = "AB"
        THEN [w EXCEPT !.x = Tag(Bad(x, "selfabort"), "self")]
        ELSE IF o.tr = tk.t /\ tk.stb = "CP"
        THEN Walk([w EXCEPT !.x = Tag(ReduceAt(x, os, 1, o.sz), "self"),
                            !.ml = (@ -- One)], tk)
        ELSE IF ~Fits(unit) THEN [w EXCEPT !.x = Bad(x, "overflow")]
        ELSE IF o.tr = tk.t
        THEN LET n == Min(Min(w.base, (w.adj // unit)), o.sz)
                 y == Tag(ReduceAt(x, os, 1, n), "self")
             IN Walk([w EXCEPT !.x = Need(y, AdjFits(m, o.px, n), "overflow"),
                               !.base = SatSub(@, n),
                               !.adj = SatSub(@, (unit ** n)),
                               !.ml = (@ -- One),
                               !.done = (n \prec o.sz)], tk)
        ELSE
        LET full == (o.sz \preceq w.base) /\ ((unit ** o.sz) \preceq w.adj)
            n == IF full THEN o.sz ELSE Min(w.base, (w.adj // unit))
            a == (unit ** n)
            rem == (o.sz -- n)
            b2 == IF full THEN Tail(b) ELSE [b EXCEPT ![1].sz = rem]
            mk == m.tr[o.tr]
            q == (a // m.B)
            fits == /\ Fits(unit ** o.sz)
                    /\ Fits(w.ma ++ a) /\ Fits(w.mb ++ n)
                    /\ IF tk.s = "B" THEN (n \preceq mk.bl) /\ Fits(mk.qf ++ q)
                                     ELSE (q \preceq mk.ql) /\ Fits(mk.bf ++ n)
            mk2 == IF tk.s = "B" THEN [mk EXCEPT !.bl = (@ -- n), !.qf = (@ ++ q)]
                                 ELSE [mk EXCEPT !.ql = (@ -- q), !.bf = (@ ++ n)]
            y == [x EXCEPT !.m = [SetSide(m, os, b2) EXCEPT !.tr = [@ EXCEPT ![o.tr] = mk2]]]
            z == IF n = Z THEN y
                 ELSE Tag(Log(y, EvFill(o.tr, o.seq, o.px, n, rem)),
                          IF full THEN "fill" ELSE "partial")
        IN IF ~fits THEN [w EXCEPT !.x = Bad(x, "overflow")]
           ELSE Walk([w EXCEPT !.x = z, !.base = (@ -- n), !.adj = (@ -- a),
                               !.ml = (@ -- One), !.done = ~full,
                               !.mb = (@ ++ n), !.ma = (@ ++ a)], tk)

FeeOn(m, adj) == CeilDiv((adj ** m.fee), BPS)            \* adjusted quote lots
FeeLots(m, adj) == CeilDiv(FeeOn(m, adj), m.B)           \* whole quote lots

\* budget in adjusted quote lots that leaves room for (buys) or is reached
\* net of (sells) the fee; U64MAX when there is no quote budget
MaxFee(m) == FeeOn(m, U64MAX)
AdjBudgetOk(m, s, ql) == Fits(ql ** m.B) /\ (s = "A" => MaxFee(m) # U64MAX)
AdjBudget(m, s, ql) ==
  LET d == IF s = "B" THEN (U64MAX ++ MaxFee(m)) ELSE (U64MAX -- MaxFee(m))
      v == (((ql ** m.B) ** U64MAX) // d)
  IN IF Fits(v) THEN v ELSE U64MAX

-----------------------------------------------------------------------------
(* A post-only order met by crossing orders: expired ones are removed; the*)
(* first unexpired one decides. cross = <<>> or <<its price>>             *)
RECURSIVE Cross(_, _, _, _, _)
Cross(x, s, px, slot, ts) ==
  LET os == Opp(s)
      b == Side(x.m, os)
  IN IF ~x.ok \/ b = <<>> THEN [x |-> x, cross |-> <<>>]
     ELSE IF ~Reaches(s, px, Head(b).px) THEN [x |-> x, cross |-> <<>>]
     ELSE IF Expired(Head(b), slot, ts) THEN Cross(ExpireTop(x, os), s, px, slot, ts)
     ELSE [x |-> x, cross |-> <<Head(b).px>>]

(* Evict the least aggressive order of a full side for a better one       *)
EvictFor(x, s, px) ==
  LET b == Side(x.m, s)
      o == b[Len(b)]
      y == [x EXCEPT !.m = SetSide(@, s, SubSeq(b, 1, Len(b) - 1))]
  IN IF ~Better(s, px, o.px) THEN Tag(Bad(x, "bookfull"), "full")
     ELSE Tag(Tag(Unlock(Log(y, EvEvict(o.tr, o.seq, o.px, o.sz)), o.tr, s, o.px, o.sz), "evict"), "full")

(* Post n base lots: r = [x, in, posted, used, id]                        *)
Post(x0, t, s, px, n, lvs, lvt, coid) ==
  LET x1 == IF Full(x0.m, s) THEN EvictFor(x0, s, px) ELSE x0
      m == x1.m
      seq == SeqFor(s, m.oseq)
      o == [px |-> px, seq |-> seq, tr |-> t, sz |-> n, lvs |-> lvs, lvt |-> lvt]
      lock == IF s = "B" THEN Quote(m, px, n) ELSE n
      st == m.tr[t]
      free == Min(lock, IF s = "B" THEN st.qf ELSE st.bf)
      st2 == IF s = "B" THEN [st EXCEPT !.qf = (@ -- free), !.ql = (@ ++ lock)]
                        ELSE [st EXCEPT !.bf = (@ -- free), !.bl = (@ ++ lock)]
      x2 == Need(x1, (s = "B" => AdjFits(m, px, n))
                     /\ Fits(IF s = "B" THEN st2.ql ELSE st2.bl), "overflow")
      x3 == [x2 EXCEPT !.m = [SetSide(m, s, Insert(Side(m, s), s, o))
                                EXCEPT !.tr = [@ EXCEPT ![t] = st2], !.oseq = (@ ++ One)]]
      x4 == Tag(Log(x3, EvPlace(seq, px, n, coid)), "post")
      x5 == IF lvs = Z /\ lvt = Z THEN x4 ELSE Tag(Log(x4, EvTif(seq, lvs, lvt)), "tif")
  IN IF ~x1.ok THEN [x |-> x1, posted |-> Z, used |-> Z, id |-> <<>>]
     ELSE IF ~x2.ok THEN [x |-> x2, posted |-> Z, used |-> Z, id |-> <<>>]
     ELSE [x |-> x5, posted |-> lock, used |-> free, id |-> <<[px |-> px, seq |-> seq]>>]

Opt(o, d) == IF o = <<>> THEN d ELSE o[1]

-----------------------------------------------------------------------------
(* Placing one order. The outcome is [x, id, dep, out]:                   *)
(*   id   <<>> or <<[px, seq]>> of the posted order                       *)
(*   dep  lots to take from the sender's token account (quote for a bid,  *)
(*        base for an ask) after free lots were used                      *)
(*   out  lots bought or proceeds to pay out (base for a bid, else quote) *)
(*   used free lots used; trade  whether anything was traded              *)
Nothing(x) == [x |-> x, id |-> <<>>, dep |-> Z, out |-> Z, used |-> Z, trade |-> FALSE]

PacketExpired(p, slot, ts) ==
  \/ (p.lvs # <<>> /\ (p.lvs[1] \prec slot))
  \/ (p.lvt # <<>> /\ (p.lvt[1] \prec ts))

\* ins: lots of the taking part the sender owes; then free lots are used
\* first, and with deposited funds only nothing else may be owed
Settle(x, t, p, ins, posted, usedPost, out, id) ==
  LET s == p.side
      reg == Registered(x.m, t)
      st == x.m.tr[t]
      f == IF reg THEN Min(ins, IF s = "B" THEN st.qf ELSE st.bf) ELSE Z
      \* funds freed for the taking part
      st1 == IF s = "B" THEN [st EXCEPT !.qf = (@ -- f)] ELSE [st EXCEPT !.bf = (@ -- f)]
      st2 == IF ~p.uof THEN st1
             ELSE IF s = "B" THEN [st1 EXCEPT !.bf = (@ ++ out)] ELSE [st1 EXCEPT !.qf = (@ ++ out)]
      used == (usedPost ++ f)
      owed == (ins ++ posted)
      x1 == IF reg THEN SetTr(x, t, st2) ELSE x
      x2 == Need(x1, Fits(owed), "overflow")
      x3 == IF ~reg \/ ~p.uof THEN x2
            ELSE Need(Need(x2, Fits(IF s = "B" THEN st2.bf ELSE st2.qf), "overflow"),
                      owed = used, "funds")
  IN IF ~x.ok THEN Nothing(x)
     ELSE [x |-> IF f # Z THEN Tag(x3, "usefree") ELSE x3, id |-> id,
           dep |-> (owed -- used),
           out |-> IF reg /\ p.uof THEN Z ELSE out,
           used |-> used, trade |-> ~(ins = Z /\ out = Z)]

Place(x0, t, p0, slot, ts) ==
  LET ioc == p0.kind = "IOC"
      s == p0.side
      \* a resting ask is never priced at zero
      px == IF ioc THEN Opt(p0.px, IF s = "B" THEN U64MAX ELSE Z)
            ELSE IF s = "A" THEN Max(p0.px[1], One) ELSE p0.px[1]
      x1 == Need(Need(Need(x0, (x0.m.oseq # SEQMAX), "seqlimit"),
                      ~(s = "B" /\ px = Z), "price"),
                 ~(p0.bl = Z /\ p0.ql = Z), "size")
      x2 == Need(x1, ioc => (p0.bl = Z \/ p0.ql = Z), "size")
      x3 == IF ioc \/ Registered(x2.m, t) THEN x2
            ELSE IF SeatsFull(x2.m) THEN Bad(x2, "seats")
            ELSE [x2 EXCEPT !.m.tr = With(@, t, ZeroState)]
      lvs == Opt(p0.lvs, Z)
      lvt == Opt(p0.lvt, Z)
  IN IF ~x3.ok THEN Nothing(x3)
     ELSE IF PacketExpired(p0, slot, ts) THEN Nothing(Tag(x3, "stale"))
     ELSE IF p0.kind = "PO"
     THEN LET c == Cross(x3, s, px, slot, ts)
              hit == c.cross # <<>>
              best == c.cross[1]
              px2 == IF ~hit THEN px ELSE IF s = "B" THEN (best -- One) ELSE (best ++ One)
              x4 == IF ~c.x.ok \/ ~hit THEN c.x
                    ELSE LET y == Tag(c.x, "cross")
                         IN IF p0.rej THEN Bad(y, "pocross")
                            ELSE IF s = "B" /\ (best \preceq One) THEN Bad(y, "pocross")
                            ELSE Tag(Need(y, Fits(px2), "overflow"), "amend")
              po == Post(x4, t, s, px2, p0.bl, lvs, lvt, p0.coid)
          IN IF ~x4.ok THEN Nothing(x4)
             ELSE IF p0.bl = Z THEN Settle(x4, t, p0, Z, Z, Z, Z, <<>>)
             ELSE Settle(po.x, t, p0, Z, po.posted, po.used, Z, po.id)
     ELSE
     LET m == x3.m
         base0 == IF p0.bl = Z THEN U64MAX ELSE p0.bl
         x4 == Need(x3, p0.ql # Z => AdjBudgetOk(m, s, p0.ql), "overflow")
         adj0 == IF p0.ql = Z THEN U64MAX ELSE AdjBudget(m, s, p0.ql)
         w == Walk([x |-> x4, base |-> base0, adj |-> adj0, ml |-> Opt(p0.ml, U64MAX),
                    done |-> FALSE, mb |-> Z, ma |-> Z],
                   [s |-> s, lim |-> px, stb |-> p0.stb, t |-> t, slot |-> slot, ts |-> ts])
         x5 == w.x
         fee == FeeLots(m, w.ma)
         notl == (w.ma // m.B)
         quote == IF s = "B" THEN (notl ++ fee) ELSE (notl -- fee)
         x6 == Need(x5, /\ Fits(FeeOn(m, w.ma) ++ (m.B -- One))
                        /\ Fits(w.ma ++ (m.B -- One))
                        /\ Fits(x5.m.unc ++ fee) /\ Fits(quote), "overflow")
         x7 == Log([x6 EXCEPT !.m.unc = (@ ++ fee),
                              !.tags = @ \cup (IF fee = Z THEN {} ELSE {"fee"})
                                         \cup (IF w.ml = Z THEN {"limit"} ELSE {})],
                   EvSummary(p0.coid, w.mb, quote, fee))
         ins == IF s = "B" THEN quote ELSE w.mb
         out == IF s = "B" THEN w.mb ELSE quote
         minOk == ~((w.mb \prec p0.minb) \/ (quote \prec p0.minq))
         live == SelectSeq(Side(x7.m, Opp(s)), LAMBDA o : ~Expired(o, slot, ts))
         best == IF live # <<>> THEN Head(live).px ELSE IF s = "B" THEN U64MAX ELSE Z
         posts == w.base # Z /\ ~Reaches(s, px, best)
         po == Post(x7, t, s, px, w.base, lvs, lvt, p0.coid)
     IN IF ~x4.ok THEN Nothing(x4)
        ELSE IF ~x5.ok THEN Nothing(x5)
        ELSE IF ~x6.ok THEN Nothing(x6)
        ELSE IF ioc
        THEN IF ~minOk THEN Nothing(Tag(Bad(x7, "minfill"), "minfill"))
             ELSE Settle(x7, t, p0, ins, Z, Z, out, <<>>)
        ELSE IF ~posts THEN Settle(x7, t, p0, ins, Z, Z, out, <<>>)
        ELSE Settle(po.x, t, p0, ins, po.posted, po.used, out, po.id)

-----------------------------------------------------------------------------
(* Cancelling. ids is a sequence of [s, px, seq]; rel = [q, b] is released*)
RECURSIVE CancelIds(_, _, _, _)
CancelIds(x, t, ids, rel) ==
  IF ids = <<>> \/ ~x.ok THEN [x |-> x, rel |-> rel]
  ELSE LET id == Head(ids)
           i == PosOf(Side(x.m, id.s), id.px, id.seq)
           o == Side(x.m, id.s)[i]
       IN IF i = 0 \/ o.tr # t THEN CancelIds(x, t, Tail(ids), rel)
          ELSE CancelIds(Tag(ReduceAt(x, id.s, i, o.sz), "cancel"), t, Tail(ids),
                 IF id.s = "B" THEN [rel EXCEPT !.q = (@ ++ Quote(x.m, o.px, o.sz))]
                               ELSE [rel EXCEPT !.b = (@ ++ o.sz)])

IdsOf(os, s) == [i \in 1..Len(os) |-> [s |-> s, px |-> os[i].px, seq |-> os[i].seq]]
Own(m, s, t) == SelectSeq(Side(m, s), LAMBDA o : o.tr = t)
First(sq, opt) == IF opt = <<>> THEN sq
                  ELSE SubSeq(sq, 1, ToInt(opt[1], Len(sq)))

UpToIds(m, t, a) ==
  LET seen == First(Side(m, a.side), a.ns)
      own == SelectSeq(seen, LAMBDA o : o.tr = t)
      lim == SelectSeq(own, LAMBDA o : a.tl = <<>> \/
                \* at least as aggressive as the limit
                (IF a.side = "B" THEN (a.tl[1] \preceq o.px) ELSE (o.px \preceq a.tl[1])))
  IN IdsOf(First(lim, a.nc), a.side)

NoFunds == [q |-> Z, b |-> Z]
\* take free lots out of the market, at most what is free
Claim(x, t, q, b) ==
  LET st == x.m.tr[t]
      qq == Min(q, st.qf)
      bb == Min(b, st.bf)
  IN [x |-> SetTr(x, t, [st EXCEPT !.qf = (@ -- qq), !.bf = (@ -- bb)]),
      rel |-> [q |-> qq, b |-> bb]]
=============================================================================
