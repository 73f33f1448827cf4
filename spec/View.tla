-------------------------------- MODULE View --------------------------------
(* What the library says of a market account, of an order and of          *)
(* quantities: each is a function of what is stored, given here.          *)
EXTENDS Client, Wire

StatusText(st) ==
  CASE st = "UN" -> "Uninitialized" [] st = "AC" -> "Active" [] st = "PO" -> "PostOnly"
    [] st = "PA" -> "Paused" [] st = "CL" -> "Closed" [] st = "TO" -> "Tombstoned" [] OTHER -> "?"
Shown(v) == IF v = Z THEN <<>> ELSE <<v>>

\* a side of the book, best first
SideView(m, s, slot, ts) ==
  LET b == Side(m, s)
  IN [os |-> [i \in 1..Len(b) |->
                [px |-> b[i].px, seq |-> b[i].seq, side |-> s, sz |-> b[i].sz, lvs |-> Shown(b[i].lvs),
                 lvt |-> Shown(b[i].lvt), exp |-> Expired(b[i], slot, ts), tr |-> b[i].tr, again |-> TRUE]],
      up |-> TRUE, len |-> N(Len(b)), cap |-> Cap(m, s)]

\* prices in quote atoms per base unit become ticks, rounded down
MarketView(m, prices, slot, ts) ==
  [len |-> BodyLen(m.size.b, m.size.a, m.size.s), hdr |-> N(576), fee |-> m.fee, T |-> m.T, B |-> m.B,
   oseq |-> m.oseq, col |-> m.col, unc |-> m.unc, bls |-> m.bls, qls |-> m.qls, tqa |-> m.tqa,
   st |-> StatusText(m.st),
   may |-> <<CrossAllowed(m.st), PostAllowed(m.st), ReduceAllowed(m.st), m.st = "CL">>,
   px |-> [i \in 1..Len(prices) |-> <<prices[i], (prices[i] // m.tqa)>>],
   bids |-> SideView(m, "B", slot, ts), asks |-> SideView(m, "A", slot, ts),
   trn |-> N(Cardinality(DOMAIN m.tr)), trcap |-> m.size.s, unk |-> FALSE]
TradersView(m) ==
  [t \in DOMAIN m.tr |-> [ql |-> m.tr[t].ql, qf |-> m.tr[t].qf, bl |-> m.tr[t].bl, bf |-> m.tr[t].bf, back |-> TRUE]]

-----------------------------------------------------------------------------
OrderView(p, np, slot, ts) ==
  [ioc |-> p.kind = "IOC", po |-> p.kind = "PO", take |-> p.kind = "IOC",
   fok |-> p.kind = "IOC" /\ ((p.bl # Z /\ p.bl = p.minb) \/ (p.ql # Z /\ p.ql = p.minq)),
   uof |-> p.uof, side |-> p.side, opp |-> Opp(p.side), coid |-> p.coid, fs |-> p.fs,
   bl |-> p.bl, ql |-> p.ql, bb |-> IF p.bl = Z THEN U64MAX ELSE p.bl, qb |-> Shown(p.ql),
   ml |-> Opt(p.ml, U64MAX), stb |-> IF p.kind = "PO" THEN <<>> ELSE <<p.stb>>,
   px |-> Opt(p.px, IF p.side = "B" THEN U64MAX ELSE Z), lvs |-> p.lvs, lvt |-> p.lvt,
   exp |-> PacketExpired(p, slot, ts), set |-> [p EXCEPT !.px = <<np>>]]

-----------------------------------------------------------------------------
StatusTexts == [i \in 1..7 |->
  IF i = 7 THEN <<>> ELSE <<StatusText(<<"UN", "AC", "PO", "PA", "CL", "TO">>[i])>>]
SeatTexts == << <<"NotApproved">>, <<"Approved">>, <<"Retired">>, <<>> >>
\* ids of one side rank by price, then by age
RankOf(a, b) ==
  LET s == SideOfSeq(a.seq)
      older(x, y) == IF s = "B" THEN (y.seq \prec x.seq) ELSE (x.seq \prec y.seq)
  IN IF a = b THEN "=" ELSE IF Better(s, a.px, b.px) \/ (a.px = b.px /\ older(a, b)) THEN "<" ELSE ">"

\* batches: the constructors' meaning
BatchOf(f, in) ==
  [bids |-> in.bids, asks |-> in.asks,
   coid |-> IF f = "new_default" THEN <<>> ELSE in.coid,
   beh |-> CASE f = "new" -> IF in.rej THEN 1 ELSE 0
             [] f = "new_default" -> 1
             [] OTHER -> in.beh]

-----------------------------------------------------------------------------
\* arithmetic on 64-bit quantities: exact, or refused
Arith(f, x, y) ==
  LET keep(v) == IF Fits(v) THEN <<v>> ELSE <<>>
      flag(c) == <<IF c THEN One ELSE Z>>
  IN CASE f = "add" -> keep(x ++ y)
       [] f = "sub" -> IF (y \preceq x) THEN <<x -- y>> ELSE <<>>
       [] f = "mul" -> keep(x ** y)
       [] f = "sat" -> <<SatSub(x, y)>>
       [] f = "div" -> IF y = Z THEN <<>> ELSE <<x // y>>
       [] f = "rem" -> IF y = Z THEN <<>> ELSE <<x -- ((x // y) ** y)>>
       [] f = "lt" -> flag((x \prec y))
       [] f = "cmp" -> <<Max(x, y)>>
       [] f = "eq" -> flag(x = y)
       [] f = "fst" -> <<x>>
       [] f = "zero" -> <<Z>>
=============================================================================
