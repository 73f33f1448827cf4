------------------------------- MODULE Props --------------------------------
(* State properties, over worlds of module Phoenix.                       *)
EXTENDS Phoenix

MarketsOf(w) == {n \in DOMAIN w : IsMarket(w[n])}

\* every field in range and every reference resolved: what the other
\* definitions take for granted
OrdersSane(m, s) ==
  \A i \in 1..Len(Side(m, s)) :
     /\ Side(m, s)[i].tr \in DOMAIN m.tr
     /\ Fits(Side(m, s)[i].sz) /\ Fits(Side(m, s)[i].px)
Sane(m) ==
  /\ OrdersSane(m, "B") /\ OrdersSane(m, "A")
  /\ m.B # Z /\ m.T # Z /\ m.bls # Z /\ m.qls # Z
WorldSane(w) == \A n \in MarketsOf(w) : Sane(w[n])

(* C01: what a market owes in a token is what its vault holds             *)
Owed(m, lockedKey, freeKey) ==
  LET l == [t \in DOMAIN m.tr |-> m.tr[t][lockedKey] ++ m.tr[t][freeKey]]
  IN SumOver(DOMAIN m.tr, l)
\* what was sent to a vault from outside, kept in an account of its own
Gift(w, v) == IF ("gift:" \o v) \in DOMAIN w THEN w["gift:" \o v].amt ELSE Z
InvVaults(w, n) ==
  LET m == w[n]
      bv == w[m.bm.vault]
      qv == w[m.qm.vault]
  IN /\ bv.k = "tok" /\ qv.k = "tok"
     /\ bv.amt = ((Owed(m, "bl", "bf") ** m.bls) ++ Gift(w, m.bm.vault))
     /\ qv.amt = (((Owed(m, "ql", "qf") ++ m.unc) ** m.qls) ++ Gift(w, m.qm.vault))

(* C02: locked funds are those of the resting orders                      *)
OwnersOf(b) == {b[i].tr : i \in 1..Len(b)}
LockedBase(m, t) ==
  LET own == SelectSeq(m.asks, LAMBDA o : o.tr = t)
      f == [i \in 1..Len(own) |-> own[i].sz]
  IN SumOver(1..Len(own), f)
LockedQuote(m, t) ==
  LET own == SelectSeq(m.bids, LAMBDA o : o.tr = t)
      f == [i \in 1..Len(own) |-> Quote(m, own[i].px, own[i].sz)]
  IN SumOver(1..Len(own), f)
InvLocked(m) ==
  LET ob == OwnersOf(m.bids)
      oa == OwnersOf(m.asks)
  IN /\ ob \subseteq DOMAIN m.tr /\ oa \subseteq DOMAIN m.tr
     /\ \A t \in DOMAIN m.tr :
          /\ m.tr[t].ql = IF t \in ob THEN LockedQuote(m, t) ELSE Z
          /\ m.tr[t].bl = IF t \in oa THEN LockedBase(m, t) ELSE Z

(* C03: the book                                                          *)
SortedSide(m, s) ==
  LET b == Side(m, s)
  IN \A i \in 1..(Len(b) - 1) :
       \/ Better(s, b[i].px, b[i + 1].px)
       \/ /\ b[i].px = b[i + 1].px
          \* older first: a bid's number falls with age's opposite
          /\ IF s = "B" THEN (b[i + 1].seq \prec b[i].seq) ELSE (b[i].seq \prec b[i + 1].seq)
SideOk(m, s) ==
  LET b == Side(m, s)
  IN /\ (N(Len(b)) \preceq Cap(m, s))
     /\ \A i \in 1..Len(b) : b[i].sz # Z /\ b[i].px # Z /\ SideOfSeq(b[i].seq) = s
     /\ Cardinality({b[i].seq : i \in 1..Len(b)}) = Len(b)
     /\ SortedSide(m, s)
\* said apart from the engine's own notion: a limit that is set lies in the past
Dead(o, slot, ts) ==
  \E x \in {<<o.lvs, slot>>, <<o.lvt, ts>>} : (Z \prec x[1]) /\ (x[1] \prec x[2])
Live(b, slot, ts) == SelectSeq(b, LAMBDA o : ~Dead(o, slot, ts))
Uncrossed(m, slot, ts) ==
  LET b == Live(m.bids, slot, ts)
      a == Live(m.asks, slot, ts)
  IN b = <<>> \/ a = <<>> \/ (b[1].px \prec a[1].px)
InvBook(m, slot, ts) == SideOk(m, "B") /\ SideOk(m, "A") /\ Uncrossed(m, slot, ts)

\* numbers of resting orders were all issued, and none twice (C22)
IssuedSeq(o, s) == IF s = "B" THEN (U64MAX -- o.seq) ELSE o.seq
InvIssued(m) ==
  LET f(s) == {IssuedSeq(Side(m, s)[i], s) : i \in 1..Len(Side(m, s))}
  IN /\ \A q \in f("B") \cup f("A") : (q \prec m.oseq)
     /\ f("B") \cap f("A") = {}

(* C25: a market's constants agree                                        *)
InvConfig(w, n) ==
  LET m == w[n]
      unit == (Pow10(m.bm.dec) ** m.raw)
      qunit == Pow10(m.qm.dec)
  IN /\ m.B # Z /\ m.T # Z /\ (m.T %% m.B) = Z /\ (m.fee \preceq BPS)
     /\ (m.bls ** m.B) = unit
     /\ m.tqa = (m.T ** m.qls)
     /\ (qunit %% m.qls) = Z /\ m.qls # Z
     /\ <<m.size.b, m.size.a, m.size.s>> \in Sizes
     /\ m.len = MarketLen(m.size.b, m.size.a, m.size.s)
     /\ m.bm.vault = VaultAddr(n, m.bm.mint) /\ m.qm.vault = VaultAddr(n, m.qm.mint)
(* C29: never more traders than seats                                     *)
InvSeats(m) == (N(Cardinality(DOMAIN m.tr)) \preceq m.size.s)
=============================================================================
