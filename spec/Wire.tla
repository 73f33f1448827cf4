-------------------------------- MODULE Wire --------------------------------
(* The published wire format: instruction data bytes (a sequence of       *)
(* integers 0..255) -> instruction name and arguments. Little-endian,     *)
(* an option is a byte 0 or 1 and the value, a list is a 32-bit count and *)
(* its items; nothing may follow the last field.                          *)
(*                                                                        *)
(* A parser state is q = [ok, b, i, v]: bytes, next position (1-based)    *)
(* and the values read so far.                                            *)
EXTENDS Num, Sequences

Tags == [x \in 0..255 |->
  CASE x = 0 -> "Swap" [] x = 1 -> "SwapFF" [] x = 2 -> "PlaceLimit" [] x = 3 -> "PlaceLimitFF"
    [] x = 4 -> "Reduce" [] x = 5 -> "ReduceFF" [] x = 6 -> "CancelAll" [] x = 7 -> "CancelAllFF"
    [] x = 8 -> "CancelUpTo" [] x = 9 -> "CancelUpToFF" [] x = 10 -> "CancelById"
    [] x = 11 -> "CancelByIdFF" [] x = 12 -> "Withdraw" [] x = 13 -> "Deposit"
    [] x = 14 -> "RequestSeat" [] x = 15 -> "Log" [] x = 16 -> "Multi" [] x = 17 -> "MultiFF"
    [] x = 100 -> "Init" [] x = 101 -> "ClaimAuthority" [] x = 102 -> "NameSuccessor"
    [] x = 103 -> "ChangeMarketStatus" [] x = 104 -> "ChangeSeatStatus"
    [] x = 105 -> "RequestSeatAuthorized" [] x = 106 -> "EvictSeat" [] x = 107 -> "ForceCancel"
    [] x = 108 -> "CollectFees" [] x = 109 -> "ChangeFeeRecipient" [] OTHER -> "?"]

PStart(b) == [ok |-> TRUE, b |-> b, i |-> 1, v |-> <<>>]
PPush(q, v, n) == [q EXCEPT !.v = Append(@, v), !.i = @ + n]
PFail(q) == [q EXCEPT !.ok = FALSE]
PHas(q, n) == q.ok /\ q.i + n - 1 <= Len(q.b)

PInt(q, n) == IF PHas(q, n) THEN PPush(q, LE(q.b, q.i, n), n) ELSE PFail(q)
U64(q) == PInt(q, 8)
U128(q) == PInt(q, 16)
Key(q) == PInt(q, 32)                     \* an address, as a number
\* one of the names in names, by its index
PEnum(q, names) ==
  IF PHas(q, 1) /\ q.b[q.i] < Len(names) THEN PPush(q, names[q.b[q.i] + 1], 1) ELSE PFail(q)
PSide(q) == PEnum(q, <<"B", "A">>)
PBool(q) == PEnum(q, <<FALSE, TRUE>>)
\* option of an n-byte number: <<>> or <<number>>
POpt(q, n) ==
  IF ~PHas(q, 1) THEN PFail(q)
  ELSE IF q.b[q.i] = 0 THEN PPush(q, <<>>, 1)
  ELSE IF q.b[q.i] = 1 /\ PHas(q, n + 1) THEN PPush(q, <<LE(q.b, q.i + 1, n)>>, n + 1)
  ELSE PFail(q)
\* a list whose items are read by Item from a fresh value list
PList(q, Item(_), Make(_)) ==
  LET RECURSIVE Go(_, _, _)
      Go(r, k, acc) ==
        IF ~r.ok THEN r
        ELSE IF k = 0 THEN [r EXCEPT !.v = Append(q.v, acc)]
        ELSE LET s == Item([r EXCEPT !.v = <<>>])
             IN IF ~s.ok THEN s ELSE Go(s, k - 1, Append(acc, Make(s.v)))
      n == ToInt(LE(q.b, q.i, 4), Len(q.b) + 1)
  IN IF PHas(q, 4) THEN Go([q EXCEPT !.i = @ + 4], n, <<>>) ELSE PFail(q)

BadArg == [bad |-> TRUE]
AllRead(q) == q.ok /\ q.i = Len(q.b) + 1

-----------------------------------------------------------------------------
(* An order. The last fields of the wire form (last valid slot, last valid*)
(* time, silent-failure flag) may be left out, from the last backwards;   *)
(* each is a zero byte when left out, so the order is read as if zeros    *)
(* followed, and accepted if it consumes all that was sent and at most    *)
(* three more.                                                            *)
STB == <<"AB", "CP", "DT">>
OrderFields(q0) ==
  LET k == q0.b[1]
      q == [q0 EXCEPT !.i = 2]
  IN CASE k = 0 -> PBool(POpt(POpt(PBool(PBool(U128(U64(U64(PSide(q)))))), 8), 8))
       [] k = 1 -> PBool(POpt(POpt(PBool(U128(POpt(PEnum(U64(U64(PSide(q))), STB), 8))), 8), 8))
       [] k = 2 -> POpt(POpt(PBool(U128(POpt(PEnum(U64(U64(U64(U64(POpt(PSide(q), 8))))), STB), 8))), 8), 8)
       [] OTHER -> PFail(q)
Order(v, k) ==
  CASE k = 0 -> [kind |-> "PO", side |-> v[1], px |-> <<v[2]>>, bl |-> v[3], ql |-> N(0),
                 minb |-> N(0), minq |-> N(0), stb |-> "AB", ml |-> <<>>, coid |-> v[4],
                 rej |-> v[5], uof |-> v[6], lvs |-> v[7], lvt |-> v[8], fs |-> v[9]]
    [] k = 1 -> [kind |-> "L", side |-> v[1], px |-> <<v[2]>>, bl |-> v[3], ql |-> N(0),
                 minb |-> N(0), minq |-> N(0), stb |-> v[4], ml |-> v[5], coid |-> v[6],
                 rej |-> FALSE, uof |-> v[7], lvs |-> v[8], lvt |-> v[9], fs |-> v[10]]
    [] k = 2 -> [kind |-> "IOC", side |-> v[1], px |-> v[2], bl |-> v[3], ql |-> v[4],
                 minb |-> v[5], minq |-> v[6], stb |-> v[7], ml |-> v[8], coid |-> v[9],
                 rej |-> FALSE, uof |-> v[10], lvs |-> v[11], lvt |-> v[12], fs |-> FALSE]
DOrder(b) ==
  LET q == OrderFields(PStart(b \o <<0, 0, 0>>))
  IN IF b # <<>> /\ q.ok /\ q.i > Len(b) THEN Order(q.v, b[1]) ELSE BadArg
\* an order that leaves out some of its last fields
Partial(b) ==
  b # <<>> /\ "bad" \notin DOMAIN DOrder(b) /\ ~OrderFields(PStart(b)).ok

Arg(q, r) == IF AllRead(q) THEN r ELSE BadArg
DReduce(b) ==
  LET q == U64(U64(U64(PSide(PStart(b)))))
  IN Arg(q, [side |-> q.v[1], px |-> q.v[2], seq |-> q.v[3], sz |-> q.v[4]])
DUpTo(b) ==
  LET q == POpt(POpt(POpt(PSide(PStart(b)), 8), 4), 4)
  IN Arg(q, [side |-> q.v[1], tl |-> q.v[2], ns |-> q.v[3], nc |-> q.v[4]])
DIds(b) ==
  LET item(q) == U64(U64(PSide(q)))
      make(v) == [side |-> v[1], px |-> v[2], seq |-> v[3]]
      q == PList(PStart(b), item, make)
  IN Arg(q, [ids |-> q.v[1]])
DWithdraw(b) ==
  LET q == POpt(POpt(PStart(b), 8), 8) IN Arg(q, [q |-> q.v[1], b |-> q.v[2]])
DDeposit(b) ==
  LET q == U64(U64(PStart(b))) IN Arg(q, [q |-> q.v[1], b |-> q.v[2]])
DMulti(b) ==
  LET item(q) == POpt(POpt(U64(U64(q)), 8), 8)
      make(v) == [px |-> v[1], sz |-> v[2], lvs |-> v[3], lvt |-> v[4]]
      q == PEnum(POpt(PList(PList(PStart(b), item, make), item, make), 16), <<0, 1, 2, 3>>)
  IN Arg(q, [bids |-> q.v[1], asks |-> q.v[2], coid |-> q.v[3], beh |-> q.v[4]])
DInit(b, pk(_)) ==
  LET q == POpt(Key(PInt(U64(U64(U64(U64(U64(U64(PStart(b))))))), 2)), 4)
  IN Arg(q, [b |-> q.v[1], a |-> q.v[2], s |-> q.v[3], nq |-> q.v[4], tick |-> q.v[5],
             nb |-> q.v[6], fee |-> q.v[7], col |-> pk(q.v[8]), raw |-> q.v[9]])
DKey(b, pk(_)) == LET q == Key(PStart(b)) IN Arg(q, [succ |-> pk(q.v[1])])
DStatus(b) ==
  LET q == PEnum(PStart(b), <<"UN", "AC", "PO", "PA", "CL", "TO">>) IN Arg(q, [st |-> q.v[1]])
DSeat(b) == LET q == PEnum(PStart(b), <<"NA", "AP", "RT">>) IN Arg(q, [st |-> q.v[1]])

\* pk maps an address (number) to its account name
Decode(ix, b, pk(_)) ==
  CASE ix \in {"Swap", "SwapFF", "PlaceLimit", "PlaceLimitFF"} -> DOrder(b)
    [] ix \in {"Multi", "MultiFF"} -> DMulti(b)
    [] ix \in {"Reduce", "ReduceFF"} -> DReduce(b)
    [] ix \in {"CancelUpTo", "CancelUpToFF", "ForceCancel"} -> DUpTo(b)
    [] ix \in {"CancelById", "CancelByIdFF"} -> DIds(b)
    [] ix = "Withdraw" -> DWithdraw(b)
    [] ix = "Deposit" -> DDeposit(b)
    [] ix = "Init" -> DInit(b, pk)
    [] ix = "NameSuccessor" -> DKey(b, pk)
    [] ix = "ChangeMarketStatus" -> DStatus(b)
    [] ix = "ChangeSeatStatus" -> DSeat(b)
    [] OTHER -> [none |-> TRUE]
=============================================================================
