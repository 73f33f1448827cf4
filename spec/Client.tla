------------------------------- MODULE Client -------------------------------
(* The client library: what each published builder of instructions must   *)
(* produce, what the order constructors mean, and what the ladder shows.  *)
(*                                                                        *)
(* Built(f, in) is [ix, a, accs]: the instruction, its arguments and the  *)
(* accounts in order, [n, s, w] (name, must sign, may change). A request  *)
(* in has the fields the builder takes: m market, t trader, bm and qm     *)
(* mints, ba and qa token accounts, au authority (or sweeper), pay payer, *)
(* fr recipient, cur current recipient, seat, cr creator, a arguments.    *)
EXTENDS Phoenix

RO(n) == [n |-> n, s |-> FALSE, w |-> FALSE]
RW(n) == [n |-> n, s |-> FALSE, w |-> TRUE]
SG(n) == [n |-> n, s |-> TRUE, w |-> FALSE]
SW(n) == [n |-> n, s |-> TRUE, w |-> TRUE]

\* a wallet's associated token account for a mint
Ata(t, mint) == t \o (CASE mint = "B" -> ".b" [] mint = "Q" -> ".q" [] OTHER -> ".x")

Has(r, f) == f \in DOMAIN r
Head4(in, who) == <<RO("phoenix"), RO("log"), RW(in.m), who>>
\* token accounts of the trader and vaults, as every settling instruction names them
Money(in) ==
  << RW(IF Has(in, "ba") THEN in.ba ELSE Ata(in.t, in.bm)),
     RW(IF Has(in, "qa") THEN in.qa ELSE Ata(in.t, in.qm)),
     RW(VaultAddr(in.m, in.bm)), RW(VaultAddr(in.m, in.qm)), RO("token") >>
Seat(in) == IF Has(in, "seat") THEN in.seat ELSE SeatAddr(in.m, in.t)

NoArgs == [none |-> TRUE]
Bd(ix, a, accs) == [ix |-> ix, a |-> a, accs |-> accs]
\* settling with token accounts, with deposited funds, or with a seat as well
Tok(ix, in) == Bd(ix, IF Has(in, "a") THEN in.a ELSE NoArgs, Head4(in, SG(in.t)) \o Money(in))
Free(ix, in) == Bd(ix, IF Has(in, "a") THEN in.a ELSE NoArgs, Head4(in, SG(in.t)))
TokSeat(ix, in) == Bd(ix, in.a, Head4(in, SG(in.t)) \o <<RO(Seat(in))>> \o Money(in))
FreeSeat(ix, in) == Bd(ix, in.a, Head4(in, SG(in.t)) \o <<RO(Seat(in))>>)
Adm(ix, in, who, rest) == Bd(ix, IF Has(in, "a") THEN in.a ELSE NoArgs, Head4(in, who) \o rest)

Ioc(in) == in.a.kind = "IOC"

Built(f, in) ==
  CASE f \in {"create_new_order_instruction", "create_new_order_instruction_with_custom_token_accounts"} ->
         IF Ioc(in) THEN Tok("Swap", in) ELSE TokSeat("PlaceLimit", in)
    [] f = "create_new_order_with_free_funds_instruction" ->
         FreeSeat(IF Ioc(in) THEN "SwapFF" ELSE "PlaceLimitFF", in)
    [] f \in {"create_new_multiple_order_instruction",
              "create_new_multiple_order_instruction_with_custom_token_accounts"} -> TokSeat("Multi", in)
    [] f = "create_new_multiple_order_with_free_funds_instruction" -> FreeSeat("MultiFF", in)
    [] f = "create_cancel_all_order_with_free_funds_instruction" -> Free("CancelAllFF", in)
    [] f \in {"create_cancel_all_orders_instruction",
              "create_cancel_all_orders_instruction_with_custom_token_accounts"} -> Tok("CancelAll", in)
    [] f \in {"create_cancel_up_to_instruction",
              "create_cancel_up_to_instruction_with_custom_token_accounts"} -> Tok("CancelUpTo", in)
    [] f = "create_cancel_up_to_with_free_funds_instruction" -> Free("CancelUpToFF", in)
    [] f \in {"create_cancel_multiple_orders_by_id_instruction",
              "create_cancel_multiple_orders_by_id_instruction_with_custom_token_accounts"} -> Tok("CancelById", in)
    [] f = "create_cancel_multiple_orders_by_id_with_free_funds_instruction" -> Free("CancelByIdFF", in)
    [] f \in {"reduce_order_instruction",
              "create_reduce_order_instruction_with_custom_token_accounts"} -> Tok("Reduce", in)
    [] f = "create_reduce_order_with_free_funds_instruction" -> Free("ReduceFF", in)
    [] f \in {"create_deposit_funds_instruction",
              "create_deposit_funds_instruction_with_custom_token_accounts"} -> TokSeat("Deposit", in)
    [] f \in {"create_withdraw_funds_instruction",
              "create_withdraw_funds_instruction_with_custom_token_accounts"} ->
         Tok("Withdraw", [a |-> [q |-> <<>>, b |-> <<>>]] @@ in)
    [] f \in {"create_withdraw_funds_with_custom_amounts_instruction",
              "create_withdraw_funds_with_custom_amounts_instruction_with_custom_token_accounts"} -> Tok("Withdraw", in)
    [] f = "create_request_seat_instruction" ->
         Adm("RequestSeat", in, SW(in.t), <<RW(SeatAddr(in.m, in.t)), RO("system")>>)
    [] f = "create_request_seat_authorized_instruction" ->
         Adm("RequestSeatAuthorized", in, SG(in.au),
             <<SW(in.pay), RO(in.t), RW(SeatAddr(in.m, in.t)), RO("system")>>)
    [] f = "create_change_seat_status_instruction" ->
         Adm("ChangeSeatStatus", in, SG(in.au), <<RW(SeatAddr(in.m, in.t))>>)
    [] f = "create_change_market_status_instruction" -> Adm("ChangeMarketStatus", in, SW(in.au), <<>>)
    [] f = "create_name_successor_instruction" -> Adm("NameSuccessor", in, SG(in.au), <<>>)
    [] f = "create_claim_authority_instruction" -> Adm("ClaimAuthority", in, SG(in.au), <<>>)
    [] f = "create_evict_seat_instruction" ->
         Adm("EvictSeat", in, SG(in.au), <<RO(in.t), RO(SeatAddr(in.m, in.t))>> \o Money(in))
    [] f = "create_force_cancel_orders_instructions" ->
         Adm("ForceCancel", in, SG(in.au), <<RO(in.t), RO(SeatAddr(in.m, in.t))>> \o Money(in))
    [] f = "create_collect_fees_instruction_default" ->
         Adm("CollectFees", in, SG(in.au),
             <<RW(Ata(in.fr, in.qm)), RW(VaultAddr(in.m, in.qm)), RO("token")>>)
    [] f = "create_collect_fees_instruction" ->
         Adm("CollectFees", in, SG(in.au), <<RW(in.qa), RW(VaultAddr(in.m, in.qm)), RO("token")>>)
    [] f = "create_change_fee_recipient_instruction" ->
         Adm("ChangeFeeRecipient", in, SG(in.au), <<RO(in.fr)>>)
    [] f = "create_change_fee_recipient_with_unclaimed_fees_instruction" ->
         Adm("ChangeFeeRecipient", in, SG(in.au), <<RO(in.fr), SG(in.cur)>>)
    [] f \in {"create_initialize_market_instructions", "create_initialize_market_instructions_default"} ->
         Adm("Init", in, SW(in.cr),
             <<RO(in.bm), RO(in.qm), RW(VaultAddr(in.m, in.bm)), RW(VaultAddr(in.m, in.qm)),
               RO("system"), RO("token")>>)

\* creating the market account: <<>> when the size is not offered
Create(in) ==
  IF <<in.a.b, in.a.a, in.a.s>> \notin Sizes THEN <<>>
  ELSE << [prog |-> "system", accs |-> <<SW(in.cr), SW(in.m)>>,
           lam |-> RentFor(MarketLen(in.a.b, in.a.a, in.a.s)),
           len |-> MarketLen(in.a.b, in.a.a, in.a.s), own |-> "phoenix"] >>

-----------------------------------------------------------------------------
(* Order constructors                                                     *)
PO(in, coid, rej, uof) ==
  [kind |-> "PO", side |-> in.side, px |-> <<in.px>>, bl |-> in.bl, ql |-> Z, minb |-> Z, minq |-> Z,
   stb |-> "AB", ml |-> <<>>, coid |-> coid, rej |-> rej, uof |-> uof, lvs |-> <<>>, lvt |-> <<>>,
   fs |-> FALSE]
Lim(in, stb, ml, coid, uof) ==
  [kind |-> "L", side |-> in.side, px |-> <<in.px>>, bl |-> in.bl, ql |-> Z, minb |-> Z, minq |-> Z,
   stb |-> stb, ml |-> ml, coid |-> coid, rej |-> FALSE, uof |-> uof, lvs |-> <<>>, lvt |-> <<>>,
   fs |-> FALSE]
Imm(side, px, bl, ql, minb, minq, in) ==
  [kind |-> "IOC", side |-> side, px |-> px, bl |-> bl, ql |-> ql, minb |-> minb, minq |-> minq,
   stb |-> in.stb, ml |-> in.ml, coid |-> in.coid, rej |-> FALSE, uof |-> in.uof, lvs |-> <<>>,
   lvt |-> <<>>, fs |-> FALSE]
Plain(in) == [in EXCEPT !.stb = "CP", !.ml = <<>>, !.coid = Z, !.uof = FALSE]

Constructed(f, in) ==
  CASE f = "new_post_only_default" -> PO(in, Z, TRUE, FALSE)
    [] f = "new_post_only_default_with_client_order_id" -> PO(in, in.coid, TRUE, FALSE)
    [] f = "new_adjustable_post_only_default_with_client_order_id" -> PO(in, in.coid, FALSE, FALSE)
    [] f = "new_post_only" -> PO(in, in.coid, in.rej, in.uof)
    [] f = "new_limit_order_default" -> Lim(in, "CP", <<>>, Z, FALSE)
    [] f = "new_limit_order_default_with_client_order_id" -> Lim(in, "CP", <<>>, in.coid, FALSE)
    [] f = "new_limit_order" -> Lim(in, in.stb, in.ml, in.coid, in.uof)
    [] f = "new_fok_sell_with_limit_price" -> Imm("A", <<in.px>>, in.bl, Z, in.bl, Z, in)
    [] f = "new_fok_buy_with_limit_price" -> Imm("B", <<in.px>>, in.bl, Z, in.bl, Z, in)
    [] f = "new_ioc_sell_with_limit_price" -> Imm("A", <<in.px>>, in.bl, Z, Z, Z, in)
    [] f = "new_ioc_buy_with_limit_price" -> Imm("B", <<in.px>>, Z, in.x, Z, Z, in)
    [] f = "new_ioc_by_lots" -> Imm(in.side, <<in.px>>, in.bl, Z, Z, Z, in)
    [] f = "new_ioc_buy_with_slippage" -> Imm("B", <<>>, Z, in.x, in.bl, Z, Plain(in))
    [] f = "new_ioc_sell_with_slippage" -> Imm("A", <<>>, in.bl, Z, Z, in.x, Plain(in))
    [] f = "new_ioc" -> [Imm(in.side, <<in.px>>, in.bl, Z, in.x, in.x1, in)
                           EXCEPT !.lvs = in.lvs, !.lvt = in.lvt]

-----------------------------------------------------------------------------
(* The ladder                                                             *)
RECURSIVE Levels(_)
Levels(b) ==
  IF b = <<>> THEN <<>>
  ELSE LET r == Levels(SubSeq(b, 1, Len(b) - 1))
           o == b[Len(b)]
       IN IF r # <<>> /\ r[Len(r)].px = o.px
          THEN [r EXCEPT ![Len(r)].sz = (@ ++ o.sz)]
          ELSE Append(r, [px |-> o.px, sz |-> o.sz])
Ladder(b, levels, slot, ts) ==
  LET live == SelectSeq(b, LAMBDA o : ~Expired(o, slot, ts))
      all == Levels(live)
  IN SubSeq(all, 1, ToInt(levels, Len(all)))
=============================================================================
