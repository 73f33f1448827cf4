//! Probes of the client library: the published instruction builders, order constructors, the order
//! decoder and the ladder.
use crate::gen::Gen;
use crate::obs::{self, q, Mkt, Names};
use crate::vm::{Acct, Meta};
use crate::wire::{Cond, Kind, Order, S};
use phoenix::program::deposit::DepositParams;
use phoenix::program::new_order::{CondensedOrder, FailedMultipleLimitOrderBehavior, MultipleOrderPacket};
use phoenix::program::status::{MarketStatus, SeatApprovalStatus};
use phoenix::program::withdraw::WithdrawParams;
use phoenix::program::*;
use phoenix::quantities::{BaseLots, QuoteLots, Ticks, WrapperU64};
use phoenix::state::{decode_order_packet, OrderPacket, SelfTradeBehavior, Side};
use solana_program::instruction::Instruction;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn ladder(name: &str, a: &Acct, levels: u64, slot: Option<u64>, ts: Option<u64>) -> String {
    let o = |v: Option<u64>| v.map(|x| format!("[\"{}\"]", x)).unwrap_or_else(|| "[]".into());
    let got = catch_unwind(AssertUnwindSafe(|| {
        let h: MarketHeader = bytemuck::pod_read_unaligned(&a.data[..obs::HDR]);
        let body = obs::aligned(&a.data[obs::HDR..]);
        let bytes: &[u8] = bytemuck::cast_slice(&body);
        let w = load_with_dispatch(&h.market_size_params, &bytes[..a.data.len() - obs::HDR]).ok()?;
        let l = if slot.is_none() && ts.is_none() { w.inner.get_ladder(levels) } else { w.inner.get_ladder_with_expiration(levels, slot, ts) };
        let t = if slot.is_none() && ts.is_none() { w.inner.get_typed_ladder(levels) } else { w.inner.get_typed_ladder_with_expiration(levels, slot, ts) };
        let f = |v: Vec<(u64, u64)>| v.iter().map(|(p, s)| format!("{{\"px\":\"{}\",\"sz\":\"{}\"}}", p, s)).collect::<Vec<_>>().join(",");
        let p = |v: &[phoenix::state::markets::LadderOrder]| f(v.iter().map(|x| (x.price_in_ticks, x.size_in_base_lots)).collect());
        let r = |v: &[phoenix::state::markets::TypedLadderOrder]| f(v.iter().map(|x| (x.price_in_ticks.as_u64(), x.size_in_base_lots.as_u64())).collect());
        Some(format!("\"bids\":[{}],\"asks\":[{}],\"tbids\":[{}],\"tasks\":[{}]", p(&l.bids), p(&l.asks), r(&t.bids), r(&t.asks)))
    }));
    let got = got.ok().flatten();
    format!(
        "\"k\":\"ladder\",\"m\":{},\"levels\":\"{}\",\"slot\":{},\"ts\":{},\"got\":{}",
        q(name), levels, o(slot), o(ts),
        got.map(|g| format!("[{{{}}}]", g)).unwrap_or_else(|| "[]".into())
    )
}

fn on(v: Option<u64>) -> String {
    v.map(|x| format!("[\"{}\"]", x)).unwrap_or_else(|| "[]".into())
}
fn sd(s: Side) -> &'static str {
    match s {
        Side::Bid => "B",
        Side::Ask => "A",
    }
}
fn stb(s: SelfTradeBehavior) -> &'static str {
    match s {
        SelfTradeBehavior::Abort => "AB",
        SelfTradeBehavior::CancelProvide => "CP",
        SelfTradeBehavior::DecrementTake => "DT",
    }
}
#[allow(clippy::too_many_arguments)]
fn order_json(
    kind: &str, side: &str, px: &str, bl: u64, ql: u64, minb: u64, minq: u64, st: &str, ml: Option<u64>, coid: u128,
    rej: bool, uof: bool, lvs: Option<u64>, lvt: Option<u64>, fs: bool,
) -> String {
    format!(
        "{{\"kind\":\"{}\",\"side\":\"{}\",\"px\":{},\"bl\":\"{}\",\"ql\":\"{}\",\"minb\":\"{}\",\"minq\":\"{}\",\"stb\":\"{}\",\"ml\":{},\"coid\":\"{}\",\"rej\":{},\"uof\":{},\"lvs\":{},\"lvt\":{},\"fs\":{}}}",
        kind, side, px, bl, ql, minb, minq, st, on(ml), coid, rej, uof, on(lvs), on(lvt), fs
    )
}
/// The real order's fields.
pub fn packet_json(p: &OrderPacket) -> String {
    match *p {
        OrderPacket::PostOnly {
            side, price_in_ticks, num_base_lots, client_order_id, reject_post_only, use_only_deposited_funds, last_valid_slot,
            last_valid_unix_timestamp_in_seconds, fail_silently_on_insufficient_funds,
        } => order_json(
            "PO", sd(side), &on(Some(price_in_ticks.as_u64())), num_base_lots.as_u64(), 0, 0, 0, "AB", None, client_order_id,
            reject_post_only, use_only_deposited_funds, last_valid_slot, last_valid_unix_timestamp_in_seconds,
            fail_silently_on_insufficient_funds,
        ),
        OrderPacket::Limit {
            side, price_in_ticks, num_base_lots, self_trade_behavior, match_limit, client_order_id, use_only_deposited_funds,
            last_valid_slot, last_valid_unix_timestamp_in_seconds, fail_silently_on_insufficient_funds,
        } => order_json(
            "L", sd(side), &on(Some(price_in_ticks.as_u64())), num_base_lots.as_u64(), 0, 0, 0, stb(self_trade_behavior),
            match_limit, client_order_id, false, use_only_deposited_funds, last_valid_slot,
            last_valid_unix_timestamp_in_seconds, fail_silently_on_insufficient_funds,
        ),
        OrderPacket::ImmediateOrCancel {
            side, price_in_ticks, num_base_lots, num_quote_lots, min_base_lots_to_fill, min_quote_lots_to_fill,
            self_trade_behavior, match_limit, client_order_id, use_only_deposited_funds, last_valid_slot,
            last_valid_unix_timestamp_in_seconds,
        } => order_json(
            "IOC", sd(side), &on(price_in_ticks.map(|x| x.as_u64())), num_base_lots.as_u64(), num_quote_lots.as_u64(),
            min_base_lots_to_fill.as_u64(), min_quote_lots_to_fill.as_u64(), stb(self_trade_behavior), match_limit,
            client_order_id, false, use_only_deposited_funds, last_valid_slot, last_valid_unix_timestamp_in_seconds, false,
        ),
    }
}
fn side_of(s: S) -> Side {
    if s == S::B { Side::Bid } else { Side::Ask }
}
fn stb_of(x: u8) -> SelfTradeBehavior {
    match x {
        0 => SelfTradeBehavior::Abort,
        1 => SelfTradeBehavior::CancelProvide,
        _ => SelfTradeBehavior::DecrementTake,
    }
}
/// What the client asks for, as the specification's record.
pub fn intent(o: &Order) -> String {
    let s = if o.side == S::B { "B" } else { "A" };
    let t = ["AB", "CP", "DT"][o.stb.min(2) as usize];
    match o.kind {
        Kind::PO => order_json("PO", s, &on(o.px), o.bl, 0, 0, 0, "AB", None, o.coid, o.rej, o.uof, o.lvs, o.lvt, o.fs),
        Kind::L => order_json("L", s, &on(o.px), o.bl, 0, 0, 0, t, o.ml, o.coid, false, o.uof, o.lvs, o.lvt, o.fs),
        Kind::IOC => order_json("IOC", s, &on(o.px), o.bl, o.ql, o.minb, o.minq, t, o.ml, o.coid, false, o.uof, o.lvs, o.lvt, false),
    }
}
pub fn packet(o: &Order) -> OrderPacket {
    let side = side_of(o.side);
    match o.kind {
        Kind::PO => OrderPacket::PostOnly {
            side, price_in_ticks: Ticks::new(o.px.unwrap_or(0)), num_base_lots: BaseLots::new(o.bl), client_order_id: o.coid,
            reject_post_only: o.rej, use_only_deposited_funds: o.uof, last_valid_slot: o.lvs,
            last_valid_unix_timestamp_in_seconds: o.lvt, fail_silently_on_insufficient_funds: o.fs,
        },
        Kind::L => OrderPacket::Limit {
            side, price_in_ticks: Ticks::new(o.px.unwrap_or(0)), num_base_lots: BaseLots::new(o.bl),
            self_trade_behavior: stb_of(o.stb), match_limit: o.ml, client_order_id: o.coid, use_only_deposited_funds: o.uof,
            last_valid_slot: o.lvs, last_valid_unix_timestamp_in_seconds: o.lvt, fail_silently_on_insufficient_funds: o.fs,
        },
        Kind::IOC => OrderPacket::ImmediateOrCancel {
            side, price_in_ticks: o.px.map(Ticks::new), num_base_lots: BaseLots::new(o.bl), num_quote_lots: QuoteLots::new(o.ql),
            min_base_lots_to_fill: BaseLots::new(o.minb), min_quote_lots_to_fill: QuoteLots::new(o.minq),
            self_trade_behavior: stb_of(o.stb), match_limit: o.ml, client_order_id: o.coid, use_only_deposited_funds: o.uof,
            last_valid_slot: o.lvs, last_valid_unix_timestamp_in_seconds: o.lvt,
        },
    }
}

pub fn bytes(d: &[u8]) -> String {
    format!("[{}]", d.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(","))
}
pub fn decode(d: &[u8]) -> String {
    let got = catch_unwind(AssertUnwindSafe(|| decode_order_packet(d))).unwrap_or(None);
    format!("\"k\":\"decode\",\"d\":{},\"got\":{}", bytes(d), got.map(|p| packet_json(&p)).unwrap_or_else(|| "{\"bad\":true}".into()))
}

fn metas_json(n: &Names, i: &Instruction) -> String {
    let v: Vec<String> = i
        .accounts
        .iter()
        .map(|m| format!("{{\"n\":{},\"s\":{},\"w\":{}}}", q(&n.of(&m.pubkey)), m.is_signer, m.is_writable))
        .collect();
    format!("[{}]", v.join(","))
}
fn run_built(g: &mut Gen, at: usize, f: &str, args: String, i: Instruction) -> usize {
    let b = format!(
        ",\"b\":{{\"f\":{},\"in\":{{{}}},\"prog\":{},\"accs\":{}}}",
        q(f), args, q(&g.env.names.of(&i.program_id)), metas_json(&g.env.names, &i)
    );
    let metas: Vec<Meta> = i.accounts.iter().map(|m| Meta { key: m.pubkey, s: m.is_signer, w: m.is_writable }).collect();
    let (s, t) = g.clock(at);
    g.run.call(at, &metas, &i.data, s, t, &b).0
}
fn cond_json(v: &[Cond]) -> String {
    let x: Vec<String> =
        v.iter().map(|c| format!("{{\"px\":\"{}\",\"sz\":\"{}\",\"lvs\":{},\"lvt\":{}}}", c.px, c.sz, on(c.lvs), on(c.lvt))).collect();
    format!("[{}]", x.join(","))
}
fn conds(v: &[Cond]) -> Vec<CondensedOrder> {
    v.iter()
        .map(|c| CondensedOrder {
            price_in_ticks: c.px, size_in_base_lots: c.sz, last_valid_slot: c.lvs, last_valid_unix_timestamp_in_seconds: c.lvt,
        })
        .collect()
}

/// One call made by a builder, or a look at an order constructor.
pub fn built(g: &mut Gen, at: usize, m: &Mkt) -> usize {
    let mk = g.r.w(&[("m0", 12), ("m1", 1)]).to_string();
    let t = g.any_trader();
    let (bm, qm) = *g.r.w(&[(("B", "Q"), 20), (("X", "Q"), 1), (("B", "X"), 1)]);
    let (km, kt, kb, kq) = (g.env.k(&mk), g.env.k(&t), g.env.k(bm), g.env.k(qm));
    let side = g.side();
    // custom token accounts
    let ca = |g: &mut Gen, own: &str, alt: &str, s: &str| {
        if t == "w0" && g.r.p(50) { alt.to_string() } else if g.r.p(90) { format!("{}.{}", t, s) } else { own.to_string() }
    };
    let ba = ca(g, "w1.b", "w0.b2", "b");
    let qa = ca(g, "w1.q", "w0.q2", "q");
    let (kba, kqa) = (g.env.k(&ba), g.env.k(&qa));
    let who = format!("\"m\":{},\"t\":{},\"bm\":{},\"qm\":{}", q(&mk), q(&t), q(bm), q(qm));
    let cust = format!("{},\"ba\":{},\"qa\":{}", who, q(&ba), q(&qa));
    let au = g.auth(m);
    let au = if g.env.names.by_name.contains_key(&au) { au } else { "adm".to_string() };
    let kau = g.env.k(&au);
    let kind = *g.r.of(&[Kind::PO, Kind::L, Kind::IOC]);
    let n = g.r.n(43);
    match n {
        0..=4 => {
            let ff = n >= 3;
            let uof = if g.r.p(5) { !ff } else { ff };
            let o = g.order(at, m, kind, side, uof, &t);
            let p = packet(&o);
            let a = format!("\"a\":{}", intent(&o));
            match n {
                0 | 1 => run_built(g, at, "create_new_order_instruction", format!("{},{}", who, a),
                    create_new_order_instruction(&km, &kt, &kb, &kq, &p)),
                2 => run_built(g, at, "create_new_order_instruction_with_custom_token_accounts", format!("{},{}", cust, a),
                    create_new_order_instruction_with_custom_token_accounts(&km, &kt, &kba, &kqa, &kb, &kq, &p)),
                _ => run_built(g, at, "create_new_order_with_free_funds_instruction", format!("{},{}", who, a),
                    create_new_order_with_free_funds_instruction(&km, &kt, &p)),
            }
        }
        5..=7 => {
            let bids = g.conds(at, m, S::B);
            let asks = g.conds(at, m, S::A);
            let coid = if g.r.p(50) { None } else { Some(g.r.next() as u128) };
            let beh = g.r.n(4) as u8;
            let a = format!("\"a\":{{\"bids\":{},\"asks\":{},\"coid\":{},\"beh\":{}}}", cond_json(&bids), cond_json(&asks),
                coid.map(|c| format!("[\"{}\"]", c)).unwrap_or_else(|| "[]".into()), beh);
            let p = MultipleOrderPacket {
                bids: conds(&bids), asks: conds(&asks), client_order_id: coid,
                failed_multiple_limit_order_behavior: match beh {
                    0 => FailedMultipleLimitOrderBehavior::FailOnInsufficientFundsAndAmendOnCross,
                    1 => FailedMultipleLimitOrderBehavior::FailOnInsufficientFundsAndFailOnCross,
                    2 => FailedMultipleLimitOrderBehavior::SkipOnInsufficientFundsAndAmendOnCross,
                    _ => FailedMultipleLimitOrderBehavior::SkipOnInsufficientFundsAndFailOnCross,
                },
            };
            match n {
                5 => run_built(g, at, "create_new_multiple_order_instruction", format!("{},{}", who, a),
                    create_new_multiple_order_instruction(&km, &kt, &kb, &kq, &p)),
                6 => run_built(g, at, "create_new_multiple_order_instruction_with_custom_token_accounts", format!("{},{}", cust, a),
                    create_new_multiple_order_instruction_with_custom_token_accounts(&km, &kt, &kba, &kqa, &kb, &kq, &p)),
                _ => run_built(g, at, "create_new_multiple_order_with_free_funds_instruction", format!("{},{}", who, a),
                    create_new_multiple_order_with_free_funds_instruction(&km, &kt, &p)),
            }
        }
        8 => run_built(g, at, "create_cancel_all_order_with_free_funds_instruction", who,
            create_cancel_all_order_with_free_funds_instruction(&km, &kt)),
        9 => run_built(g, at, "create_cancel_all_orders_instruction", who, create_cancel_all_orders_instruction(&km, &kt, &kb, &kq)),
        10 => run_built(g, at, "create_cancel_all_orders_instruction_with_custom_token_accounts", cust,
            create_cancel_all_orders_instruction_with_custom_token_accounts(&km, &kt, &kba, &kqa, &kb, &kq)),
        11..=13 => {
            let px = m.side(side).get(g.r.n(4) as usize).map(|o| o.px).unwrap_or(5);
            let tl = if g.r.p(50) { None } else { Some(px) };
            let ns = if g.r.p(55) { None } else { Some(g.r.n(5) as u32) };
            let nc = if g.r.p(55) { None } else { Some(g.r.n(4) as u32) };
            let p = CancelUpToParams { side: side_of(side), tick_limit: tl, num_orders_to_search: ns, num_orders_to_cancel: nc };
            let a = format!("\"a\":{{\"side\":\"{}\",\"tl\":{},\"ns\":{},\"nc\":{}}}", sd(p.side), on(tl), on(ns.map(|x| x as u64)), on(nc.map(|x| x as u64)));
            match n {
                11 => run_built(g, at, "create_cancel_up_to_instruction", format!("{},{}", who, a),
                    create_cancel_up_to_instruction(&km, &kt, &kb, &kq, &p)),
                12 => run_built(g, at, "create_cancel_up_to_instruction_with_custom_token_accounts", format!("{},{}", cust, a),
                    create_cancel_up_to_instruction_with_custom_token_accounts(&km, &kt, &kba, &kqa, &kb, &kq, &p)),
                _ => run_built(g, at, "create_cancel_up_to_with_free_funds_instruction", format!("{},{}", who, a),
                    create_cancel_up_to_with_free_funds_instruction(&km, &kt, &p)),
            }
        }
        14..=16 => {
            let k = g.r.n(4);
            let ids: Vec<_> = (0..k).map(|_| g.target(m, &t)).collect();
            let a: Vec<String> = ids.iter().map(|x| format!("{{\"side\":\"{}\",\"px\":\"{}\",\"seq\":\"{}\"}}", sd(side_of(x.0)), x.1, x.2)).collect();
            let a = format!("\"a\":{{\"ids\":[{}]}}", a.join(","));
            let p = CancelMultipleOrdersByIdParams {
                orders: ids.iter().map(|x| CancelOrderParams { side: side_of(x.0), price_in_ticks: x.1, order_sequence_number: x.2 }).collect(),
            };
            match n {
                14 => run_built(g, at, "create_cancel_multiple_orders_by_id_instruction", format!("{},{}", who, a),
                    create_cancel_multiple_orders_by_id_instruction(&km, &kt, &kb, &kq, &p)),
                15 => run_built(g, at, "create_cancel_multiple_orders_by_id_instruction_with_custom_token_accounts", format!("{},{}", cust, a),
                    create_cancel_multiple_orders_by_id_instruction_with_custom_token_accounts(&km, &kt, &kba, &kqa, &kb, &kq, &p)),
                _ => run_built(g, at, "create_cancel_multiple_orders_by_id_with_free_funds_instruction", format!("{},{}", who, a),
                    create_cancel_multiple_orders_by_id_with_free_funds_instruction(&km, &kt, &p)),
            }
        }
        17..=19 => {
            let x = g.target(m, &t);
            let sz = g.r.r(0, x.3.saturating_add(1).min(1 << 40));
            let a = format!("\"a\":{{\"side\":\"{}\",\"px\":\"{}\",\"seq\":\"{}\",\"sz\":\"{}\"}}", sd(side_of(x.0)), x.1, x.2, sz);
            let p = ReduceOrderParams {
                base_params: CancelOrderParams { side: side_of(x.0), price_in_ticks: x.1, order_sequence_number: x.2 }, size: sz,
            };
            match n {
                17 => run_built(g, at, "reduce_order_instruction", format!("{},{}", who, a), reduce_order_instruction(&km, &kt, &kb, &kq, &p)),
                18 => run_built(g, at, "create_reduce_order_instruction_with_custom_token_accounts", format!("{},{}", cust, a),
                    create_reduce_order_instruction_with_custom_token_accounts(&km, &kt, &kba, &kqa, &kb, &kq, &p)),
                _ => run_built(g, at, "create_reduce_order_with_free_funds_instruction", format!("{},{}", who, a),
                    create_reduce_order_with_free_funds_instruction(&km, &kt, &p)),
            }
        }
        20 | 21 => {
            let (x, y) = (g.r.n(40), g.r.n(40));
            let p = DepositParams { quote_lots_to_deposit: x, base_lots_to_deposit: y };
            let a = format!("\"a\":{{\"q\":\"{}\",\"b\":\"{}\"}}", x, y);
            if n == 20 {
                run_built(g, at, "create_deposit_funds_instruction", format!("{},{}", who, a),
                    create_deposit_funds_instruction(&km, &kt, &kb, &kq, &p))
            } else {
                let seat = if g.r.p(90) { g.env.seat(&mk, &t) } else { "fseat".into() };
                let ks = g.env.k(&seat);
                run_built(g, at, "create_deposit_funds_instruction_with_custom_token_accounts", format!("{},\"seat\":{},{}", cust, q(&seat), a),
                    create_deposit_funds_instruction_with_custom_token_accounts(&km, &kt, &ks, &kba, &kqa, &kb, &kq, &p))
            }
        }
        22 => run_built(g, at, "create_withdraw_funds_instruction", who, create_withdraw_funds_instruction(&km, &kt, &kb, &kq)),
        23 => run_built(g, at, "create_withdraw_funds_instruction_with_custom_token_accounts", cust,
            create_withdraw_funds_instruction_with_custom_token_accounts(&km, &kt, &kba, &kqa, &kb, &kq)),
        24 | 25 => {
            let (x, y) = (g.r.n(30), g.r.n(30));
            if n == 24 {
                let a = format!("\"a\":{{\"q\":[\"{}\"],\"b\":[\"{}\"]}}", y, x);
                run_built(g, at, "create_withdraw_funds_with_custom_amounts_instruction", format!("{},{}", who, a),
                    create_withdraw_funds_with_custom_amounts_instruction(&km, &kt, &kb, &kq, x, y))
            } else {
                let (x, y) = (if g.r.p(50) { Some(x) } else { None }, if g.r.p(50) { Some(y) } else { None });
                let a = format!("\"a\":{{\"q\":{},\"b\":{}}}", on(y), on(x));
                run_built(g, at, "create_withdraw_funds_with_custom_amounts_instruction_with_custom_token_accounts", format!("{},{}", cust, a),
                    create_withdraw_funds_with_custom_amounts_instruction_with_custom_token_accounts(
                        &km, &kt, &kba, &kqa, &kb, &kq, &WithdrawParams { quote_lots_to_withdraw: y, base_lots_to_withdraw: x }))
            }
        }
        26 => run_built(g, at, "create_request_seat_instruction", who, create_request_seat_instruction(&kt, &km)),
        27 => {
            let pay = g.outsider();
            let kp = g.env.k(&pay);
            run_built(g, at, "create_request_seat_authorized_instruction", format!("{},\"au\":{},\"pay\":{}", who, q(&au), q(&pay)),
                create_request_seat_authorized_instruction(&kau, &kp, &km, &kt))
        }
        28 | 29 => {
            let i = g.r.n(3) as usize;
            let st = [SeatApprovalStatus::NotApproved, SeatApprovalStatus::Approved, SeatApprovalStatus::Retired][i];
            let i = if n == 29 { 1 } else { i };
            let st = if n == 29 { SeatApprovalStatus::Approved } else { st };
            run_built(g, at, "create_change_seat_status_instruction",
                format!("{},\"au\":{},\"a\":{{\"st\":\"{}\"}}", who, q(&au), ["NA", "AP", "RT"][i]),
                create_change_seat_status_instruction(&kau, &km, &kt, st))
        }
        30 => {
            let i = g.r.n(6) as usize;
            let i = if m.status != 1 { 1 } else { i };
            let st = [MarketStatus::Uninitialized, MarketStatus::Active, MarketStatus::PostOnly, MarketStatus::Paused,
                MarketStatus::Closed, MarketStatus::Tombstoned][i];
            run_built(g, at, "create_change_market_status_instruction",
                format!("{},\"au\":{},\"a\":{{\"st\":\"{}\"}}", who, q(&au), ["UN", "AC", "PO", "PA", "CL", "TO"][i]),
                create_change_market_status_instruction(&kau, &km, st))
        }
        31 => {
            let s = g.outsider();
            let ks = g.env.k(&s);
            run_built(g, at, "create_name_successor_instruction", format!("{},\"au\":{},\"a\":{{\"succ\":{}}}", who, q(&au), q(&s)),
                create_name_successor_instruction(&kau, &km, &ks))
        }
        32 => {
            let s = if g.r.p(70) { g.nm(&m.succ) } else { g.outsider() };
            let s = if g.env.names.by_name.contains_key(&s) { s } else { "adm".to_string() };
            let ks = g.env.k(&s);
            run_built(g, at, "create_claim_authority_instruction", format!("{},\"au\":{}", who, q(&s)), create_claim_authority_instruction(&ks, &km))
        }
        33 => run_built(g, at, "create_evict_seat_instruction", format!("{},\"au\":{}", who, q(&au)),
            create_evict_seat_instruction(&kau, &km, &kt, &kb, &kq)),
        34 => {
            let v = create_force_cancel_orders_instructions(&km, &kt, &kau, &kb, &kq);
            if v.len() != 2 {
                return g.run.probe(at, format!("\"k\":\"builtn\",\"f\":\"force\",\"n\":{},\"want\":2", v.len()));
            }
            let mut at = at;
            for (i, x) in v.into_iter().enumerate() {
                at = run_built(g, at, "create_force_cancel_orders_instructions",
                    format!("{},\"au\":{},\"a\":{{\"side\":\"{}\",\"tl\":[],\"ns\":[],\"nc\":[]}}", who, q(&au), ["B", "A"][i]), x);
            }
            at
        }
        35 | 36 => {
            let s = g.outsider();
            let f = if g.r.p(80) { g.nm(&m.fr) } else { g.outsider() };
            let f = if g.env.names.by_name.contains_key(&format!("{}.q", f)) { f } else { "fee".to_string() };
            let (ks, kf, kfa) = (g.env.k(&s), g.env.k(&f), g.env.k(&format!("{}.q", f)));
            if n == 35 {
                run_built(g, at, "create_collect_fees_instruction_default", format!("{},\"au\":{},\"fr\":{}", who, q(&s), q(&f)),
                    create_collect_fees_instruction_default(&km, &ks, &kf, &kq))
            } else {
                run_built(g, at, "create_collect_fees_instruction", format!("{},\"au\":{},\"qa\":{}", who, q(&s), q(&format!("{}.q", f))),
                    create_collect_fees_instruction(&km, &ks, &kfa, &kq))
            }
        }
        37 | 38 => {
            let f = g.outsider();
            let cur = g.nm(&m.fr);
            let cur = if g.env.names.by_name.contains_key(&cur) { cur } else { "fee".to_string() };
            let (kf, kc) = (g.env.k(&f), g.env.k(&cur));
            if n == 37 {
                run_built(g, at, "create_change_fee_recipient_instruction", format!("{},\"au\":{},\"fr\":{}", who, q(&au), q(&f)),
                    create_change_fee_recipient_instruction(&kau, &km, &kf))
            } else {
                run_built(g, at, "create_change_fee_recipient_with_unclaimed_fees_instruction",
                    format!("{},\"au\":{},\"fr\":{},\"cur\":{}", who, q(&au), q(&f), q(&cur)),
                    create_change_fee_recipient_with_unclaimed_fees_instruction(&kau, &km, &kf, &kc))
            }
        }
        39 => init(g, at),
        _ => constructor(g, at),
    }
}

fn init(g: &mut Gen, at: usize) -> usize {
    let c = g.init_params();
    let mk = g.r.w(&[("m2", 12), ("m0", 1)]).to_string();
    let cr = g.r.of(&["adm", "eve", "w0"]).to_string();
    let col = g.outsider();
    let dflt = g.r.p(40);
    let (km, kb, kq, kc, kf) = (g.env.k(&mk), g.env.k("B"), g.env.k("Q"), g.env.k(&cr), g.env.k(&col));
    let mut size = c.size;
    if g.r.p(40) {
        size = *g.r.of(&crate::sizes::SIZES);
    }
    let ps = || MarketSizeParams { bids_size: size[0], asks_size: size[1], num_seats: size[2] };
    let f = if dflt { "create_initialize_market_instructions_default" } else { "create_initialize_market_instructions" };
    let v = catch_unwind(AssertUnwindSafe(|| {
        if dflt {
            create_initialize_market_instructions_default(&km, &kb, &kq, &kc, ps(), c.nq, c.nb, c.tick, c.fee, c.raw)
        } else {
            create_initialize_market_instructions(&km, &kb, &kq, &kc, ps(), c.nq, c.nb, c.tick, c.fee, &kf, c.raw)
        }
        .ok()
    }))
    .unwrap_or(None);
    let args = format!(
        "\"m\":{},\"bm\":\"B\",\"qm\":\"Q\",\"cr\":{},\"a\":{{\"b\":\"{}\",\"a\":\"{}\",\"s\":\"{}\",\"nq\":\"{}\",\"tick\":\"{}\",\"nb\":\"{}\",\"fee\":\"{}\",\"col\":{},\"raw\":{}}}",
        q(&mk), q(&cr), size[0], size[1], size[2], c.nq, c.tick, c.nb, c.fee, q(if dflt { &cr } else { &col }), on(c.raw.map(|x| x as u64))
    );
    match v {
        None => g.run.probe(at, format!("\"k\":\"create\",\"f\":{},\"in\":{{{}}},\"got\":[]", q(f), args)),
        Some(v) if v.len() != 2 => g.run.probe(at, format!("\"k\":\"builtn\",\"f\":{},\"n\":{},\"want\":2", q(f), v.len())),
        Some(v) => {
            let b = format!(
                "\"k\":\"create\",\"f\":{},\"in\":{{{}}},\"got\":[{{\"prog\":{},\"accs\":{},\"d\":{}}}]",
                q(f), args, q(&g.env.names.of(&v[0].program_id)), metas_json(&g.env.names, &v[0]), bytes(&v[0].data)
            );
            let at = g.run.probe(at, b);
            let last = v.into_iter().last().unwrap();
            let at = run_built(g, at, f, args.clone(), last);
            if g.r.p(30) && !dflt {
                let i = create_initialize_market_instruction(&km, &kb, &kq, &kc, ps(), c.nq, c.nb, c.tick, c.fee, &kf, c.raw);
                return run_built(g, at, f, args, i);
            }
            at
        }
    }
}

/// The order constructors: what they are given and the order they make.
fn constructor(g: &mut Gen, at: usize) -> usize {
    let (px, bl, x) = (g.r.r(1, 1000), g.r.r(0, 1000), g.r.r(0, 1000));
    let s = g.side();
    let sb = g.r.n(3) as u8;
    let ml = if g.r.p(50) { None } else { Some(g.r.n(20)) };
    let coid = g.r.next() as u128;
    let (uof, rej) = (g.r.p(50), g.r.p(50));
    let (lvs, lvt) = (if g.r.p(50) { None } else { Some(g.r.n(50)) }, if g.r.p(50) { None } else { Some(g.r.n(50)) });
    let side = side_of(s);
    let st = stb_of(sb);
    let (name, p) = match g.r.n(13) {
        0 => ("new_post_only_default", OrderPacket::new_post_only_default(side, px, bl)),
        1 => ("new_post_only_default_with_client_order_id", OrderPacket::new_post_only_default_with_client_order_id(side, px, bl, coid)),
        2 => ("new_adjustable_post_only_default_with_client_order_id",
            OrderPacket::new_adjustable_post_only_default_with_client_order_id(side, px, bl, coid)),
        3 => ("new_post_only", OrderPacket::new_post_only(side, px, bl, coid, rej, uof)),
        4 => ("new_limit_order_default", OrderPacket::new_limit_order_default(side, px, bl)),
        5 => ("new_limit_order_default_with_client_order_id", OrderPacket::new_limit_order_default_with_client_order_id(side, px, bl, coid)),
        6 => ("new_limit_order", OrderPacket::new_limit_order(side, px, bl, st, ml, coid, uof)),
        7 => ("new_fok_sell_with_limit_price", OrderPacket::new_fok_sell_with_limit_price(px, bl, st, ml, coid, uof)),
        8 => ("new_fok_buy_with_limit_price", OrderPacket::new_fok_buy_with_limit_price(px, bl, st, ml, coid, uof)),
        9 => ("new_ioc_sell_with_limit_price", OrderPacket::new_ioc_sell_with_limit_price(px, bl, st, ml, coid, uof)),
        10 => ("new_ioc_buy_with_limit_price", OrderPacket::new_ioc_buy_with_limit_price(px, x, st, ml, coid, uof)),
        11 => ("new_ioc_by_lots", OrderPacket::new_ioc_by_lots(side, px, bl, st, ml, coid, uof)),
        _ => match g.r.n(3) {
            0 => ("new_ioc_buy_with_slippage", OrderPacket::new_ioc_buy_with_slippage(x, bl)),
            1 => ("new_ioc_sell_with_slippage", OrderPacket::new_ioc_sell_with_slippage(bl, x)),
            _ => ("new_ioc", OrderPacket::new_ioc(side, Some(px), bl, 0, x, x + 1, st, ml, coid, uof, lvs, lvt)),
        },
    };
    let b = format!(
        "\"k\":\"packet\",\"f\":\"{}\",\"in\":{{\"side\":\"{}\",\"px\":\"{}\",\"bl\":\"{}\",\"x\":\"{}\",\"x1\":\"{}\",\"stb\":\"{}\",\"ml\":{},\"coid\":\"{}\",\"rej\":{},\"uof\":{},\"lvs\":{},\"lvt\":{}}},\"got\":{}",
        name, sd(side), px, bl, x, x + 1, stb(st), on(ml), coid, rej, uof, on(lvs), on(lvt), packet_json(&p)
    );
    g.run.probe(at, b)
}
