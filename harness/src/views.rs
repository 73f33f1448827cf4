//! Probes of what the library says of a market account, of an order and of quantities.
use crate::build;
use crate::gen::Gen;
use crate::obs::{self, q, Mkt, HDR};
use crate::wire::{Cond, Order, S};
use borsh::BorshSerialize;
use phoenix::program::new_order::{CondensedOrder, FailedMultipleLimitOrderBehavior, MultipleOrderPacket};
use phoenix::program::status::{MarketStatus, SeatApprovalStatus};
use phoenix::program::{load_with_dispatch, MarketHeader};
use phoenix::quantities::*;
use phoenix::state::markets::{FIFOOrderId, FIFORestingOrder, OrderId, RestingOrder};
use phoenix::state::{OrderPacketMetadata, SelfTradeBehavior, Side};
use solana_program::pubkey::Pubkey;
use std::cmp::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn on(v: Option<u64>) -> String {
    v.map(|x| format!("[\"{}\"]", x)).unwrap_or_else(|| "[]".into())
}
fn sd(s: Side) -> &'static str {
    match s {
        Side::Bid => "B",
        Side::Ask => "A",
    }
}
fn ord(o: Option<Ordering>) -> &'static str {
    match o {
        Some(Ordering::Less) => "<",
        Some(Ordering::Equal) => "=",
        Some(Ordering::Greater) => ">",
        None => "?",
    }
}
/// Some JSON, or [] where the library panics.
fn tryq(f: impl FnOnce() -> String) -> String {
    catch_unwind(AssertUnwindSafe(f)).map(|s| format!("[{}]", s)).unwrap_or_else(|_| "[]".into())
}

/// The market as the reading interface shows it.
pub fn view(g: &mut Gen, at: usize, name: &str, slot: u64, ts: u64) -> usize {
    let a = g.run.acct(at, &g.env.k(name));
    let names = g.env.names.clone();
    let prices: Vec<u64> = (0..4).map(|_| g.r.n(100_000)).chain([0, u64::MAX]).collect();
    let stranger = Pubkey::new_unique();
    let got = tryq(|| {
        let h: MarketHeader = bytemuck::pod_read_unaligned(&a.data[..HDR]);
        let body = obs::aligned(&a.data[HDR..]);
        let bytes: &[u8] = bytemuck::cast_slice(&body);
        let w = load_with_dispatch(&h.market_size_params, &bytes[..a.data.len() - HDR]).unwrap();
        let m = w.inner;
        let st = MarketStatus::from(h.status);
        let px: Vec<String> = prices.iter().map(|p| format!("[\"{}\",\"{}\"]", p, h.price_in_ticks(*p))).collect();
        let side = |s: Side| -> String {
            let b = m.get_book(s);
            let v: Vec<String> = b
                .iter()
                .map(|(id, o)| {
                    let again = b.get(id).map(|r| (r.trader_index, r.num_base_lots, r.last_valid_slot)) == Some((o.trader_index, o.num_base_lots, o.last_valid_slot));
                    format!(
                        "{{\"px\":\"{}\",\"seq\":\"{}\",\"side\":\"{}\",\"sz\":\"{}\",\"lvs\":{},\"lvt\":{},\"exp\":{},\"tr\":{},\"again\":{}}}",
                        id.price_in_ticks(), id.order_sequence_number, sd(Side::from_order_sequence_number(id.order_sequence_number)),
                        o.size(), on(o.last_valid_slot()), on(o.last_valid_unix_timestamp_in_seconds()), o.is_expired(slot, ts),
                        q(&names.of(&m.get_trader_id_from_index(o.trader_index as u32))), again && b.contains(id)
                    )
                })
                .collect();
            let ids: Vec<FIFOOrderId> = b.iter().map(|(id, _)| *id).collect();
            let up = ids.windows(2).all(|x| x[0] < x[1] && x[1].cmp(&x[0]) == Ordering::Greater && x[0] != x[1]);
            format!("{{\"os\":[{}],\"up\":{},\"len\":\"{}\",\"cap\":\"{}\"}}", v.join(","), up, b.len(), b.capacity())
        };
        let ts = m.get_registered_traders();
        let tr: Vec<String> = ts
            .iter()
            .map(|(k, _)| {
                let s = m.get_trader_state(k).copied().unwrap_or_default();
                let i = m.get_trader_index(k);
                let back = i.map(|i| m.get_trader_id_from_index(i) == *k && *m.get_trader_state_from_index(i) == s).unwrap_or(false);
                format!(
                    "{}:{{\"ql\":\"{}\",\"qf\":\"{}\",\"bl\":\"{}\",\"bf\":\"{}\",\"back\":{}}}",
                    q(&names.of(k)), s.quote_lots_locked, s.quote_lots_free, s.base_lots_locked, s.base_lots_free, back
                )
            })
            .collect();
        format!(
            "{{\"len\":\"{}\",\"hdr\":\"{}\",\"fee\":\"{}\",\"T\":\"{}\",\"B\":\"{}\",\"oseq\":\"{}\",\"col\":\"{}\",\"unc\":\"{}\",\"bls\":\"{}\",\"qls\":\"{}\",\"tqa\":\"{}\",\"st\":\"{}\",\"may\":[{},{},{},{}],\"px\":[{}],\"bids\":{},\"asks\":{},\"tr\":{{{}}},\"trn\":\"{}\",\"trcap\":\"{}\",\"unk\":{}}}",
            m.get_data_size(), HDR, m.get_taker_fee_bps(), m.get_tick_size(), m.get_base_lots_per_base_unit(), m.get_sequence_number(),
            m.get_collected_fee_amount(), m.get_uncollected_fee_amount(), h.get_base_lot_size(), h.get_quote_lot_size(),
            h.get_tick_size_in_quote_atoms_per_base_unit(), st, st.cross_allowed(), st.post_allowed(), st.reduce_allowed(),
            st.authority_can_cancel(), px.join(","), side(Side::Bid), side(Side::Ask), tr.join(","), ts.len(), ts.capacity(),
            m.get_trader_state(&stranger).is_some() || m.get_trader_index(&stranger).is_some()
        )
    });
    let b = format!("\"k\":\"view\",\"m\":{},\"slot\":\"{}\",\"ts\":\"{}\",\"got\":{}", q(name), slot, ts, got);
    g.run.probe(at, b)
}

/// What an order says of itself.
pub fn desc(g: &mut Gen, at: usize, o: &Order, slot: u64, ts: u64) -> usize {
    let p = build::packet(o);
    let np = g.r.n(1 << 40);
    let got = tryq(|| {
        let mut p2 = p;
        p2.set_price_in_ticks(Ticks::new(np));
        let st = tryq(|| {
            format!("\"{}\"", match p.self_trade_behavior() {
                SelfTradeBehavior::Abort => "AB",
                SelfTradeBehavior::CancelProvide => "CP",
                SelfTradeBehavior::DecrementTake => "DT",
            })
        });
        format!(
            "{{\"ioc\":{},\"fok\":{},\"po\":{},\"take\":{},\"uof\":{},\"side\":\"{}\",\"opp\":\"{}\",\"coid\":\"{}\",\"fs\":{},\"bl\":\"{}\",\"ql\":\"{}\",\"bb\":\"{}\",\"qb\":{},\"ml\":\"{}\",\"stb\":{},\"px\":\"{}\",\"lvs\":{},\"lvt\":{},\"exp\":{},\"set\":{},\"d\":{}}}",
            p.is_ioc(), p.is_fok(), p.is_post_only(), p.is_take_only(), p.no_deposit_or_withdrawal(), sd(p.side()), sd(p.side().opposite()),
            p.client_order_id(), p.fail_silently_on_insufficient_funds(), p.num_base_lots(), p.num_quote_lots(), p.base_lot_budget(),
            on(p.quote_lot_budget().map(|x| x.as_u64())), p.match_limit(), st, p.get_price_in_ticks(), on(p.get_last_valid_slot()),
            on(p.get_last_valid_unix_timestamp_in_seconds()), p.is_expired(slot, ts), build::packet_json(&p2),
            build::bytes(&p.try_to_vec().unwrap())
        )
    });
    let b = format!("\"k\":\"desc\",\"in\":{},\"np\":\"{}\",\"slot\":\"{}\",\"ts\":\"{}\",\"got\":{}", build::intent(o), np, slot, ts, got);
    g.run.probe(at, b)
}

/// Statuses, order ids and resting orders on their own.
pub fn small(g: &mut Gen, at: usize) -> usize {
    const ST: [&str; 6] = ["UN", "AC", "PO", "PA", "CL", "TO"];
    let mut v = vec![];
    for i in 0..6u64 {
        for j in 0..6u64 {
            let (x, y) = (MarketStatus::from(i), MarketStatus::from(j));
            if x.valid_state_transition(&y) || x.assert_valid_state_transition(&y).is_ok() {
                v.push(format!("[\"{}\",\"{}\"]", ST[i as usize], ST[j as usize]));
            }
        }
    }
    let st: Vec<String> = (0..7u64).map(|i| tryq(|| q(&MarketStatus::from(i).to_string()))).collect();
    let ss: Vec<String> = (0..4u64).map(|i| tryq(|| q(&SeatApprovalStatus::from(i).to_string()))).collect();
    // two ids of one side, near each other
    let side = g.side();
    let p = *g.r.of(&[0u64, 1, 5, 1000, 1 << 40, u64::MAX - 1]);
    let s = *g.r.of(&[1u64, 7, 1 << 33, (1 << 63) - 3]);
    let id = |g: &mut Gen| {
        let n = s + g.r.n(3);
        (p + g.r.n(2), if side == S::B { !n } else { n })
    };
    let (a, b) = (id(g), id(g));
    let (x, y) = (FIFOOrderId::new_from_untyped(a.0, a.1), FIFOOrderId::new(Ticks::new(b.0), b.1));
    // a resting order
    let n = g.r.n(1 << 30);
    let lim = |g: &mut Gen| if g.r.p(30) { 0 } else { g.r.r(1, 6) };
    let (ls, lt) = (lim(g), lim(g));
    let k = g.r.n(4);
    let o = match k {
        0 => FIFORestingOrder::new_default(3, BaseLots::new(n)),
        1 => FIFORestingOrder::new(3, BaseLots::new(n), if ls == 0 { None } else { Some(ls) }, if lt == 0 { None } else { Some(lt) }),
        2 => FIFORestingOrder::new_with_last_valid_slot(3, BaseLots::new(n), ls),
        _ => FIFORestingOrder::new_with_last_valid_unix_timestamp(3, BaseLots::new(n), lt),
    };
    let (slot, ts) = (g.r.r(0, 7), g.r.r(0, 7));
    let (ws, wt) = (if k == 1 || k == 2 { ls } else { 0 }, if k == 1 || k == 3 { lt } else { 0 });
    let body = format!(
        "\"k\":\"small\",\"steps\":[{}],\"st\":[{}],\"ss\":[{}],\"a\":{{\"px\":\"{}\",\"seq\":\"{}\"}},\"b\":{{\"px\":\"{}\",\"seq\":\"{}\"}},\"cmp\":\"{}\",\"eq\":{},\"o\":{{\"sz\":\"{}\",\"lvs\":\"{}\",\"lvt\":\"{}\"}},\"slot\":\"{}\",\"ts\":\"{}\",\"got\":{{\"sz\":\"{}\",\"lvs\":{},\"lvt\":{},\"exp\":{},\"tr\":\"{}\"}}",
        v.join(","), st.join(","), ss.join(","), a.0, a.1, b.0, b.1, ord(x.partial_cmp(&y)), x == y, n, ws, wt, slot, ts,
        o.size(), on(o.last_valid_slot()), on(o.last_valid_unix_timestamp_in_seconds()), o.is_expired(slot, ts), o.trader_index
    );
    g.run.probe(at, body)
}

/// The constructors of batches of orders.
pub fn batch(g: &mut Gen, at: usize, bids: &[Cond], asks: &[Cond]) -> usize {
    let mk = |v: &[Cond]| -> Vec<CondensedOrder> {
        v.iter()
            .map(|c| if c.lvs.is_none() && c.lvt.is_none() {
                CondensedOrder::new_default(c.px, c.sz)
            } else {
                CondensedOrder { price_in_ticks: c.px, size_in_base_lots: c.sz, last_valid_slot: c.lvs, last_valid_unix_timestamp_in_seconds: c.lvt }
            })
            .collect()
    };
    let js = |v: &[Cond]| v.iter().map(|c| format!("{{\"px\":\"{}\",\"sz\":\"{}\",\"lvs\":{},\"lvt\":{}}}", c.px, c.sz, on(c.lvs), on(c.lvt))).collect::<Vec<_>>().join(",");
    let coid = if g.r.p(50) { None } else { Some(g.r.next() as u128) };
    let rej = g.r.p(50);
    let beh = g.r.n(4);
    let mkb = || match beh {
        0 => FailedMultipleLimitOrderBehavior::FailOnInsufficientFundsAndAmendOnCross,
        1 => FailedMultipleLimitOrderBehavior::FailOnInsufficientFundsAndFailOnCross,
        2 => FailedMultipleLimitOrderBehavior::SkipOnInsufficientFundsAndAmendOnCross,
        _ => FailedMultipleLimitOrderBehavior::SkipOnInsufficientFundsAndFailOnCross,
    };
    let (f, p) = match g.r.n(3) {
        0 => ("new", MultipleOrderPacket::new(mk(bids), mk(asks), coid, rej)),
        1 => ("new_default", MultipleOrderPacket::new_default(mk(bids), mk(asks))),
        _ => ("new_with_failure_behavior", MultipleOrderPacket::new_with_failure_behavior(mk(bids), mk(asks), coid, mkb())),
    };
    let b = format!(
        "\"k\":\"mpacket\",\"f\":\"{}\",\"in\":{{\"bids\":[{}],\"asks\":[{}],\"coid\":{},\"rej\":{},\"beh\":{}}},\"foc\":{},\"skip\":{},\"d\":{}",
        f, js(bids), js(asks), coid.map(|c| format!("[\"{}\"]", c)).unwrap_or_else(|| "[]".into()), rej, beh,
        p.failed_multiple_limit_order_behavior.should_fail_on_cross(), p.failed_multiple_limit_order_behavior.should_skip_orders_with_insufficient_funds(),
        build::bytes(&p.try_to_vec().unwrap())
    );
    g.run.probe(at, b)
}

/// Arithmetic on quantities: [operation, operands, result]; [] where it refuses.
pub fn quantities(g: &mut Gen, at: usize) -> usize {
    let mut v: Vec<String> = vec![];
    for _ in 0..4 {
        let num = |g: &mut Gen| -> u64 {
            match g.r.n(8) {
                0 => g.r.n(3),
                1 => u64::MAX - g.r.n(3),
                2 => (1u64 << 32) - 2 + g.r.n(4),
                3 => 1u64 << g.r.n(64),
                4 => g.r.next(),
                _ => g.r.n(2000),
            }
        };
        let (x, y) = (num(g), num(g));
        let mut put = |f: &str, r: Box<dyn FnOnce() -> u64>| {
            let got = tryq(|| format!("\"{}\"", r()));
            v.push(format!("{{\"f\":\"{}\",\"x\":\"{}\",\"y\":\"{}\",\"got\":{}}}", f, x, y, got));
        };
        macro_rules! same {
            ($($t:ident),*) => {{ $(
                put("add", Box::new(move || ($t::new(x) + $t::new(y)).as_u64()));
                put("add", Box::new(move || { let mut a = $t::new(x); a += $t::new(y); a.as_u64() }));
                put("add", Box::new(move || [$t::new(x), $t::new(y)].into_iter().sum::<$t>().as_u64()));
                put("sub", Box::new(move || ($t::new(x) - $t::new(y)).as_u64()));
                put("sub", Box::new(move || { let mut a = $t::new(x); a -= $t::new(y); a.as_u64() }));
                put("mul", Box::new(move || ($t::new(x) * $t::new(y)).as_u64()));
                put("sat", Box::new(move || $t::new(x).saturating_sub($t::new(y)).as_u64()));
                put("div", Box::new(move || $t::new(x).unchecked_div::<$t, $t>($t::new(y)).as_u64()));
                put("lt", Box::new(move || ($t::new(x) < $t::new(y)) as u64));
                put("lt", Box::new(move || ($t::new(x).cmp(&$t::new(y)) == Ordering::Less) as u64));
                put("eq", Box::new(move || ($t::new(x) == $t::new(y)) as u64));
                put("eq", Box::new(move || ($t::new(x) == y) as u64));
                put("fst", Box::new(move || u64::from($t::new(x))));
                put("fst", Box::new(move || $t::new(x).as_u128() as u64));
                put("fst", Box::new(move || if x < 1 << 53 { f64::from($t::new(x)) as u64 } else { x }));
                put("eq", Box::new(move || (x == $t::new(y)) as u64));
                put("cmp", Box::new(move || ($t::new(x).max($t::new(y))).as_u64()));
                put("fst", Box::new(move || $t::new(x).to_string().parse().unwrap()));
                put("zero", Box::new(move || ($t::ZERO.as_u64() | $t::MIN.as_u64() | $t::default().as_u64() | ($t::ONE.as_u64() ^ 1) | !$t::MAX.as_u64())));
            )* }};
        }
        macro_rules! conv {
            ($(($a:ident, $b:ident, $c:ident)),*) => {{ $(
                put("mul", Box::new(move || { let z: $c = $a::new(x) * $b::new(y); z.as_u64() }));
                put("mul", Box::new(move || { let z: $c = $b::new(y) * $a::new(x); z.as_u64() }));
                put("div", Box::new(move || { let z: $b = $c::new(x) / $a::new(y); z.as_u64() }));
                put("div", Box::new(move || { let z: $a = $c::new(x) / $b::new(y); z.as_u64() }));
            )* }};
        }
        macro_rules! rems {
            ($(($a:ident, $b:ident)),*) => {{ $( put("rem", Box::new(move || $a::new(x) % $b::new(y))); )* }};
        }
        match g.r.n(4) {
            0 => same!(QuoteLots, BaseLots, Ticks, AdjustedQuoteLots),
            1 => same!(QuoteAtoms, BaseAtoms, BaseLotsPerBaseUnit, QuoteLotsPerBaseUnitPerTick, QuoteLotsPerBaseUnit),
            2 => conv!(
                (BaseUnits, BaseLotsPerBaseUnit, BaseLots), (QuoteUnits, QuoteLotsPerQuoteUnit, QuoteLots),
                (QuoteLots, QuoteAtomsPerQuoteLot, QuoteAtoms), (BaseLots, BaseAtomsPerBaseLot, BaseAtoms),
                (BaseAtomsPerBaseLot, BaseLotsPerBaseUnit, BaseAtomsPerBaseUnit), (QuoteAtomsPerQuoteLot, QuoteLotsPerQuoteUnit, QuoteAtomsPerQuoteUnit)
            ),
            _ => {
                conv!(
                    (QuoteLotsPerBaseUnitPerTick, QuoteAtomsPerQuoteLot, QuoteAtomsPerBaseUnitPerTick),
                    (QuoteLotsPerBaseUnitPerTick, Ticks, QuoteLotsPerBaseUnit), (QuoteLots, BaseLotsPerBaseUnit, AdjustedQuoteLots),
                    (QuoteLotsPerBaseUnit, BaseLots, AdjustedQuoteLots)
                );
                rems!(
                    (AdjustedQuoteLots, BaseLotsPerBaseUnit), (BaseAtomsPerBaseUnit, BaseLotsPerBaseUnit),
                    (QuoteAtomsPerQuoteUnit, QuoteLotsPerQuoteUnit), (QuoteLotsPerBaseUnitPerTick, BaseLotsPerBaseUnit)
                );
            }
        }
    }
    g.run.probe(at, format!("\"k\":\"qty\",\"v\":[{}]", v.join(",")))
}

/// One of them.
pub fn any(g: &mut Gen, at: usize, m: &Mkt, sums: bool) -> usize {
    if sums && g.r.p(75) {
        return quantities(g, at);
    }
    let (slot, ts) = (g.run.states[at].slot + g.r.n(4), g.run.states[at].ts as u64 + g.r.n(4));
    match g.r.n(10) {
        0..=3 => view(g, at, "m0", slot, ts),
        4..=6 => {
            let k = *g.r.of(&[crate::wire::Kind::PO, crate::wire::Kind::L, crate::wire::Kind::IOC]);
            let t = g.any_trader();
            let side = g.side();
            let uof = g.r.p(50);
            let mut o = g.order(at, m, k, side, uof, &t);
            // small numbers, where equal and unequal, zero and not all occur
            if g.r.p(50) {
                o.bl = g.r.n(3);
                o.ql = g.r.n(3);
                o.minb = g.r.n(3);
                o.minq = g.r.n(3);
            }
            if g.r.p(15) {
                o.minb = o.bl;
            }
            if g.r.p(15) {
                o.minq = o.ql;
            }
            desc(g, at, &o, slot, ts)
        }
        7 => small(g, at),
        8 => {
            let (b, a) = (g.conds(at, m, S::B), g.conds(at, m, S::A));
            batch(g, at, &b, &a)
        }
        _ => quantities(g, at),
    }
}
