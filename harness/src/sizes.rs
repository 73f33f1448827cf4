//! Markets of every offered size, filled to capacity.
use crate::env::{key_of, pda, rent_wallet, seat_acct, Cfg, Env, MarketCfg};
use crate::gen::{base, init_data, Gen};
use crate::rng::Rng;
use crate::trace::{Beat, Run};
use crate::wire::{ix, multi, Cond};
use phoenix::program::{get_market_size, MarketSizeParams};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub const SIZES: [[u64; 3]; 18] = [
    [512, 512, 128], [512, 512, 1025], [512, 512, 1153],
    [1024, 1024, 128], [1024, 1024, 2049], [1024, 1024, 2177],
    [2048, 2048, 128], [2048, 2048, 4097], [2048, 2048, 4225],
    [4096, 4096, 128], [4096, 4096, 8193], [4096, 4096, 8321],
    [512, 512, 129], [512, 1024, 128], [128, 512, 512], [1024, 1024, 1025], [4096, 4096, 8320], [0, 0, 0],
];

/// What the sizing function says about every combination of interesting numbers.
pub fn sizing(run: &mut Run, at: usize) -> usize {
    let orders = [0u64, 1, 2, 4, 8, 128, 256, 511, 512, 513, 1024, 2048, 4096, 8192];
    let seats = [0u64, 1, 3, 6, 8, 127, 128, 129, 256, 512, 1024, 1025, 1026, 1152, 1153, 1154, 2048, 2049, 2176, 2177, 2178,
        4096, 4097, 4224, 4225, 8192, 8193, 8320, 8321, 8322];
    let mut v = vec![];
    for b in orders {
        for s in seats {
            v.push([b, b, s]);
        }
        for a in orders {
            v.push([b, a, 128]);
            v.push([b, a, 1025]);
        }
    }
    let mut at = at;
    for part in v.chunks(200) {
        let body: Vec<String> = part
            .iter()
            .map(|s| {
                let r = catch_unwind(AssertUnwindSafe(|| {
                    get_market_size(&MarketSizeParams { bids_size: s[0], asks_size: s[1], num_seats: s[2] }).ok()
                }))
                .unwrap_or(None);
                format!("{{\"b\":\"{}\",\"a\":\"{}\",\"s\":\"{}\",\"got\":{}}}", s[0], s[1], s[2],
                    r.map(|x| format!("[\"{}\"]", x)).unwrap_or_else(|| "[]".into()))
            })
            .collect();
        at = run.probe(at, format!("\"k\":\"size\",\"v\":[{}]", body.join(",")));
    }
    at
}

/// `whole`: filled to capacity; otherwise only used a little.
pub fn scenario(seed: u64, size: [u64; 3], whole: bool, beat: Arc<Beat>) -> Gen {
    let mut r = Rng::new(seed);
    let mut p = base();
    p.unseated = 0;
    let amt = 40_000_000;
    let fee = *r.of(&[0u16, 5, 30]);
    let m = MarketCfg { size, nq: 1000, tick: 20, nb: 10, fee, raw: None };
    let cfg = Cfg { bdec: 3, qdec: 6, m, traders: 3, seats: 3, amt, native: 0 };
    let (mut env, mut world) = Env::new(seed ^ 0x5eed, cfg);
    let extra = if whole { size[2] as usize + 1 } else { 3 };
    let m0 = env.k("m0");
    for i in 0..extra {
        // somebody whose seat waits for approval
        let n = format!("x{}", i);
        let k = env.names.add(&n, key_of(seed, &n));
        let s = env.names.add(&format!("seat:m0:{}", n), pda(&[b"seat", m0.as_ref(), k.as_ref()], &phoenix::ID));
        world.insert(s, Arc::new(seat_acct(&m0, &k, 0)));
        if i < 2 || i + 8 > extra {
            world.insert(k, Arc::new(rent_wallet()));
            for (t, mint) in [("b", "B"), ("q", "Q"), ("x", "X")] {
                let mk = env.k(mint);
                let a = env.names.add(&format!("{}.{}", n, t), crate::env::ata(&k, &mk));
                world.insert(a, Arc::new(crate::env::token_acct(&mk, &k, 1_000_000)));
            }
        }
    }
    let run = Run::new(env.names.clone(), world, 100, 1000, beat);
    Gen { env, run, r, p, coid: 0 }
}

fn approve(g: &Gen, t: &str, st: u8) -> (Vec<crate::vm::Meta>, Vec<u8>) {
    (g.env.accs(104, "m0", "adm", t), ix(104).u8(st).0)
}

pub fn play(g: &mut Gen, whole: bool) {
    let size = g.env.cfg.m.size;
    let (cap, seats) = (size[0], size[2] as usize);
    let mut at = sizing(&mut g.run, 0);
    let c = g.env.cfg.m.clone();
    let fee = g.env.k("fee");
    at = g.do_call(at, g.env.accs(100, "m0", "adm", ""), init_data(&c, &fee)).0;
    if g.mkt(at, "m0").len_is_zero() {
        return;
    }
    at = g.do_call(at, g.env.accs(103, "m0", "adm", ""), ix(103).u8(1).0).0;
    for t in ["w0", "w1", "w2"] {
        at = g.do_call(at, g.env.accs(14, "m0", t, ""), ix(14).0).0;
        let (v, d) = approve(g, t, 1);
        at = g.do_call(at, v, d).0;
        at = g.do_call(at, g.env.accs(13, "m0", t, ""), ix(13).u64(10_000_000).u64(10_000_000).0).0;
    }
    if !whole {
        return little(g, at);
    }
    // traders: two short of capacity, then the rest one by one, then one too many
    let n = seats - 3;
    let calls: Vec<_> = (0..n - 1).map(|i| approve(g, &format!("x{}", i), 1)).collect();
    let (slot, ts) = (g.run.states[at].slot, g.run.states[at].ts);
    at = g.run.bulk(at, &calls, slot, ts);
    for i in n - 1..n + 1 {
        let (v, d) = approve(g, &format!("x{}", i), 1);
        at = g.do_call(at, v, d).0;
    }
    // orders: both sides to one short of capacity (in random positions, several at one price)
    let mut calls = vec![];
    for (side, lo) in [(0u8, 1_000_000u64), (1, 1_002_000)] {
        let mut left = cap - 1;
        while left > 0 {
            let k = left.min(60);
            let v: Vec<Cond> = (0..k).map(|_| Cond { px: 0, sz: 1, lvs: None, lvt: None }).collect();
            let v: Vec<Cond> = v.into_iter().enumerate().map(|(i, c)| {
                // merging needs equal limits as well, so each gets its own
                let px = 1 + g.r.n(1900) + if side == 1 { 1910 } else { 0 };
                Cond { px, sz: 1 + g.r.n(5), lvt: Some(5_000_000 + lo + i as u64), ..c }
            }).collect();
            let t = *g.r.of(&["w0", "w1", "w2"]);
            let e: Vec<Cond> = vec![];
            let d = if side == 0 { multi(16, &v, &e, None, 2) } else { multi(16, &e, &v, None, 2) };
            calls.push((g.env.accs(16, "m0", t, ""), d));
            left -= k;
        }
    }
    at = g.run.bulk(at, &calls, slot, ts);
    let m = g.mkt(at, "m0");
    let (fb, fa) = (cap.saturating_sub(m.bids.len() as u64), cap.saturating_sub(m.asks.len() as u64));
    if fb > 3 || fa > 3 || fb == 0 || fa == 0 {
        // the book does not take what it should: let single orders show it
        for i in 0..3 {
            at = po(g, at, "w0", 0, 10 + i, 1);
            at = po(g, at, "w1", 1, 3000 - i, 1);
        }
        return;
    }
    for i in 0..fb {
        at = po(g, at, "w0", 0, 1000 + i, 2);
    }
    for i in 0..fa {
        at = po(g, at, "w1", 1, 2500 - i, 2);
    }
    // beyond capacity: refused at the far end, otherwise the farthest goes
    let m = g.mkt(at, "m0");
    let (wb, wa) = (m.bids.last().map(|o| o.px).unwrap_or(2), m.asks.last().map(|o| o.px).unwrap_or(2));
    po(g, at, "w2", 0, wb, 1);
    po(g, at, "w2", 1, wa, 1);
    at = po(g, at, "w2", 0, wb + 1, 3);
    at = po(g, at, "w2", 1, wa - 1, 3);
    look(g, at);
    // trade, cancel
    at = g.do_call(at, g.env.accs(0, "m0", "w0", ""), ioc(0, 9)).0;
    at = g.do_call(at, g.env.accs(0, "m0", "w1", ""), ioc(1, 11)).0;
    at = g.do_call(at, g.env.accs(8, "m0", "w2", ""), ix(8).u8(1).u8(0).u8(0).o32(Some(2)).0).0;
    at = po(g, at, "w0", 1, 2000, 4);
    // the last registered trader acts, the one without room cannot
    let last = format!("x{}", n - 1);
    let over = format!("x{}", n);
    g.do_call(at, g.env.accs(13, "m0", &over, ""), ix(13).u64(3).u64(3).0);
    po(g, at, &over, 0, 5, 1);
    at = g.do_call(at, g.env.accs(13, "m0", &last, ""), ix(13).u64(7).u64(9).0).0;
    at = g.do_call(at, g.env.accs(12, "m0", &last, ""), ix(12).u8(0).u8(0).0).0;
    let (v, d) = approve(g, &last, 2);
    at = g.do_call(at, v, d).0;
    at = g.do_call(at, g.env.accs(106, "m0", "adm", &last), ix(106).0).0;
    let (v, d) = approve(g, &over, 1);
    at = g.do_call(at, v, d).0;
    g.do_call(at, g.env.accs(13, "m0", &over, ""), ix(13).u64(3).u64(3).0);
}

/// A few calls of every kind, and what a reader sees.
fn little(g: &mut Gen, mut at: usize) {
    for i in 0..4 {
        at = po(g, at, "w0", 0, 1000 - i, 2 + i);
        at = po(g, at, "w1", 1, 2500 + i, 3);
        at = po(g, at, "w2", 0, 1000 - i, 1);
    }
    let (v, d) = approve(g, "x0", 1);
    at = g.do_call(at, v, d).0;
    at = g.do_call(at, g.env.accs(13, "m0", "x0", ""), ix(13).u64(70).u64(90).0).0;
    at = po(g, at, "x0", 1, 2501, 4);
    look(g, at);
    at = g.do_call(at, g.env.accs(0, "m0", "w0", ""), ioc(0, 9)).0;
    at = g.do_call(at, g.env.accs(0, "m0", "w1", ""), ioc(1, 5)).0;
    let v: Vec<Cond> = (0..5).map(|i| Cond { px: 900 + i, sz: 1 + i, lvs: None, lvt: None }).collect();
    at = g.do_call(at, g.env.accs(17, "m0", "w2", ""), multi(17, &v, &[], None, 0)).0;
    at = g.do_call(at, g.env.accs(8, "m0", "w2", ""), ix(8).u8(0).u8(0).u8(0).o32(Some(2)).0).0;
    at = g.do_call(at, g.env.accs(6, "m0", "w0", ""), ix(6).0).0;
    look(g, at);
    at = g.do_call(at, g.env.accs(108, "m0", "adm", "fee"), ix(108).0).0;
    at = g.do_call(at, g.env.accs(6, "m0", "x0", ""), ix(6).0).0;
    at = g.do_call(at, g.env.accs(12, "m0", "x0", ""), ix(12).u8(0).u8(0).0).0;
    let (v, d) = approve(g, "x0", 2);
    at = g.do_call(at, v, d).0;
    at = g.do_call(at, g.env.accs(106, "m0", "adm", "x0"), ix(106).0).0;
    look(g, at);
}
fn look(g: &mut Gen, at: usize) {
    let a = g.run.acct(at, &g.env.k("m0"));
    for levels in [1u64, 3, 100] {
        let b = crate::build::ladder("m0", &a, levels, None, None);
        g.run.probe(at, b);
    }
    let st = &g.run.states[at];
    let (slot, ts) = (st.slot, st.ts as u64);
    crate::views::view(g, at, "m0", slot, ts);
}

fn po(g: &mut Gen, at: usize, t: &str, side: u8, px: u64, sz: u64) -> usize {
    let d = ix(2).u8(0).u8(side).u64(px).u64(sz).u128(7).b(true).b(false).u8(0).u8(0).b(false).0;
    g.do_call(at, g.env.accs(2, "m0", t, ""), d).0
}
fn ioc(side: u8, sz: u64) -> Vec<u8> {
    ix(0).u8(2).u8(side).u8(0).u64(sz).u64(0).u64(0).u64(0).u8(1).u8(0).u128(9).b(false).u8(0).u8(0).0
}
