//! The small worlds the model checker explores: a start, calls that set the scene, and an alphabet
//! of calls. The same definition is written out for TLC (`phx model`) and used again to carry out
//! the call sequences TLC found (`phx replay`).
use crate::env::{mirror, Cfg, Env, MarketCfg};
use crate::gen::{init_data, Gen};
use crate::obs::{self, q};
use crate::trace::{call_json, Beat};
use crate::vm::{self, Meta};
use crate::wire::{ix, multi, Cond, Kind, Order, S};
use std::sync::Arc;

/// A resting order named by its place in the book, filled into the data of a call.
#[derive(Clone, Copy)]
pub struct Ref {
    pub off: usize, // where price and number go
    pub side: S,
    pub k: usize, // 0: the best
}
#[derive(Clone)]
pub enum Item {
    Call { metas: Vec<Meta>, data: Vec<u8>, refs: Vec<Ref> },
    Tick { slots: u64, secs: i64 },
}
pub struct Model {
    pub env: Env,
    pub world: vm::World,
    pub slot: u64,
    pub ts: i64,
    pub setup: Vec<Item>,
    pub alpha: Vec<Item>,
    pub depth: u64,
    pub probe: &'static str,
}

struct B {
    env: Env,
    setup: Vec<Item>,
    alpha: Vec<Item>,
    fee: u16,
    adm1: &'static str,
}
const MS: &str = "m0";

pub fn o(kind: Kind, side: S, px: u64, bl: u64) -> Order {
    Order {
        kind, side, px: Some(px), bl, ql: 0, minb: 0, minq: 0, stb: 1, ml: None, coid: 7, rej: true, uof: false,
        lvs: None, lvt: None, fs: false,
    }
}
fn po(side: S, px: u64, bl: u64) -> Order {
    o(Kind::PO, side, px, bl)
}
fn li(side: S, px: u64, bl: u64) -> Order {
    o(Kind::L, side, px, bl)
}
fn ioc(side: S, px: Option<u64>, bl: u64, ql: u64) -> Order {
    Order { px, ql, ..o(Kind::IOC, side, 0, bl) }
}
fn cond(px: u64, sz: u64) -> Cond {
    Cond { px, sz, lvs: None, lvt: None }
}

impl B {
    fn raw(&self, tag: u8, signer: &str, t: &str, data: Vec<u8>) -> Item {
        Item::Call { metas: self.env.accs(tag, MS, signer, t), data, refs: vec![] }
    }
    fn ord(&self, t: &str, x: &Order, ff: bool) -> Item {
        let tag = match (x.kind, ff) {
            (Kind::IOC, false) => 0,
            (Kind::IOC, true) => 1,
            (_, false) => 2,
            (_, true) => 3,
        };
        let x = Order { uof: ff, ..x.clone() };
        self.raw(tag, t, "", x.enc(ix(tag)).0)
    }
    fn say(&mut self, i: Item) {
        self.alpha.push(i);
    }
    fn p(&mut self, t: &str, x: Order) {
        let i = self.ord(t, &x, false);
        self.say(i);
    }
    fn pf(&mut self, t: &str, x: Order) {
        let i = self.ord(t, &x, true);
        self.say(i);
    }
    fn multi(&mut self, t: &str, bids: &[Cond], asks: &[Cond], beh: u8, ff: bool) {
        let tag = if ff { 17 } else { 16 };
        let i = self.raw(tag, t, "", multi(tag, bids, asks, Some(9), beh));
        self.say(i);
    }
    fn simple(&mut self, tag: u8, signer: &str, t: &str) {
        let i = self.raw(tag, signer, t, ix(tag).0);
        self.say(i);
    }
    fn dep(&mut self, t: &str, ql: u64, bl: u64) {
        let i = self.raw(13, t, "", ix(13).u64(ql).u64(bl).0);
        self.say(i);
    }
    fn wd(&mut self, t: &str, ql: Option<u64>, bl: Option<u64>) {
        let i = self.raw(12, t, "", ix(12).o64(ql).o64(bl).0);
        self.say(i);
    }
    fn upto(&mut self, tag: u8, signer: &str, t: &str, side: S, tl: Option<u64>, ns: Option<u32>, nc: Option<u32>) {
        let i = self.raw(tag, signer, t, ix(tag).side(side).o64(tl).o32(ns).o32(nc).0);
        self.say(i);
    }
    fn reduce(&mut self, t: &str, side: S, k: usize, n: u64, ff: bool) {
        let tag = if ff { 5 } else { 4 };
        let metas = self.env.accs(tag, MS, t, "");
        self.say(Item::Call { metas, data: ix(tag).side(side).u64(0).u64(0).u64(n).0, refs: vec![Ref { off: 2, side, k }] });
    }
    fn byid(&mut self, t: &str, v: &[(S, usize)], ff: bool) {
        let tag = if ff { 11 } else { 10 };
        let metas = self.env.accs(tag, MS, t, "");
        let mut w = ix(tag).u32(v.len() as u32);
        let mut refs = vec![];
        for (s, k) in v {
            w = w.side(*s);
            refs.push(Ref { off: w.0.len(), side: *s, k: *k });
            w = w.u64(0).u64(0);
        }
        self.say(Item::Call { metas, data: w.0, refs });
    }
    fn mstatus(&mut self, s: &str, st: u8) {
        let i = self.raw(103, s, "", ix(103).u8(st).0);
        self.say(i);
    }
    fn sstatus(&mut self, s: &str, t: &str, st: u8) {
        let i = self.raw(104, s, t, ix(104).u8(st).0);
        self.say(i);
    }
    fn succ(&mut self, s: &str, k: &str) {
        let i = self.raw(102, s, "", ix(102).raw(self.env.k(k).as_ref()).0);
        self.say(i);
    }
    fn chfr(&mut self, s: &str, k: &str, cur: Option<(&str, bool)>) {
        let mut m = self.env.accs(109, MS, s, k);
        if let Some((c, sg)) = cur {
            m.push(self.env.meta(c, sg, false));
        }
        self.say(Item::Call { metas: m, data: ix(109).0, refs: vec![] });
    }
    fn tick(&mut self, slots: u64, secs: i64) {
        self.say(Item::Tick { slots, secs });
    }
    /// What was said so far sets the scene.
    fn scene(&mut self) {
        self.setup.append(&mut self.alpha);
    }
    /// Both markets open, `n` traders seated, with deposits of (quote, base) lots.
    fn open(&mut self, n: usize, dep: u64) {
        let fee = self.env.k("fee");
        let m0 = self.env.cfg.m.clone();
        let m1 = MarketCfg { size: [2, 2, 3], ..m0.clone() };
        for (m, a, c) in [("m0", "adm", &m0), ("m1", self.adm1, &m1)] {
            let i = Item::Call { metas: self.env.accs(100, m, a, ""), data: init_data(c, &fee), refs: vec![] };
            self.say(i);
        }
        let i = Item::Call { metas: self.env.accs(105, "m1", self.adm1, "w1"), data: ix(105).0, refs: vec![] };
        self.say(i);
        let i = Item::Call { metas: self.env.accs(104, "m1", self.adm1, "w1"), data: ix(104).u8(1).0, refs: vec![] };
        self.say(i);
        for k in 0..n {
            let t = self.env.trader(k);
            if k % 2 == 0 {
                self.simple(14, &t, "");
            } else {
                self.simple(105, "adm", &t);
            }
            self.sstatus("adm", &t, 1);
        }
        self.mstatus("adm", 1);
        if dep > 0 {
            for k in 0..n {
                let t = self.env.trader(k);
                self.dep(&t, dep, dep);
            }
        }
        self.scene();
    }
}

/// Units of a market: bare, several lots, a price that is several quote lots a lot.
fn cfg(v: u64, size: [u64; 3], traders: usize, amt: u64, fee: u16) -> Cfg {
    let (bdec, qdec, nb, nq, tick, raw) = match v % 4 {
        0 => (2, 1, 1, 1, 1, None),
        1 => (1, 2, 5, 10, 10, None),
        2 => (0, 3, 2, 1000, 6, Some(1000)),
        _ => (3, 0, 10, 1, 10, Some(2)),
    };
    Cfg { bdec, qdec, m: MarketCfg { size, nq, tick, nb, fee, raw }, traders, seats: traders.min(size[2] as usize), amt, native: [0, 0, 0, 1, 0, 2, 0, 0][(v % 8) as usize] }
}

/// Variant `v` of a theme; with a `sample` seed only some of the alphabet, to a greater depth.
pub fn model(theme: &str, v: u64, deep: bool, sample: u64) -> Model {
    let fee = [0u16, 30, 333, 2500, 10000, 5, 9999, 1][(v % 8) as usize];
    let s = if v % 2 == 0 { S::A } else { S::B }; // the side that rests
    let t = s.opp(); // the side that takes
    // prices away from the market on side `s`: level 0 is the best
    let px = |side: S, lvl: u64| if side == S::A { 5 + lvl } else { 5 - lvl };
    // a taking price that reaches resting level `lvl`
    let (traders, amt, size): (usize, u64, [u64; 3]) = match theme {
        "cap" => (3 + (v % 3 / 2) as usize, 1000, [2, 2, 3]),
        // little more than the orders need, in any unit
        "funds" | "silent" => (3, 12 * [1, 2, 3, 1][(v % 4) as usize], [4, 4, 6]),
        "batch" => (2, if v % 4 == 2 { 130 } else { 60 }, [4, 4, 6]),
        "seat" => (4, 50, [2, 2, 3]),
        "close" => (2, 500, [2, 2, 3]),
        "status" | "gov" | "init" | "forge" | "cross" => (2, 50, [2, 2, 3]),
        "many" => (3, 1_000_000, [512, 512, 128]),
        "huge" => (2, 1 << 56, [4, 4, 6]),
        "large" => (3, 1 << 53, [4, 4, 6]),
        _ => (3, 500, [4, 4, 6]),
    };
    let mut units = cfg(v, size, traders, amt, fee);
    if theme == "init" && v % 4 == 1 {
        units.bdec = 12;
    }
    let (env, world) = Env::new(0xabc0 + v, units);
    let mut b = B { env, setup: vec![], alpha: vec![], fee, adm1: if v % 3 == 0 { "adm" } else { "suc" } };
    let far = ["book", "take", "self", "ttl", "cancel", "cap", "batch", "funds", "fees", "gov"].contains(&theme);
    let mut depth = 3 + (deep || far) as u64 + (deep && far) as u64;
    let mut probe = "";
    match theme {
        // resting orders and everything that trades with them
        "book" | "take" => {
            b.open(3, if v % 3 == 0 { 0 } else { 200 });
            b.p("w0", po(s, px(s, 0), 3));
            b.p("w1", po(s, px(s, 0), 2));
            b.p("w1", po(s, px(s, 2), 4));
            b.scene();
            b.p("w0", po(s, px(s, 1), 2));
            b.p("w1", po(t, px(s, 0), 1));
            b.p("w2", li(t, px(s, 0), 4));
            b.pf("w2", li(t, px(s, 2), 6));
            b.p("w0", li(s, px(t, 2), 2));
            b.p("w2", ioc(t, Some(px(s, 1)), 5, 0));
            b.p("eve", ioc(t, None, 0, 17 + v % 7));
            b.p("w2", Order { ml: Some(1), ..li(t, px(s, 1), 9) });
            b.p("w2", po(s, px(t, 1), 2));
            if theme == "take" {
                b.alpha.clear();
                for (k, n) in [(0u64, 2u64), (0, 6), (2, 9)] {
                    b.p("w2", ioc(t, Some(px(s, k)), n, 0));
                }
                for q in [1u64, 9, 16 + v % 5, 60] {
                    b.p("eve", ioc(t, None, 0, q));
                    b.pf("w2", ioc(t, Some(px(s, 0)), 0, q));
                }
                b.p("w2", Order { minb: 4, ..ioc(t, Some(px(s, 0)), 6, 0) });
                b.p("w2", Order { minq: 20, ..ioc(t, Some(px(s, 1)), 6, 0) });
                b.p("w2", Order { ml: Some(2), ..ioc(t, None, 12, 0) });
                b.p("w2", Order { ml: Some(0), ..ioc(t, None, 12, 0) });
                b.p("w2", Order { minb: 1, ..ioc(t, None, 0, 12) });
                b.p("w0", po(s, px(s, 1), 1));
                b.p("w2", ioc(s, None, 2, 0));
                b.p("w1", po(t, px(t, 1), 3));
            }
        }
        "self" => {
            b.open(2, if v % 3 == 0 { 0 } else { 200 });
            b.p("w0", po(s, px(s, 0), 3));
            b.p("w1", po(s, px(s, 0), 2));
            b.p("w0", po(s, px(s, 1), 2));
            b.scene();
            for stb in 0..3u8 {
                b.p("w0", Order { stb, ..ioc(t, Some(px(s, 1)), 4, 0) });
                b.p("w0", Order { stb, ..li(t, px(s, 0), 5) });
                b.pf("w0", Order { stb, ..ioc(t, None, 0, 21) });
                b.pf("w0", Order { stb, ml: Some(2), ..li(t, px(s, 1), 9) });
            }
            b.p("w0", Order { stb: 2, minb: 2, ..ioc(t, Some(px(s, 1)), 6, 0) });
            b.p("w1", Order { stb: 2, ..ioc(t, Some(px(s, 1)), 3, 0) });
            b.p("w1", po(s, px(s, 1), 2));
            b.p("w0", po(s, px(s, 0), 1));
        }
        "ttl" | "look" => {
            b.open(3, if v % 3 == 0 { 0 } else { 200 });
            b.scene();
            let (slot, ts) = (100u64, 5000u64);
            b.p("w0", Order { lvs: Some(slot), ..po(s, px(s, 0), 3) });
            b.p("w1", Order { lvt: Some(ts + 1), ..po(s, px(s, 0), 2) });
            b.p("w0", Order { lvs: Some(slot + 1), lvt: Some(ts), ..po(s, px(s, 1), 2) });
            b.p("w0", po(s, px(s, 1), 1));
            if theme == "look" {
                b.p("w1", Order { lvs: Some(slot), ..po(t, px(t, 1), 2) });
                b.p("w1", po(t, px(t, 1), 3));
                b.p("w1", Order { lvt: Some(ts), ..po(t, px(t, 2), 3) });
            }
            b.p("w2", li(t, px(s, 0), 4));
            b.p("w2", Order { lvs: Some(slot), ..po(t, px(s, 0), 2) });
            b.p("w2", Order { rej: false, ..po(t, px(s, 0), 2) });
            b.p("w2", Order { ml: Some(1), ..ioc(t, Some(px(s, 1)), 4, 0) });
            b.multi("w2", if t == S::B { &[Cond { px: 5, sz: 1, lvs: Some(101), lvt: None }] } else { &[] },
                if t == S::A { &[Cond { px: 5, sz: 1, lvs: None, lvt: Some(5000) }] } else { &[] }, 0, false);
            b.tick(1, 0);
            b.tick(0, 1);
            if theme == "look" {
                probe = "look";
            }
        }
        "cancel" => {
            b.open(2, if v % 3 == 0 { 0 } else { 100 });
            b.p("w0", po(s, px(s, 0), 3));
            b.p("w1", po(s, px(s, 0), 2));
            b.p("w0", po(s, px(s, 1), 4));
            b.p("w0", po(t, px(t, 1), 2));
            b.scene();
            let ff = v % 4 >= 2;
            b.reduce("w0", s, 0, 1, ff);
            b.reduce("w0", s, 0, 9, !ff);
            b.reduce("w1", s, 1, 2, ff);
            b.reduce("w1", s, 2, 1, !ff);
            b.simple(if ff { 7 } else { 6 }, "w0", "");
            b.simple(6, "w1", "");
            let tag = if ff { 9 } else { 8 };
            b.upto(tag, "w0", "", s, Some(px(s, 0)), None, None);
            b.upto(tag, "w0", "", s, None, Some(2), None);
            b.upto(tag, "w0", "", s, None, None, Some(1));
            b.upto(tag, "w1", "", s, None, Some(1), Some(1));
            b.upto(8, "w0", "", t, Some(px(s, 0)), Some(4), Some(4));
            b.byid("w0", &[(s, 0), (s, 2), (t, 0)], ff);
            b.byid("w1", &[(s, 0), (s, 1), (s, 1)], !ff);
            // named on the wrong side
            b.byid("w0", &[(s, 0), (t, 0)], !ff);
            if let Some(Item::Call { data, .. }) = b.alpha.last_mut() {
                data[5] ^= 1;
            }
            b.p("w0", po(s, px(s, 0), 2));
            b.p("w1", ioc(t, Some(px(s, 0)), 2, 0));
        }
        "cap" => {
            b.open(3, if v % 4 == 0 { 0 } else { 300 });
            b.p("w0", po(s, px(s, 1), 3));
            b.p("w1", po(s, px(s, 3), 2));
            b.scene();
            b.p("w0", po(s, px(s, 2), 2));
            b.p("w1", po(s, px(s, 3), 2));
            b.p("w1", po(s, px(s, 0), 1));
            b.pf("w2", li(s, px(s, 2), 4));
            b.p("w2", li(s, px(t, 0), 4));
            b.p("w2", po(t, px(t, 1), 1));
            b.p("w0", Order { rej: false, ..po(t, px(s, 1), 1) });
            b.p("w1", ioc(t, Some(px(s, 1)), 1, 0));
            b.multi("w0", &[cond(3, 1), cond(1, 1)], &[cond(8, 1), cond(6, 1)], 0, false);
            let two = [cond(px(s, 0), 1), cond(px(s, 1), 2)];
            if s == S::B { b.multi("w2", &two, &[], 2, v % 4 == 3) } else { b.multi("w2", &[], &two, 2, v % 4 == 2) }
            b.multi("w2", &[cond(2, 1), cond(1, 2), cond(3, 1)], &[cond(7, 1), cond(9, 1), cond(6, 2)], 2, v % 2 == 1);
            b.sstatus("adm", "w2", 0);
            b.simple(106, "adm", "w2");
            if traders > 3 {
                b.simple(105, "adm", "w3");
                b.sstatus("adm", "w3", 1);
                b.dep("w3", 1, 1);
                b.p("w3", po(s, px(s, 0), 1));
            }
        }
        "batch" => {
            b.open(2, [0, 20, 100, 7][(v % 4) as usize]);
            b.p("w1", po(s, px(s, 1), 3));
            b.scene();
            let ff = v % 3 == 1;
            for beh in 0..4u8 {
                b.multi("w0", &[cond(4, 2), cond(3, 4), cond(4, 1)], &[cond(7, 2), cond(6, 3)], beh, ff);
                b.multi("w0", &[cond(6, 1), cond(2, 60)], &[cond(9, 9), cond(8, 1), cond(9, 1), cond(9, 2)], beh, ff);
                b.multi("w0", &[cond(1, 3), cond(2, 30)], &[cond(4, 1), cond(5, 50)], beh, !ff);
            }
            b.multi("w0", &[], &[Cond { px: 6, sz: 1, lvs: Some(100), lvt: None }, cond(6, 1), Cond { px: 6, sz: 2, lvs: Some(99), lvt: None }], 0, false);
            b.multi("w0", &[cond(5, 1), cond(5, 0)], &[cond(5, 1)], 2, false);
            b.multi("w0", &[cond(0, 1), cond(2, 1)], &[cond(0, 1)], 0, false);
            b.multi("w0", &[], &[], 0, true);
            b.simple(7, "w0", "");
            b.p("w1", ioc(t, Some(px(s, 1)), 1, 0));
            b.p("w1", po(t, px(t, 0), 2));
        }
        "funds" => {
            b.open(2, [0, 5, 9][(v % 3) as usize]);
            b.p("w0", po(s, px(s, 0), 2));
            b.scene();
            b.dep("w0", 5, 3);
            b.dep("w1", 0, 12);
            b.dep("w1", 10, 0);
            b.dep("w1", amt + 1, 0);
            b.wd("w0", None, None);
            b.wd("w1", Some(3), Some(100));
            b.wd("w1", Some(0), None);
            b.pf("w1", li(t, px(s, 0), 1));
            b.p("w1", li(t, px(s, 0), 1));
            // fills completely, with the last that was deposited
            b.dep("w1", 0, 2);
            b.pf("w1", li(t, px(s, 0), 2));
            b.pf("w1", ioc(t, None, 1, 0));
            b.p("w1", ioc(t, None, 0, 6));
            b.pf("w0", po(s, px(s, 1), 4));
            b.p("w0", po(s, px(s, 1), 13));
            b.pf("w0", po(t, px(t, 3), 3));
            b.p("w0", po(t, px(t, 3), 7));
            b.p("w0", po(t, px(t, 3), 2));
            b.simple(6, "w0", "");
            b.simple(7, "w0", "");
            b.wd("w2", None, None);
        }
        "fees" => {
            b.open(2, if v % 3 == 0 { 0 } else { 200 });
            b.p("w0", po(s, px(s, 0), 30));
            b.scene();
            b.p("w1", ioc(t, None, 1, 0));
            b.p("w1", ioc(t, None, 7, 0));
            b.p("eve", ioc(t, None, 0, 33));
            b.pf("w1", li(t, px(s, 0), 3));
            b.simple(108, "adm", "fee");
            b.simple(108, "eve", "fee");
            b.simple(108, "adm", "eve");
            b.simple(108, "adm", "suc");
            b.chfr("adm", "suc", None);
            b.chfr("adm", "suc", Some(("fee", true)));
            b.chfr("adm", "suc", Some(("fee", false)));
            b.chfr("adm", "fee", Some(("suc", true)));
            b.chfr("adm", "eve", Some(("adm", true)));
            b.chfr("eve", "eve", Some(("fee", true)));
        }
        // trades whose sums need most of 64 bits, in numbers that are not round
        "large" => {
            b.open(2, if v % 3 == 0 { 0 } else { (1 << 52) - 3 });
            let (tk, nb) = (b.env.cfg.m.tick, b.env.cfg.m.nb);
            let lim = u64::MAX / 10000 / (tk * 5);
            let n = [lim + 7_777_777, lim * 2 - 1, lim / 2 + 1, (1 << 44) + 12_345];
            let at = |k: usize| n[(k + v as usize) % 4].min(1 << 50);
            b.p("w1", po(s, px(s, 0), at(0)));
            b.p("w1", po(s, px(s, 1), at(2)));
            b.scene();
            b.p("w0", ioc(t, None, at(0), 0));
            b.pf("w0", ioc(t, None, at(1), 0));
            b.p("w2", ioc(t, None, at(0) - 777_779, 0));
            b.p("eve", ioc(t, Some(px(s, 0)), at(2) / 7, 0));
            for q in [at(0), at(1), at(3)] {
                let q = (q as u128 * (tk * 5) as u128 / nb as u128) as u64 - 1;
                b.p("eve", ioc(t, None, 0, q));
                b.p("w0", Order { minq: q - 2, ..ioc(t, Some(px(s, 1)), 0, q) });
            }
            b.p("w0", li(t, px(s, 0), at(1)));
            b.pf("w0", li(t, px(s, 1), at(3)));
            b.p("w1", Order { stb: 2, ..li(t, px(s, 0), at(3) + 1) });
            b.p("w1", Order { stb: 2, ..ioc(t, None, 0, (at(1) as u128 * tk as u128 / nb as u128) as u64) });
            b.p("w1", Order { stb: 1, ..ioc(t, None, at(2), 0) });
            b.p("w0", po(s, px(s, 0), at(1)));
            b.p("w1", po(t, px(s, 0), at(1)));
            b.reduce("w1", s, 0, at(2) / 3, false);
            b.upto(6, "w1", "", s, None, None, None);
            b.multi("w0", &[cond(4, at(1)), cond(4, at(3)), cond(3, 1)], &[cond(7, at(0)), cond(7, at(2))], (v % 4) as u8, v % 2 == 0);
            b.wd("w1", None, Some(at(3)));
            b.wd("w1", Some(at(2) + 5), None);
            b.dep("w0", at(0), at(3));
            b.simple(108, "adm", "fee");
        }
        "gov" => {
            b.open(1, 20);
            b.p("w0", po(s, px(s, 0), 2));
            b.scene();
            for x in ["adm", "suc", "eve"] {
                b.simple(101, x, "");
                b.succ(x, if x == "adm" { "suc" } else { "adm" });
                b.mstatus(x, 3);
                b.mstatus(x, 1);
                b.sstatus(x, "w0", 0);
                b.simple(105, x, "w1");
                b.chfr(x, x, Some(("fee", v % 2 == 0)));
                b.upto(107, x, "w0", s, None, None, None);
                b.simple(106, x, "w0");
            }
            b.succ("adm", "eve");
            b.succ("suc", "suc");
        }
        "seat" => {
            b.open(1, 10);
            b.p("w0", po(s, px(s, 0), 2));
            b.scene();
            b.simple(14, "w1", "");
            b.simple(105, "adm", "w1");
            b.simple(105, "adm", "w2");
            for st in 0..3 {
                b.sstatus("adm", "w0", st);
                b.sstatus("adm", "w1", st);
            }
            b.sstatus("adm", "w2", 1);
            b.simple(106, "adm", "w0");
            b.simple(106, "adm", "w1");
            b.upto(107, "adm", "w0", s, None, None, None);
            b.upto(107, "adm", "w0", s, None, Some(1), Some(0));
            b.dep("w1", 2, 2);
            b.p("w1", po(s, px(s, 0), 1));
            b.pf("w0", ioc(s, None, 1, 0));
            b.p("w0", po(s, px(s, 1), 1));
            b.p("w1", ioc(t, None, 1, 0));
            b.multi("w1", &[cond(1, 1)], &[], 0, false);
            b.wd("w0", None, None);
            if v % 2 == 1 {
                b.mstatus("adm", 3);
                b.mstatus("adm", 2);
            }
            depth += 0;
        }
        "close" => {
            b.open(1, 10);
            b.p("w0", po(s, px(s, 0), 20));
            b.p("eve", ioc(t, None, 4, 0));
            b.mstatus("adm", 3);
            b.scene();
            b.mstatus("adm", 4);
            b.mstatus("adm", 5);
            b.mstatus("adm", 1);
            b.mstatus("adm", 2);
            b.simple(6, "w0", "");
            b.wd("w0", None, None);
            b.sstatus("adm", "w0", if v % 4 < 2 { 0 } else { 2 });
            b.upto(107, "adm", "w0", s, None, None, None);
            b.simple(106, "adm", "w0");
            b.simple(108, "adm", "fee");
            let mut m = b.env.accs(103, MS, "adm", "");
            m.push(b.env.meta("rcv", false, true));
            b.say(Item::Call { metas: m, data: ix(103).u8(5).0, refs: vec![] });
            let c = b.env.cfg.m.clone();
            let d = init_data(&c, &b.env.k("fee"));
            let i = b.raw(100, "adm", "", d);
            b.say(i);
            b.dep("w0", 1, 1);
            b.simple(14, "eve", "");
            depth = 7 + deep as u64;
        }
        // every way to pass one other account, in every instruction
        "forge" => {
            b.open(2, 20);
            b.p("w0", po(s, px(s, 0), 5));
            b.p("w1", ioc(t, None, 2, 0));
            b.sstatus("adm", "w1", 0);
            match v % 4 {
                1 => b.mstatus("adm", 3),
                2 => b.sstatus("adm", "w0", 2),
                _ => {}
            }
            b.scene();
            let base = every(&b, s, t);
            let pool: Vec<String> = {
                let mut p: Vec<String> = b.env.names.by_name.keys().filter(|x| !x.starts_with("gift:")).cloned().collect();
                p.sort();
                p
            };
            let mut all = vec![];
            for (n, i) in base.iter().enumerate() {
                all.push(i.clone());
                if let Item::Call { metas, data, refs } = i {
                    for j in 0..metas.len() {
                        for (k, name) in pool.iter().enumerate() {
                            // spread the pool over the variants
                            if (n + j + k) as u64 % 8 != v % 8 {
                                continue;
                            }
                            let mut m = metas.clone();
                            m[j].key = b.env.k(name);
                            // addresses of the program cannot sign
                            if name == "log" || name.contains(':') {
                                m[j].s = false;
                            }
                            all.push(Item::Call { metas: m, data: data.clone(), refs: refs.clone() });
                        }
                        let mut m = metas.clone();
                        m[j].s = false;
                        m[j].w = false;
                        if metas[j].s || metas[j].w {
                            all.push(Item::Call { metas: m, data: data.clone(), refs: refs.clone() });
                        }
                    }
                    let mut m = metas.clone();
                    m.pop();
                    all.push(Item::Call { metas: m, data: data.clone(), refs: refs.clone() });
                    // another sender, everything else as it was
                    for x in ["eve", "w0", "w1", "adm", "fee"] {
                        let mut m = metas.clone();
                        if b.env.k(x) != m[3].key {
                            m[3].key = b.env.k(x);
                            all.push(Item::Call { metas: m, data: data.clone(), refs: refs.clone() });
                        }
                    }
                }
            }
            b.alpha = all;
            depth = 1;
        }
        // two markets, and calls that take accounts of both
        "cross" => {
            b.adm1 = if v % 4 == 3 { "adm" } else { "suc" };
            b.open(2, 20);
            // what is done in one is done in the other
            let both = |b: &mut B, f: &dyn Fn(&mut B)| {
                b.alpha.clear();
                f(b);
                let a: Vec<Item> = b.alpha.drain(..).collect();
                for i in a {
                    b.setup.push(i.clone());
                    b.setup.push(other(b, &i));
                }
            };
            let i = Item::Call { metas: b.env.accs(105, "m1", b.adm1, "w0"), data: ix(105).0, refs: vec![] };
            b.setup.push(i);
            let i = Item::Call { metas: b.env.accs(104, "m1", b.adm1, "w0"), data: ix(104).u8(1).0, refs: vec![] };
            b.setup.push(i);
            let i = Item::Call { metas: b.env.accs(103, "m1", b.adm1, ""), data: ix(103).u8(1).0, refs: vec![] };
            b.setup.push(i);
            both(&mut b, &|b| b.p("w0", po(s, px(s, 0), 5)));
            both(&mut b, &|b| b.p("w1", po(t, px(t, 2), 3)));
            both(&mut b, &|b| b.p("w1", ioc(t, None, 2, 0)));
            match v % 3 {
                1 => b.mstatus("adm", 3),
                2 => {
                    b.sstatus("adm", "w1", 0);
                    b.sstatus("adm", "w0", 2);
                }
                _ => {}
            }
            b.scene();
            let mut all = vec![];
            for i in every(&b, s, t) {
                if let Item::Call { metas, data, refs } = &i {
                    let xs: Vec<usize> = (0..metas.len()).filter(|j| mirror(&b.env.names, &metas[*j].key).is_some()).collect();
                    for pick in 0..1u32 << xs.len() {
                        let mut m = metas.clone();
                        for (n, j) in xs.iter().enumerate() {
                            if pick >> n & 1 == 1 {
                                m[*j].key = mirror(&b.env.names, &m[*j].key).unwrap();
                            }
                        }
                        all.push(Item::Call { metas: m.clone(), data: data.clone(), refs: refs.clone() });
                        for (x, y) in [("adm", "suc"), ("w0", "w1"), ("w1", "w0")] {
                            if m[3].key == b.env.k(x) {
                                let mut m = m.clone();
                                m[3].key = b.env.k(y);
                                all.push(Item::Call { metas: m, data: data.clone(), refs: refs.clone() });
                            }
                        }
                    }
                }
            }
            b.alpha = all;
            depth = 1 + deep as u64;
        }
        // markets opened with any parameters, and opened again
        "init" => {
            b.open(1, 5);
            b.scene();
            let fee = b.env.k("fee");
            let base = MarketCfg { size: [2, 2, 3], ..b.env.cfg.m.clone() };
            let mut cs = vec![];
            let units = [1u64, 2, 3, 4, 5, 8, 10, 12, 25, 50, 100, 125, 1000, 0];
            for nb in units {
                for (i, nq) in units.iter().enumerate() {
                    for tick in [nb, 2 * nb, nb + 1, nb / 2, 0, 10] {
                        for raw in [None, Some(0u32), Some(1), Some(3), Some(1000)] {
                            let h = (nb * 31 + i as u64 * 17 + tick * 7 + raw.unwrap_or(9) as u64 * 3) % 8;
                            if h == v % 8 {
                                cs.push(MarketCfg { nb, nq: *nq, tick, raw, ..base.clone() });
                            }
                        }
                    }
                }
            }
            for (raw, nb) in [(u32::MAX, 1u64), (u32::MAX, 5), (4_000_000_000, 1024), (1 << 31, 1 << 31), (1 << 24, 2), (18_446_744, 8), (18_446_745, 8), (1, 1 << 12)] {
                cs.push(MarketCfg { nb, tick: nb, raw: Some(raw), ..base.clone() });
                cs.push(MarketCfg { nb, tick: nb * 3, raw: Some(raw), ..base.clone() });
            }
            let x = 1u64 << 63;
            for tick in [x, x / 2, u64::MAX, u64::MAX / base.nb * base.nb, 1 << 32] {
                cs.push(MarketCfg { tick, ..base.clone() });
                cs.push(MarketCfg { tick, nb: 1, ..base.clone() });
                cs.push(MarketCfg { nb: tick, ..base.clone() });
                cs.push(MarketCfg { nq: tick, ..base.clone() });
            }
            for f in [0u16, 1, 9999, 10000, 10001, 65535] {
                cs.push(MarketCfg { fee: f, ..base.clone() });
            }
            for sz in crate::sizes::SIZES.iter().copied().chain([[0, 0, 0], [2, 2, 2], [2, 3, 3], [3, 2, 3], [4, 4, 6], [8, 8, 8], [512, 512, 129]]) {
                cs.push(MarketCfg { size: sz, ..base.clone() });
            }
            for c in &cs {
                let i = Item::Call { metas: b.env.accs(100, "m2", "adm", ""), data: init_data(c, &fee), refs: vec![] };
                b.say(i);
            }
            // the same again after one of them, and on a market that is open
            for m in ["m0", "m2"] {
                let i = Item::Call { metas: b.env.accs(100, m, "eve", ""), data: init_data(&base, &b.env.k("eve")), refs: vec![] };
                b.say(i);
            }
            for (bm, qm) in [("X", "Q"), ("B", "X"), ("B", "B"), ("Q", "B"), ("FB", "Q")] {
                for (bv, qv) in [(bm, qm), ("B", "Q"), (qm, bm)] {
                    if ![bv, qv].iter().all(|x| ["B", "Q", "X"].contains(x)) {
                        continue;
                    }
                    let mut m = b.env.accs(100, "m2", "w0", "");
                    m[4].key = b.env.k(bm);
                    m[5].key = b.env.k(qm);
                    m[6].key = b.env.k(&format!("vault:m2:{}", bv));
                    m[7].key = b.env.k(&format!("vault:m2:{}", qv));
                    b.say(Item::Call { metas: m, data: init_data(&base, &fee), refs: vec![] });
                }
            }
            depth = 1 + deep as u64;
        }
        // every instruction in every market status
        "status" => {
            b.open(2, 20);
            b.p("w0", po(s, px(s, 0), 5));
            b.p("w0", po(t, px(t, 1), 2));
            if v % 4 >= 2 {
                b.sstatus("adm", "w1", 0);
            }
            b.scene();
            b.alpha = every(&b, s, t);
            b.p("w1", li(t, px(s, 0), 1));
            b.pf("w1", li(t, px(s, 0), 6));
            for st in 0..=6u8 {
                b.mstatus("adm", st);
            }
        }
        "silent" => {
            b.open(2, [0, 6, 11][(v % 3) as usize]);
            b.p("w1", po(s, px(s, 0), 2));
            b.scene();
            for n in [1u64, 5, 6, 11, 12, 17, 18, 23, 24] {
                let ff = n % 2 == v % 2;
                for x in [Order { fs: true, ..po(s, px(s, 1), n) }, Order { fs: true, rej: false, ..po(t, if t == S::B { 1 } else { 9 }, n) }] {
                    if ff { b.pf("w0", x) } else { b.p("w0", x) }
                }
            }
            b.p("w0", Order { fs: true, ..li(t, px(s, 0), 1) });
            b.pf("w0", Order { fs: true, ..li(t, px(s, 0), 4) });
            b.p("w0", Order { fs: true, ..po(S::B, u64::MAX / 2, 5) });
            b.p("w0", Order { fs: true, ..po(S::B, 1, u64::MAX) });
            b.p("w0", po(S::B, u64::MAX, 2));
            b.p("w0", po(S::A, u64::MAX, 2));
            b.p("w0", po(S::A, 3, u64::MAX));
            b.p("w0", po(S::A, 0, 2));
            b.p("w0", po(S::B, 0, 2));
            b.p("w0", ioc(t, None, u64::MAX, 0));
            b.p("w0", ioc(t, None, 0, u64::MAX));
            b.p("w0", ioc(t, Some(u64::MAX), 1, 1));
            b.p("w0", ioc(t, Some(0), 2, 0));
            b.p("w2", Order { fs: true, ..po(s, px(s, 1), 1) });
            b.dep("w0", u64::MAX, 0);
            b.dep("w0", 3, 2);
            b.wd("w0", Some(u64::MAX), Some(u64::MAX));
            b.multi("w0", &[cond(1, 14), cond(2, 3)], &[cond(9, 14), cond(8, 3)], 2, v % 2 == 0);
            b.multi("w0", &[cond(u64::MAX, 2)], &[], 2, false);
            b.multi("w0", &[cond(1, u64::MAX), cond(1, 2)], &[], 3, false);
            b.multi("w0", &[], &[cond(7, u64::MAX), cond(7, 2)], 0, false);
            depth = 3 + deep as u64;
        }
        // more orders and events than fit one page of anything
        "many" => {
            b.open(3, 100_000);
            let n = 56 + 7 * (v % 12);
            let mut left = n;
            let mut i = 0u64;
            let step = b.env.cfg.m.nb;
            while left > 0 {
                // distinct limits, so that nothing is merged
                let k = left.min(12 + v % 5);
                let list: Vec<Cond> = (0..k)
                    .map(|j| Cond {
                        // spread over three prices, or most of them at one
                        px: px(s, if v % 2 == 0 || i + j < 6 { (i + j) % 3 } else { 0 }),
                        sz: (1 + (i + j) % 4) * step,
                        lvs: if (i + j) % 2 == 0 { Some(100) } else { None },
                        lvt: Some(5000 + 10 * (i + j)),
                    })
                    .collect();
                let t = ["w0", "w1", "w0"][(i % 3) as usize];
                if s == S::A { b.multi(t, &[], &list, 2, false) } else { b.multi(t, &list, &[], 2, true) }
                i += k;
                left -= k;
            }
            b.p("w1", po(t, px(t, 2), 3));
            b.scene();
            b.simple(6, "w0", "");
            b.simple(7, "w1", "");
            b.upto(8, "w0", "", s, Some(px(s, 1)), Some(40 + v as u32 % 16), None);
            b.upto(9, "w0", "", s, None, None, Some(30 + v as u32 % 9));
            let ids: Vec<(S, usize)> = (0..34 + v as usize % 5).map(|k| (s, k)).collect();
            b.byid("w0", &ids[..26.min(n as usize)], v % 2 == 0);
            for k in [25u64, 26, 27, n / 2, n] {
                b.p("w2", ioc(t, None, k * step * 5 / 2, 0));
            }
            b.p("w2", Order { ml: Some(20 + v % 9), ..ioc(t, None, 1 << 20, 0) });
            b.p("w0", Order { stb: (v % 2) as u8 + 1, ..li(t, px(s, 2), 60 * step) });
            b.p("w2", Order { rej: false, ..po(t, px(s, 1), 2) });
            b.tick(1, 0);
            b.tick(1, 10 * (20 + v as i64 % 9));
            let list: Vec<Cond> = (0..20 + v % 4).map(|j| Cond { px: 7 + j % 5, sz: 1 + j, lvs: Some(1000), lvt: None }).collect();
            b.multi("w2", &[], &list, 0, v % 2 == 1);
            if v % 2 == 0 { b.multi("w2", &[cond(5, 1), cond(6, 2), cond(7, 3)], &[], 0, false) }
            probe = "look";
            depth = 2 + deep as u64;
        }
        // numbers around every boundary
        "huge" => {
            b.open(2, if v % 3 == 0 { 0 } else { 1 << 40 });
            b.p("w1", po(S::A, 7, 1 << 30));
            b.p("w1", po(S::B, 5, 1 << 30));
            b.scene();
            let (bls, qls) = (b.env.cfg.bls(), b.env.cfg.qls());
            let (tk, nb) = (b.env.cfg.m.tick, b.env.cfg.m.nb);
            // lots whose value in atoms wraps around to little or nothing
            let wrap = |unit: u64| ((1u128 << 64) / unit as u128 + 1).min(u64::MAX as u128) as u64;
            for (q, x) in [(0, wrap(bls)), (wrap(qls), 0), (0, wrap(bls) - 1), (wrap(qls) - 1, 0), (1 << 63, 1), (1, 1 << 63), (u64::MAX, u64::MAX), (1 << 32, 1 << 32)] {
                b.dep("w0", q, x);
            }
            for (q, x) in [(None, Some(wrap(bls))), (Some(wrap(qls)), None), (Some(u64::MAX), Some(1)), (Some(1 << 32), Some(1 << 63)), (None, None)] {
                b.wd("w0", q, x);
            }
            // prices and sizes whose product is around what 64 bits hold
            let most = |unit: u64, p: u64| ((1u128 << 64) / (unit as u128 * p as u128)).min(u64::MAX as u128) as u64;
            for (k, p) in [(0u64, 1u64), (1, 4), (2, 1 << 20), (3, 1 << 40), (4, most(tk, 1)), (5, most(1, 1) / 2)] {
                for d in 0..3u64 {
                    let n = most(tk, p).wrapping_add(d).wrapping_sub(1);
                    let n2 = ((1u128 << 64) * nb as u128 / (tk as u128 * p as u128)).min(u64::MAX as u128) as u64;
                    let n = if (k + v) % 2 == 0 { n } else { n2.wrapping_add(d).wrapping_sub(1) };
                    let ff = (k + d) % 2 == 0;
                    let side = if (d + k / 2 + v) % 2 == 0 { S::B } else { S::A };
                    let x = Order { rej: d != 1, ..po(side, p, n) };
                    if ff { b.pf("w0", x) } else { b.p("w0", x) }
                    b.p("w0", li(side.opp(), p, n));
                }
            }
            for (bl, ql) in [(u64::MAX, 0), (0, u64::MAX), (0, most(nb, 1)), (0, most(nb, 1).wrapping_add(1)), (1 << 63, 0), (0, 1 << 63), (0, most(nb, 10000)), (1 << 31, 0), (0, 1 << 33), (0, (1 << 33) + 1)] {
                for side in [S::B, S::A] {
                    b.p("w0", ioc(side, None, bl, ql));
                    if (bl ^ ql) % 3 != 0 {
                        b.pf("w0", ioc(side, Some(if side == S::B { 1 << 40 } else { 1 }), bl, ql));
                    }
                }
            }
            b.p("w0", Order { ml: Some(u64::MAX), minb: u64::MAX, ..ioc(t, None, u64::MAX, 0) });
            b.multi("w0", &[cond(1 << 40, 1 << 40), cond(1, 1)], &[cond(1 << 62, 1 << 30)], (v % 4) as u8, v % 2 == 0);
            b.multi("w0", &[cond(4, 1 << 63), cond(4, 1 << 63)], &[cond(9, 1 << 63), cond(9, 1 << 63)], ((v + 1) % 4) as u8, v % 2 == 1);
            b.reduce("w1", s, 0, u64::MAX, false);
            b.reduce("w1", s, 0, (1 << 30) - 1, true);
            b.upto(8, "w1", "", s, Some(u64::MAX), Some(u32::MAX), Some(u32::MAX));
            b.upto(9, "w1", "", t, Some(0), Some(0), None);
            b.simple(108, "adm", "fee");
            depth = 2;
        }
        // every length and every first byte of every order
        "wire" => {
            b.open(2, 60);
            b.p("w1", po(s, px(s, 0), 2));
            b.scene();
            let side = if v % 2 == 0 { s } else { t };
            let mut v_ = vec![];
            for (lvs, lvt, fs) in [(None, None, false), (None, None, true), (Some(100u64), None, false), (None, Some(5001u64), true), (Some(0), Some(0), false), (Some(u64::MAX), Some(u64::MAX), true)] {
                for ff in [false, true] {
                    v_.push((Order { lvs, lvt, fs, coid: u128::MAX - 5, ..po(side, px(side, 1), 2) }, ff));
                    v_.push((Order { lvs, lvt, fs, ml: Some(3), ..li(side, px(side, 1), 2) }, ff));
                    v_.push((Order { lvs, lvt, ..ioc(side, Some(px(s, 0)), 1, 0) }, ff));
                }
            }
            for (x, ff) in v_ {
                if let Item::Call { metas, data, .. } = b.ord("w0", &x, ff) {
                    for n in 1..=data.len() {
                        if n + 30 > data.len() || n as u64 % 4 == v % 4 {
                            b.say(Item::Call { metas: metas.clone(), data: data[..n].to_vec(), refs: vec![] });
                        }
                    }
                    for extra in [vec![0u8], vec![1], vec![0, 0], vec![0, 0, 0], vec![1, 1, 1, 1, 1, 1, 1, 1, 1]] {
                        let mut d = data.clone();
                        d.extend(extra);
                        b.say(Item::Call { metas: metas.clone(), data: d, refs: vec![] });
                    }
                    for i in 1..data.len() {
                        if i as u64 % 4 == v / 2 % 4 {
                            for y in [data[i] ^ 1, 2, 3, 255] {
                                let mut d = data.clone();
                                d[i] = y;
                                b.say(Item::Call { metas: metas.clone(), data: d, refs: vec![] });
                            }
                        }
                    }
                }
            }
            depth = 1;
            probe = "wire";
        }
        // the data of every instruction cut short, continued, or with another byte somewhere
        "bytes" => {
            b.open(2, 40);
            b.p("w0", po(s, px(s, 0), 5));
            b.p("w1", ioc(t, None, 2, 0));
            b.p("w1", po(t, px(t, 1), 1));
            b.sstatus("adm", "w1", 0);
            b.scene();
            let mut base = every(&b, s, t);
            let mut c = B { env: Env { names: b.env.names.clone(), cfg: b.env.cfg.clone() }, setup: vec![], alpha: vec![], fee, adm1: b.adm1 };
            c.upto(8, "w0", "", s, Some(px(s, 0)), Some(3), Some(2));
            c.upto(107, "adm", "w1", t, Some(px(t, 1)), Some(1), Some(1));
            c.wd("w0", None, Some(2));
            c.wd("w0", Some(1), Some(2));
            let l = |px, sz| Cond { px, sz, lvs: Some(100 + v % 3), lvt: if v % 2 == 0 { Some(5003) } else { None } };
            let d = multi(16, &[l(2, 1), cond(3, 2)], &[l(9, 1)], if v % 3 == 0 { None } else { Some(3) }, (v % 4) as u8);
            let i = c.raw(16, "w0", "", d);
            c.say(i);
            let m2 = MarketCfg { size: [4, 4, 6], raw: if v % 2 == 0 { None } else { Some(1) }, ..c.env.cfg.m.clone() };
            let fee_to = c.env.k("fee");
            let i = Item::Call { metas: c.env.accs(100, "m2", "adm", ""), data: init_data(&m2, &fee_to), refs: vec![] };
            c.say(i);
            c.mstatus("adm", 3);
            c.sstatus("adm", "w1", 2);
            base.extend(c.alpha);
            let mut all = vec![];
            for (n, i) in base.iter().enumerate() {
                let Item::Call { metas, data, refs } = i else { continue };
                let mut data = data.clone();
                for r in refs {
                    data[r.off..r.off + 8].copy_from_slice(&px(s, 0).to_le_bytes());
                    data[r.off + 8..r.off + 16].copy_from_slice(&(if s == S::A { 1 } else { !1u64 }).to_le_bytes());
                }
                let mut say = |d: Vec<u8>| all.push(Item::Call { metas: metas.clone(), data: d, refs: vec![] });
                say(data.clone());
                for k in 1..data.len() {
                    if data.len() < 30 || (k + n) as u64 % 4 == v % 4 || k + 3 > data.len() {
                        say(data[..k].to_vec());
                    }
                }
                for x in [vec![0u8], vec![1], vec![0; 4], vec![255; 9]] {
                    let mut d = data.clone();
                    d.extend(x);
                    say(d);
                }
                for k in 1..data.len() {
                    if (k + n) as u64 % 4 == v / 4 % 4 || k == 1 {
                        for y in [data[k] ^ 1, 2, 3, 255] {
                            let mut d = data.clone();
                            d[k] = y;
                            say(d);
                        }
                    }
                }
                let mut tags = vec![18u8, 99, 110, 255, data[0].wrapping_add(100)];
                tags.extend((0..8).map(|k| data[0] ^ 1 << k));
                tags.extend((0..4).map(|k| (n as u64 * 37 + v * 11 + k * 53) as u8));
                for y in tags {
                    let mut d = data.clone();
                    d[0] = y;
                    say(d);
                }
            }
            b.alpha = all;
            depth = 1;
        }
        // a range of states in which every builder is tried
        "build" => {
            b.open(2, 40);
            b.p("w0", po(s, px(s, 0), 5));
            b.p("w0", po(t, px(t, 1), 2));
            b.scene();
            b.p("w1", ioc(t, None, 2, 0));
            b.p("w1", po(s, px(s, 1), 2));
            b.sstatus("adm", "w1", 0);
            b.sstatus("adm", "w0", 2);
            b.mstatus("adm", 3);
            b.mstatus("adm", 2);
            b.simple(7, "w0", "");
            b.succ("adm", "suc");
            b.chfr("adm", "suc", Some(("fee", true)));
            probe = "build";
        }
        _ => panic!("theme {}", theme),
    }
    let _ = b.fee;
    if far {
        // where the search is cut short, it is elsewhere in each variant
        let n = b.alpha.len();
        b.alpha.rotate_left(v as usize * 5 % n);
    }
    if sample != 0 {
        let mut r = crate::rng::Rng::new(sample);
        let keep = (8 + r.n(8)) as usize;
        while b.alpha.len() > keep {
            let i = r.n(b.alpha.len() as u64) as usize;
            b.alpha.remove(i);
        }
        depth += 3;
    }
    Model { env: b.env, world, slot: 100, ts: 5000, setup: b.setup, alpha: b.alpha, depth, probe }
}

/// One honest use of every instruction.
/// The same call, of the other market.
fn other(b: &B, i: &Item) -> Item {
    match i {
        Item::Call { metas, data, refs } => {
            let m = metas.iter().map(|x| Meta { key: mirror(&b.env.names, &x.key).unwrap_or(x.key), ..x.clone() }).collect();
            Item::Call { metas: m, data: data.clone(), refs: refs.clone() }
        }
        x => x.clone(),
    }
}
fn every(b: &B, s: S, t: S) -> Vec<Item> {
    let mut c = B { env: Env { names: b.env.names.clone(), cfg: b.env.cfg.clone() }, setup: vec![], alpha: vec![], fee: b.fee, adm1: b.adm1 };
    let px = |side: S, lvl: u64| if side == S::A { 5 + lvl } else { 5 - lvl };
    c.p("w0", po(s, px(s, 2), 1));
    c.pf("w0", po(s, px(s, 2), 1));
    c.p("w0", li(t, px(s, 0), 1));
    c.p("w0", li(s, px(s, 1), 1));
    c.pf("w0", li(s, px(s, 1), 1));
    c.p("w1", ioc(t, None, 1, 0));
    c.pf("w0", ioc(t, None, 1, 0));
    c.p("eve", ioc(t, Some(px(s, 0)), 0, 9));
    c.reduce("w0", s, 0, 1, false);
    c.reduce("w0", s, 0, 1, true);
    c.simple(6, "w0", "");
    c.simple(7, "w0", "");
    c.upto(8, "w0", "", s, None, None, Some(1));
    c.upto(9, "w0", "", s, None, None, Some(1));
    c.byid("w0", &[(s, 0)], false);
    c.byid("w0", &[(s, 0)], true);
    c.wd("w0", Some(1), None);
    c.dep("w0", 1, 1);
    c.simple(14, "eve", "");
    c.simple(15, "eve", "");
    c.multi("w0", &[cond(2, 1)], &[cond(9, 1)], 0, false);
    c.multi("w0", &[cond(2, 1)], &[cond(9, 1)], 0, true);
    c.simple(101, "adm", "");
    c.succ("adm", "suc");
    c.mstatus("adm", 2);
    c.sstatus("adm", "w1", 1);
    c.simple(105, "adm", "suc");
    c.simple(106, "adm", "w1");
    c.upto(107, "adm", "w1", s, None, None, None);
    c.simple(108, "eve", "fee");
    c.chfr("adm", "suc", Some(("fee", true)));
    c.alpha
}

// ---------------------------------------------------------------------------------------------
fn item_json(e: &Env, i: &Item) -> String {
    match i {
        Item::Tick { slots, secs } => format!("{{\"k\":\"tick\",\"ds\":\"{}\",\"dt\":\"{}\"}}", slots, secs),
        Item::Call { metas, data, refs } => {
            let mut m = metas.clone();
            vm::merge_flags(&mut m);
            let r: Vec<String> =
                refs.iter().map(|r| format!("{{\"side\":\"{}\",\"k\":{}}}", if r.side == S::B { "B" } else { "A" }, r.k + 1)).collect();
            format!("{{\"k\":\"call\",\"c\":{},\"refs\":[{}]}}", call_json(&e.names, &m, data, 0, 0), r.join(","))
        }
    }
}

/// The model as TLC reads it: the start, then the scene and the alphabet.
pub fn write(out: &mut dyn std::io::Write, m: &Model) {
    let pk: Vec<String> =
        m.env.names.by_key.iter().map(|(k, v)| format!("\"{}\":{}", obs::dec(k.as_ref()), q(v))).collect();
    let _ = writeln!(
        out,
        "{{\"k\":\"root\",\"slot\":\"{}\",\"ts\":\"{}\",\"depth\":{},\"pk\":{{{}}},\"acc\":{}}}",
        m.slot, m.ts, m.depth, pk.join(","), obs::world(&m.env.names, &m.world)
    );
    let f = |v: &[Item]| v.iter().map(|i| item_json(&m.env, i)).collect::<Vec<_>>().join(",");
    let _ = writeln!(out, "{{\"setup\":[{}],\"alpha\":[{}]}}", f(&m.setup), f(&m.alpha));
}

pub fn fill(g: &Gen, at: usize, data: &[u8], refs: &[Ref]) -> Option<Vec<u8>> {
    let mut d = data.to_vec();
    if !refs.is_empty() {
        let m = g.mkt(at, MS);
        for r in refs {
            let x = m.side(r.side).get(r.k)?;
            d[r.off..r.off + 8].copy_from_slice(&x.px.to_le_bytes());
            d[r.off + 8..r.off + 16].copy_from_slice(&x.seq.to_le_bytes());
        }
    }
    Some(d)
}

/// A generator standing at the start of the model.
pub fn stand(m: Model, beat: Arc<Beat>) -> (Gen, Vec<Item>, Vec<Item>, &'static str) {
    let run = crate::trace::Run::new(m.env.names.clone(), m.world, m.slot, m.ts, beat);
    let mut p = crate::gen::base();
    p.advers = 0;
    p.clock = 0;
    (Gen { env: m.env, run, r: crate::rng::Rng::new(77), p, coid: 0 }, m.setup, m.alpha, m.probe)
}
