//! Random, state-aware scenarios.
use crate::env::{seat_acct, Cfg, Env, MarketCfg};
use crate::obs::{self, Mkt};
use crate::rng::Rng;
use crate::trace::{Beat, Run};
use crate::vm::{Acct, Meta};
use crate::wire::{ix, multi, Cond, Kind, Order, S};
use solana_program::pubkey::Pubkey;
use std::sync::Arc;

/// What a scenario concentrates on.
#[derive(Clone)]
pub struct Profile {
    pub acts: Vec<(&'static str, u64)>,
    pub sizes: Vec<[u64; 3]>,
    pub traders: Vec<usize>,
    pub unseated: usize, // extra wallets without a seat
    pub fees: Vec<u16>,
    pub pxs: u64,          // prices 1..=pxs
    pub szs: u64,          // sizes 1..=szs
    pub amt: Vec<u64>,     // token balances in lots
    pub dep: u64,          // chance of a deposit during setup
    pub expire: u64,       // chance that an order carries limits
    pub advers: u64,       // chance that a call is corrupted
    pub cross: u64,        // chance that a corruption is of accounts of the other market
    pub ff: u64,           // chance of the free-funds form
    pub fs: u64,
    pub ml: u64,           // chance of a match limit
    pub minfill: u64,
    pub budget: u64,       // chance that an IOC uses a quote budget
    pub stb: Vec<(u8, u64)>,
    pub trunc: u64,        // chance that trailing order fields are left out
    pub huge: u64,         // chance of an enormous number
    pub sums: bool,        // looks at arithmetic more than at markets
    pub steps: usize,
    pub back: u64,         // per mille: return to an earlier state
    pub big: bool,         // overflow-prone market configuration
    pub other_status: u64, // chance that setup leaves the market in another status
    pub clock: u64,        // chance that time moves
    pub big_multi: u64,    // chance that a batch is long
    pub rej: u64,
    pub crowd: usize,      // more traders than eight bits count; few of them do anything
    pub aged: u64,         // a market that has seen many orders and instructions
    pub scale: u64,        // sizes are multiples of this, or nearly
    pub exact: u64,        // chance that an order is for just what its sender has
    pub mass: bool,         // ends in calls that reach hundreds of orders
    pub deep: bool,        // a real market size and a book of dozens of orders
}

pub fn base() -> Profile {
    Profile {
        acts: vec![
            ("ioc", 20), ("limit", 20), ("po", 22), ("multi", 8), ("reduce", 6), ("cancelall", 2), ("upto", 4),
            ("byid", 4), ("withdraw", 4), ("deposit", 5), ("seatstatus", 1), ("force", 1), ("evict", 1),
            ("collect", 2), ("chfr", 1), ("mstatus", 2), ("recover", 3), ("succ", 1), ("claim", 1), ("reqseat", 1),
            ("reqauth", 1), ("poke", 2), ("ladder", 2), ("approve", 2),
        ],
        sizes: vec![[4, 4, 6], [4, 4, 6], [2, 2, 3], [8, 8, 8]],
        traders: vec![2, 3, 3, 4],
        unseated: 1,
        fees: vec![0, 1, 2, 5, 30, 333, 2500, 10000],
        pxs: 10,
        szs: 12,
        amt: vec![50, 1000, 100000],
        dep: 70,
        expire: 15,
        advers: 3,
        cross: 8,
        ff: 35,
        fs: 12,
        ml: 25,
        minfill: 20,
        exact: 6,
        budget: 45,
        stb: vec![(0, 2), (1, 4), (2, 4)],
        trunc: 10,
        huge: 1,
        sums: false,
        steps: 120,
        back: 30,
        big: false,
        other_status: 0,
        clock: 35,
        big_multi: 5,
        rej: 50,
        crowd: 0,
        aged: 0,
        scale: 1,
        mass: false,
        deep: false,
    }
}

fn set(p: &mut Profile, acts: &[(&'static str, u64)]) {
    for (a, w) in acts {
        match p.acts.iter_mut().find(|x| x.0 == *a) {
            Some(x) => x.1 = *w,
            None => p.acts.push((a, *w)),
        }
    }
}

/// A smallest real market, with many orders on it.
fn deepen(p: &mut Profile) {
    let keep: Vec<_> = p.acts.iter().filter(|a| matches!(a.0, "leave" | "wind" | "view" | "ladder")).map(|a| (a.0, a.1.min(6))).collect();
    p.acts = vec![
        ("multi", 40), ("ioc", 14), ("limit", 10), ("po", 4), ("selfioc", 5), ("selflimit", 3), ("upto", 7), ("byid", 5), ("reduce", 3),
        ("cancelall", 1), ("force", 1), ("withdraw", 1), ("collect", 1), ("recover", 2), ("approve", 2), ("seatstatus", 1), ("ladder", 1),
    ];
    p.acts.extend(keep);
    p.deep = true;
    p.sizes = vec![[512, 512, 128]];
    p.traders = vec![2, 3];
    p.unseated = 1;
    p.amt = vec![100_000];
    p.dep = 100;
    p.pxs = 60;
    p.szs = 4;
    p.expire = 25;
    p.big_multi = 75;
    p.ml = 10;
    p.minfill = 8;
    p.budget = 15;
    p.clock = 15;
    p.huge = 0;
    p.big = false;
    p.other_status = 0;
    p.advers = 1;
    p.steps = 80;
    p.back = 0;
}

/// The scenario weights of a property's check.
pub fn profile(id: &str, rng: &mut Rng) -> Profile {
    let mut p = base();
    match id {
        "C33" => set(&mut p, &[("leave", 12)]),
        "C34" => set(&mut p, &[("wind", 6)]),
        "C35" => {
            // crowded books, where a call meets the orders of many
            p.traders = vec![3, 4, 5];
            p.expire = 30;
            p.clock = 45;
            p.advers = 15;
            p.cross = 60;
            set(&mut p, &[("selfioc", 8), ("selflimit", 5), ("force", 4), ("evict", 3), ("seatstatus", 3)]);
        }
        "C36" => {
            p.steps = 60;
            set(&mut p, &[("bytes", 80)]);
        }
        _ => {}
    }
    // every check spends part of its effort on the general mix
    if rng.p(20) {
        return p;
    }
    match id {
        "C02" => {
            p.expire = 25;
            set(&mut p, &[("reduce", 12), ("upto", 8), ("byid", 8), ("ioc", 30)]);
        }
        "C03" => {
            p.sizes = vec![[2, 2, 3], [4, 4, 6]];
            p.expire = 25;
            p.pxs = 6;
        }
        "C04" => {
            set(&mut p, &[("ioc", 45), ("limit", 30), ("po", 40)]);
            p.pxs = 6;
            p.budget = 30;
        }
        "C05" => {
            set(&mut p, &[("ioc", 90), ("po", 45)]);
            p.ml = 45;
            p.minfill = 50;
            p.huge = 3;
        }
        "C06" => {
            set(&mut p, &[("ioc", 60), ("limit", 30), ("po", 40), ("collect", 4)]);
            p.fees = vec![1, 2, 5, 30, 333, 2500, 9999, 10000, 7];
            p.szs = 40;
        }
        "C07" => {
            set(&mut p, &[("collect", 40), ("chfr", 30), ("ioc", 40), ("succ", 3), ("claim", 3)]);
            p.fees = vec![5, 30, 333, 2500, 10000];
            p.advers = 12;
        }
        "C08" => {
            set(&mut p, &[("po", 70), ("multi", 15), ("ioc", 10), ("limit", 15)]);
            p.pxs = 5;
            p.expire = 35;
        }
        "C09" => {
            p.traders = vec![2, 2, 3];
            set(&mut p, &[("selfioc", 40), ("selflimit", 25), ("ioc", 5), ("po", 45), ("limit", 10)]);
            p.ml = 45;
            p.pxs = 6;
        }
        "C10" => {
            p.expire = 65;
            p.clock = 55;
            set(&mut p, &[("multi", 12), ("ladder", 3)]);
        }
        "C11" => {
            set(&mut p, &[("reduce", 35), ("upto", 30), ("byid", 30), ("cancelall", 8), ("po", 50), ("multi", 20), ("ioc", 8)]);
            p.sizes = vec![[4, 4, 6], [8, 8, 8]];
        }
        "C12" => {
            p.ff = 90;
            p.dep = 85;
            p.exact = 30;
            p.amt = vec![5, 20, 60, 1000, 100000];
        }
        "C13" => {
            p.ff = 5;
            p.dep = 50;
            p.exact = 20;
            p.amt = vec![5, 20, 60, 1000];
            set(&mut p, &[("withdraw", 14), ("deposit", 12), ("force", 5), ("evict", 4), ("seatstatus", 3)]);
        }
        "C14" => {
            p.sizes = vec![[2, 2, 3]];
            p.traders = vec![2, 3];
            set(&mut p, &[("po", 60), ("limit", 30), ("ioc", 6), ("multi", 12)]);
        }
        "C15" => {
            set(&mut p, &[("succ", 12), ("claim", 12), ("mstatus", 12), ("recover", 8), ("seatstatus", 12), ("chfr", 10),
                ("reqauth", 8), ("evict", 10), ("force", 10), ("usurp", 45)]);
            p.advers = 8;
        }
        "C16" => {
            set(&mut p, &[("mstatus", 25), ("recover", 3), ("closestep", 3), ("reqseat", 6), ("withdraw", 10), ("deposit", 10), ("cancelall", 6)]);
            p.other_status = 60;
            p.back = 80;
        }
        "C17" => {
            set(&mut p, &[("badseat", 60), ("seatstatus", 8), ("approve", 6), ("deposit", 12)]);
        }
        "C18" => {
            set(&mut p, &[("reqseat", 30), ("reqauth", 30), ("seatstatus", 35), ("approve", 10), ("prefund", 15), ("evict", 6), ("force", 4)]);
            p.unseated = 4;
            p.advers = 10;
            p.back = 80;
        }
        "C19" => {
            set(&mut p, &[("seatstatus", 15), ("force", 30), ("evict", 30), ("approve", 8), ("drain", 10)]);
            p.advers = 6;
        }
        "C20" => {
            p.advers = 70;
            p.cross = 15;
        }
        "C21" => {
            p.expire = 30;
            p.big_multi = 40;
            set(&mut p, &[("multi", 25), ("cancelall", 8), ("collect", 6)]);
        }
        "C22" => {
            set(&mut p, &[("multi", 30), ("limit", 40), ("pokeseq", 4)]);
            p.expire = 30;
        }
        "C23" => {
            p.fs = 55;
            p.amt = vec![3, 10, 40];
            p.dep = 40;
            if rng.p(50) {
                p.big = true;
                p.huge = 20;
            }
        }
        "C24" => {
            set(&mut p, &[("multi", 120), ("ioc", 15), ("limit", 8), ("po", 10)]);
            p.big_multi = 15;
            p.expire = 25;
            p.amt = vec![20, 60, 1000];
        }
        "C25" => {
            set(&mut p, &[("init", 200), ("prefund", 25), ("ioc", 4), ("po", 4), ("limit", 4)]);
            p.steps = 60;
            p.back = 200;
        }
        "C26" => {
            set(&mut p, &[("closestep", 120), ("mstatus", 10), ("closed", 40), ("recover", 0), ("deposit", 1), ("po", 3), ("limit", 3), ("ioc", 6), ("approve", 0)]);
            p.steps = 70;
            p.back = 120;
        }
        "C27" => {
            p.trunc = 60;
            set(&mut p, &[("limit", 40), ("po", 40), ("ioc", 40), ("decode", 120)]);
            p.expire = 40;
            p.fs = 30;
        }
        "C28" => {
            set(&mut p, &[("ladder", 70), ("multi", 20)]);
            p.expire = 50;
            p.pxs = 6;
            p.sizes = vec![[4, 4, 6], [8, 8, 8]];
        }
        "C31" | "C32" => {
            set(&mut p, &[("view", 90), ("multi", 15)]);
            p.sums = id == "C32";
            p.expire = 40;
            p.sizes = vec![[4, 4, 6], [8, 8, 8]];
        }
        "C33" | "C34" => {
            set(&mut p, &[("seatstatus", 8), ("approve", 8), ("mstatus", 6), ("reqseat", 3), ("multi", 14), ("force", 3), ("withdraw", 6)]);
            p.expire = 25;
            p.amt = vec![50, 1000, 100000];
            p.huge = 4;
            p.big = rng.p(30);
        }
        "C30" => {
            set(&mut p, &[("built", 150), ("poke", 1), ("view", 15)]);
            p.advers = 0;
            p.steps = 100;
        }
        _ => {}
    }
    p
}

pub struct Gen {
    pub env: Env,
    pub run: Run,
    pub r: Rng,
    pub p: Profile,
    pub coid: u128,
}

pub fn divisor(r: &mut Rng, unit: u128, cap: u64) -> u64 {
    let c: Vec<u64> =
        [1u64, 2, 4, 5, 8, 10, 25, 50, 100, 1000, 3, 6].iter().copied().filter(|d| *d <= cap && unit % *d as u128 == 0).collect();
    *r.of(&c)
}

pub fn config(r: &mut Rng, p: &Profile) -> Cfg {
    let traders = *r.of(&p.traders);
    let size = *r.of(&p.sizes);
    let seats = traders.min(size[2] as usize);
    let amt = *r.of(&p.amt);
    let fee = *r.of(&p.fees);
    if p.big {
        let tick = 1u64 << r.r(1, 50);
        return Cfg {
            bdec: 0, qdec: 0,
            m: MarketCfg { size, nq: 1, tick, nb: if r.p(50) { 1 } else { 1 }, fee, raw: None },
            traders: traders + p.unseated, seats, amt: *r.of(&[1u64 << 20, 1 << 40, 1 << 56]), native: 0,
        };
    }
    let bdec = *r.of(&[0u8, 1, 2, 3, 6, 9]);
    let qdec = *r.of(&[0u8, 2, 3, 6]);
    let raw = *r.of(&[None, None, Some(1u32), Some(2), Some(6), Some(1000)]);
    let nb = divisor(r, 10u128.pow(bdec as u32) * raw.unwrap_or(1) as u128, 100);
    let nq = divisor(r, 10u128.pow(qdec as u32), 1000);
    let tick = nb * *r.of(&[1u64, 1, 2, 3, 10]);
    let native = *r.of(&[0u8, 0, 0, 0, 0, 0, 0, 1, 1, 2]);
    Cfg { bdec, qdec, m: MarketCfg { size, nq, tick, nb, fee, raw }, traders: traders + p.unseated, seats, amt, native }
}

pub fn init_data(c: &MarketCfg, collector: &Pubkey) -> Vec<u8> {
    ix(100).u64(c.size[0]).u64(c.size[1]).u64(c.size[2]).u64(c.nq).u64(c.tick).u64(c.nb).u16(c.fee)
        .raw(collector.as_ref()).o32(c.raw).0
}

impl Gen {
    pub fn scenario(seed: u64, id: &str, beat: Arc<Beat>) -> Gen {
        let mut r = Rng::new(seed);
        let mut p = profile(id, &mut r);
        let share = std::env::var("PHX_DEEP").ok().and_then(|x| x.parse().ok()).unwrap_or(5);
        if seed % 100 < share && id != "C25" {
            deepen(&mut p);
            if seed >> 20 & 1 == 1 {
                // mostly growing
                set(&mut p, &[("multi", 90), ("ioc", 5), ("limit", 3), ("selfioc", 2), ("selflimit", 1)]);
                p.traders = vec![2];
                p.expire = 8;
                p.clock = 5;
            }
            p.mass = id != "C29" && seed >> 21 & 1 == 1;
        }
        let mut r2 = Rng::new(seed ^ 0x1a46e);
        if !p.deep && !["C25", "C26", "C29"].contains(&id) {
            let k = r2.n(200);
            if k < 2 {
                p.crowd = 259;
                p.big = false;
                p.sizes = vec![[512, 512, 1025]];
                p.traders = vec![p.crowd];
                p.unseated = 1;
                p.steps = p.steps.min(80);
                p.amt = vec![100_000];
                p.other_status = 0;
            } else if k < 14 {
                p.aged = r2.next() | 1;
            }
        }
        let mut cfg = config(&mut r, &p);
        if !p.deep && !p.big && p.huge > 0 && r2.p(6) {
            // amounts whose sums and products come close to 64 bits
            let most = (1u64 << 62) / cfg.bls().max(cfg.qls()).max(1) / cfg.amt;
            p.scale = (1u64 << r2.r(24, 50)).min(most).max(1);
            p.scale -= r2.n(p.scale / 8 + 1);
            cfg.amt *= p.scale;
        }
        if id == "C25" && r2.p(30) {
            // more units than 64 bits hold
            cfg.bdec = 12;
            cfg.amt = 50;
        }
        Gen::with(seed, r, p, cfg, beat)
    }
    pub fn with(seed: u64, mut r: Rng, p: Profile, cfg: Cfg, beat: Arc<Beat>) -> Gen {
        let (env, world) = Env::new(seed ^ 0x5eed, cfg);
        let mut slot = r.r(10, 1000);
        let mut ts = r.r(1000, 100000) as i64;
        if seed >> 24 & 7 == 0 {
            // clocks that outgrow 32 bits
            slot = *r.of(&[(1 << 31) - 20, (1 << 32) - 20, (1 << 32) + 5, 1 << 40]);
            ts = *r.of(&[(1 << 31) - 30, (1 << 32) - 30, (1 << 32) + 9, 1 << 41]);
        }
        let run = Run::new(env.names.clone(), world, slot, ts, beat);
        Gen { env, run, r, p, coid: 0 }
    }

    pub fn clock(&mut self, at: usize) -> (u64, i64) {
        let s = &self.run.states[at];
        let (mut a, mut b) = (s.slot, s.ts);
        if self.r.p(self.p.clock) {
            a += *self.r.of(&[0u64, 1, 1, 2, 3, 20]);
            b += *self.r.of(&[0i64, 1, 1, 2, 3, 40]);
        }
        (a, b)
    }
    pub fn do_call(&mut self, at: usize, metas: Vec<Meta>, data: Vec<u8>) -> (usize, bool) {
        let (s, t) = self.clock(at);
        self.run.call(at, &metas, &data, s, t, "")
    }
    pub fn mkt(&self, at: usize, m: &str) -> Mkt {
        let a = self.run.acct(at, &self.env.k(m));
        if obs::is_market(&a) { obs::market(&a).unwrap_or_default() } else { Mkt::default() }
    }
    /// The name of an account; an address out of nowhere counts as a stranger's.
    pub fn nm(&self, k: &Pubkey) -> String {
        self.env.names.by_key.get(k).cloned().unwrap_or_else(|| "eve".into())
    }

    /// Initializes both markets, seats traders and funds them.
    pub fn setup(&mut self) -> usize {
        let mut at = 0;
        let fee = self.env.k("fee");
        let m0 = self.env.cfg.m.clone();
        let m1 = MarketCfg { size: [2, 2, 3], ..m0.clone() };
        // the other market may well be somebody else's
        let adm1 = *self.r.of(&["adm", "suc", "suc", "eve"]);
        for (m, a, c) in [("m0", "adm", &m0), ("m1", adm1, &m1)] {
            at = self.do_call(at, self.env.accs(100, m, a, ""), init_data(c, &fee)).0;
        }
        for i in 0..self.env.cfg.seats {
            let t = self.env.trader(i);
            if self.r.p(50) {
                at = self.do_call(at, self.env.accs(105, "m0", "adm", &t), ix(105).0).0;
            } else {
                at = self.do_call(at, self.env.accs(14, "m0", &t, ""), ix(14).0).0;
            }
            at = self.do_call(at, self.env.accs(104, "m0", "adm", &t), ix(104).u8(1).0).0;
        }
        at = self.do_call(at, self.env.accs(105, "m1", adm1, "w1"), ix(105).0).0;
        at = self.do_call(at, self.env.accs(104, "m1", adm1, "w1"), ix(104).u8(1).0).0;
        at = self.do_call(at, self.env.accs(13, "m1", "w1", ""), ix(13).u64(5).u64(5).0).0;
        for (m, a) in [("m0", "adm"), ("m1", adm1)] {
            at = self.do_call(at, self.env.accs(103, m, a, ""), ix(103).u8(1).0).0;
        }
        for i in 0..self.env.cfg.seats {
            if self.p.crowd > 0 && i > 2 && i + 4 < self.p.crowd {
                continue;
            }
            if self.r.p(self.p.dep) {
                let t = self.env.trader(i);
                let a = self.env.cfg.amt;
                let (q, b) = (self.r.r(0, a / 2), self.r.r(0, a / 2));
                at = self.do_call(at, self.env.accs(13, "m0", &t, ""), ix(13).u64(q).u64(b).0).0;
            }
        }
        if self.p.aged > 0 {
            let mut r = Rng::new(self.p.aged);
            let k = self.env.k("m0");
            let mut a = self.run.acct(at, &k);
            let old = [1u64 << 16, 1 << 31, 1 << 32, 1 << 32, 1 << 48, 1 << 53, 1 << 62];
            let v = *r.of(&old) - r.n(12);
            a.data[obs::HDR + 272..obs::HDR + 280].copy_from_slice(&v.to_le_bytes());
            let v = *r.of(&old) - r.n(60);
            a.data[272..280].copy_from_slice(&v.to_le_bytes());
            at = self.run.poke(at, vec![(k, a)]);
        }
        // the forged market looks just like the real one
        let mut f = self.run.acct(at, &self.env.k("m0"));
        f.owner = self.env.k("prog");
        at = self.run.poke(at, vec![(self.env.k("fmarket"), f)]);
        if self.r.p(self.p.other_status) {
            for st in self.r.of(&[vec![2u8], vec![3], vec![3, 4], vec![2, 4]]).clone() {
                at = self.do_call(at, self.env.accs(103, "m0", "adm", ""), ix(103).u8(st).0).0;
            }
        }
        at
    }

    pub fn play(&mut self) {
        let mut at = self.setup();
        let base = at;
        for _ in 0..self.p.steps {
            at = self.step(at);
            if self.r.n(1000) < self.p.back {
                let n = self.run.states.len() as u64;
                at = base + self.r.n(n - base as u64) as usize;
            }
        }
        if self.p.deep && self.p.mass {
            self.mass(at);
        }
        for i in 0..3 {
            // where the books are large, and traders have much to leave with
            if self.p.deep && self.p.acts.iter().any(|a| a.0 == "leave" || a.0 == "wind") {
                let (slot, ts) = self.clock(at);
                let mut last = at;
                let m = self.mkt(at, "m0");
                if i < 2 && m.len_is_zero() {
                    break;
                }
                match i {
                    0 => crate::leave::leave(self, last, "m0", slot, ts, 1),
                    1 => {
                        last = self.fill(last);
                        crate::leave::leave(self, last, "m0", slot, ts, 0);
                        at = last;
                    }
                    _ => crate::leave::wind(self, at, "m0", slot, ts, 0),
                }
            }
        }
    }

    /// Gives one trader hundreds of resting orders.
    fn fill(&mut self, mut at: usize) -> usize {
        let k = self.env.cfg.seats as u64;
        let i = self.r.n(k) as usize;
        let t = self.env.trader(i);
        for _ in 0..self.r.r(4, 13) {
            let m = self.mkt(at, "m0");
            let lo = m.asks.first().map(|o| o.px.saturating_sub(1)).unwrap_or(30);
            let hi = m.bids.first().map(|o| o.px + 1).unwrap_or(31);
            let mut f = |up: bool| {
                let n = self.r.r(20, 40);
                let mut v = vec![];
                for i in 0..n {
                    let px = if up { hi + (i + self.r.n(3)) % 30 } else { lo.saturating_sub((i + self.r.n(3)) % 30).max(1) };
                    v.push(Cond { px, sz: 1 + self.r.n(2), lvs: None, lvt: None });
                }
                v
            };
            let (bids, asks) = (f(false), f(true));
            let d = multi(16, &bids, &asks, None, 0);
            let v = self.env.accs(16, "m0", &t, "");
            at = self.do_call(at, v, d).0;
        }
        at
    }

    /// Calls that reach hundreds of orders at once.
    fn mass(&mut self, at: usize) {
        let at = self.fill(at);
        let m = self.mkt(at, "m0");
        // whose orders most of them are
        let most = |v: &[obs::Ord_]| -> Option<Pubkey> {
            v.iter().map(|o| o.tr).max_by_key(|t| v.iter().filter(|o| o.tr == *t).count())
        };
        let all: Vec<_> = m.bids.iter().chain(m.asks.iter()).cloned().collect();
        let Some(k) = most(&all) else { return };
        let own = self.nm(&k);
        let mut other = own.clone();
        for i in 0..self.env.cfg.seats {
            if self.env.trader(i) != own {
                other = self.env.trader(i);
            }
        }
        for side in [S::B, S::A] {
            let n = m.side(side.opp()).len() as u64;
            let sum: u64 = m.side(side.opp()).iter().map(|o| o.sz).sum();
            let worst = m.side(side.opp()).last().map(|o| o.px).unwrap_or(1);
            for i in 0..4 {
                let t = if i < 3 { &other } else { &own };
                let kind = if i % 2 == 0 { Kind::IOC } else { Kind::L };
                let mut o = self.order(at, &m, kind, side, false, t);
                o.kind = kind;
                o.px = if kind == Kind::IOC { None } else { Some(worst) };
                o.bl = match i {
                    0 => sum + 3,
                    1 => sum - self.r.n(sum / 3 + 1),
                    _ => sum,
                };
                o.ql = 0;
                (o.minb, o.minq, o.lvs, o.lvt, o.fs, o.uof) = (0, 0, None, None, false, false);
                o.ml = if i == 2 { Some(n.saturating_sub(self.r.r(1, 90))) } else { None };
                if i == 3 {
                    o.stb = self.r.r(1, 2) as u8;
                }
                let tag = if kind == Kind::IOC { 0 } else { 2 };
                let d = o.enc(ix(tag)).0;
                let v = self.env.accs(tag, "m0", t, "");
                self.do_call(at, v, d);
            }
        }
        for (tag, t) in [(6, &own), (7, &own), (7, &other)] {
            let v = self.env.accs(tag, "m0", t, "");
            self.do_call(at, v, ix(tag).0);
        }
        for side in [S::B, S::A] {
            let n = m.side(side).len() as u64;
            let ns = [None, Some(n.saturating_sub(self.r.n(60)) as u32)];
            let ns = *self.r.of(&ns);
            let nc = [None, Some(n.saturating_sub(self.r.n(100)) as u32)];
            let nc = *self.r.of(&nc);
            let tag = self.r.r(8, 9) as u8;
            let v = self.env.accs(tag, "m0", &own, "");
            self.do_call(at, v, ix(tag).side(side).o64(None).o32(ns).o32(nc).0);
            let v: Vec<_> = m.side(side).iter().filter(|o| o.tr == k).cloned().collect();
            let n = (v.len() as u64).saturating_sub(self.r.n(3) * 20);
            let tag = self.r.r(10, 11) as u8;
            let mut w = ix(tag).u32(n as u32);
            for o in v.iter().take(n as usize) {
                w = w.side(side).u64(o.px).u64(o.seq);
            }
            let v = self.env.accs(tag, "m0", &own, "");
            self.do_call(at, v, w.0);
        }
        let auth = self.nm(&m.auth);
        let v = self.env.accs(104, "m0", &auth, &own);
        let (at, ok) = self.do_call(at, v, ix(104).u8(2).0);
        if ok {
            let side = self.side();
            let v = self.env.accs(107, "m0", &auth, &own);
            self.do_call(at, v, ix(107).side(side).o64(None).o32(None).o32(None).0);
        }
    }

    // -- values -------------------------------------------------------------------------------
    fn px(&mut self, m: &Mkt) -> u64 {
        if self.r.p(self.p.huge) {
            return self.huge();
        }
        if self.r.p(30) {
            // around the touch
            let s = *self.r.of(&[S::B, S::A]);
            if let Some(o) = m.side(s).first() {
                return o.px.saturating_add(self.r.n(3)).saturating_sub(1).max(1);
            }
        }
        if self.r.p(2) {
            return 0;
        }
        self.r.r(1, self.p.pxs)
    }
    fn huge(&mut self) -> u64 {
        let k = self.r.n(64);
        *self.r.of(&[u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, u64::MAX / 3, 1 << k, (1 << k) + 1, u64::MAX >> k])
    }
    /// A large number that is a small one if cut down to 8, 16 or 32 bits.
    fn wrap(&mut self) -> u64 {
        (1u64 << *self.r.of(&[8, 16, 31, 32, 32, 63])) + self.r.n(4)
    }
    fn wrap32(&mut self) -> u32 {
        (1u32 << *self.r.of(&[8, 16, 31])) + self.r.n(4) as u32
    }
    fn sz(&mut self) -> u64 {
        if self.r.p(self.p.huge) {
            return self.huge();
        }
        if self.r.p(3) {
            return 0;
        }
        if self.p.big && self.r.p(30) {
            return 1 << self.r.n(44);
        }
        if self.p.deep && self.r.p(40) {
            return self.r.r(1, 250);
        }
        let n = self.r.r(1, self.p.szs);
        self.large(n)
    }
    fn large(&mut self, n: u64) -> u64 {
        if self.p.scale == 1 || self.r.p(10) {
            return n;
        }
        let k = self.p.scale;
        n.saturating_mul(k).saturating_sub(if self.r.p(70) { self.r.n(k) } else { 0 })
    }
    fn limits(&mut self, at: usize) -> (Option<u64>, Option<u64>) {
        let st = &self.run.states[at];
        let (s, t) = (st.slot, st.ts as u64);
        if !self.r.p(self.p.expire) {
            return (None, None);
        }
        let mut a = *self.r.of(&[s, s, s + 1, s + 1, s + 2, s + 5, s + 30, s - 1, 0]);
        let mut b = *self.r.of(&[t, t, t + 1, t + 1, t + 2, t + 5, t + 50, t - 1, 0]);
        if self.r.p(5) {
            a = if self.r.p(30) { u64::MAX - self.r.n(3) } else { self.wrap() };
        }
        if self.r.p(5) {
            b = if self.r.p(30) { u64::MAX - self.r.n(3) } else { self.wrap() };
        }
        match self.r.n(5) {
            0 | 1 => (Some(a), None),
            2 | 3 => (None, Some(b)),
            _ => (Some(a), Some(b)),
        }
    }
    fn one_of_crowd(&mut self) -> String {
        let i = self.r.n(7) as usize;
        let i = if i < 3 { i } else { self.p.crowd - 1 - (i - 3) };
        self.env.trader(i)
    }
    pub fn any_trader(&mut self) -> String {
        if self.p.crowd > 0 && self.r.p(95) {
            return self.one_of_crowd();
        }
        // mostly seated ones
        if self.r.p(85) && self.env.cfg.seats > 0 {
            let n = self.env.cfg.seats as u64;
            let i = self.r.n(n) as usize;
            self.env.trader(i)
        } else {
            let n = self.env.cfg.traders as u64;
            let i = self.r.n(n) as usize;
            self.env.trader(i)
        }
    }
    pub fn auth(&mut self, m: &Mkt) -> String {
        if self.r.p(92) { self.nm(&m.auth) } else { self.outsider() }
    }
    pub fn outsider(&mut self) -> String {
        self.r.of(&["adm", "suc", "fee", "eve", "w0", "w1", "rcv"]).to_string()
    }

    pub fn order(&mut self, at: usize, m: &Mkt, kind: Kind, side: S, uof: bool, t: &str) -> Order {
        let (lvs, lvt) = self.limits(at);
        self.coid += 1;
        let coid = if self.r.p(5) { u128::MAX - self.coid } else if self.r.p(20) { 0 } else { self.coid };
        let mut o = Order {
            kind, side, px: Some(self.px(m)), bl: self.sz(), ql: 0, minb: 0, minq: 0,
            stb: *self.r.w(&self.p.stb), ml: None, coid,
            rej: self.r.p(self.p.rej), uof, lvs, lvt, fs: self.r.p(self.p.fs),
        };
        if kind != Kind::PO && self.r.p(self.p.ml) {
            o.ml = Some(if self.r.p(8) { self.wrap() } else { *self.r.of(&[0u64, 1, 1, 2, 2, 3, 4, 5, 100]) });
        }
        let depth: u64 = m.side(side.opp()).iter().map(|o| o.sz).fold(0, |a, b| a.saturating_add(b));
        match kind {
            Kind::IOC => {
                if self.r.p(35) {
                    o.px = None;
                }
                if self.r.p(30) && depth > 0 {
                    o.bl = self.r.r(1, depth.saturating_add(2).min(1 << 60));
                }
                if self.r.p(self.p.budget) {
                    let notl = m.quote(m.side(side.opp()).first().map(|x| x.px).unwrap_or(1), o.bl);
                    o.bl = 0;
                    o.ql = if self.r.p(self.p.huge) { self.huge() } else { notl.saturating_add(self.r.n(4)).saturating_sub(self.r.n(4)) };
                    if self.r.p(25) {
                        let e = self.p.szs * self.p.pxs;
                        let q = self.r.r(1, e);
                        o.ql = self.large(q);
                    }
                }
                match self.r.n(40) {
                    0 => o.ql = 5,
                    1 => {
                        o.bl = 0;
                        o.ql = 0;
                    }
                    2 => o.bl = 3,
                    _ => {}
                }
                if self.r.p(self.p.minfill) {
                    let b = if o.bl > 0 { o.bl } else { depth.min(8) };
                    let mb = *self.r.of(&[b, b, b.saturating_add(1), b / 2, b.saturating_sub(1), 1]);
                    if self.r.p(50) {
                        o.minb = mb;
                    } else {
                        let px = m.side(side.opp()).first().map(|x| x.px).unwrap_or(1);
                        let v = if o.ql > 0 { o.ql } else { m.quote(px, mb) };
                        o.minq = v.saturating_add(self.r.n(3)).saturating_sub(self.r.n(4));
                        if self.r.p(20) {
                            o.minb = mb;
                        }
                    }
                }
            }
            Kind::PO | Kind::L => {
                // sometimes exactly, or just beyond, what the sender has
                if o.fs || self.r.p(self.p.exact) {
                    let st = m.trader(&self.env.k(t)).unwrap_or([0; 4]);
                    let wq = obs::tok(&self.run.acct(at, &self.env.k(&format!("{}.q", t)))).map(|x| x.amt).unwrap_or(0) / m.qls.max(1);
                    let wb = obs::tok(&self.run.acct(at, &self.env.k(&format!("{}.b", t)))).map(|x| x.amt).unwrap_or(0) / m.bls.max(1);
                    let have = if side == S::A { st[3] as u128 + if uof { 0 } else { wb as u128 } } else { st[1] as u128 + if uof { 0 } else { wq as u128 } };
                    let lots = if side == S::A {
                        have
                    } else {
                        let unit = o.px.unwrap().max(1) as u128 * m.t.max(1) as u128;
                        have * m.b.max(1) as u128 / unit
                    };
                    let lots = lots.min((u64::MAX - 2) as u128) as u64;
                    if self.r.p(70) {
                        o.bl = *self.r.of(&[lots, lots, lots + 1, lots + 1, lots.saturating_sub(1), lots / 2 + 1]);
                        // all of it at once
                        if kind == Kind::L && o.bl <= depth && self.r.p(50) {
                            if let Some(w) = m.side(side.opp()).last() {
                                o.px = Some(w.px);
                            }
                        }
                    }
                }
            }
        }
        o
    }

    pub fn side(&mut self) -> S {
        *self.r.of(&[S::B, S::A])
    }
    fn order_call(&mut self, at: usize, m: &Mkt, kind: Kind, t: &str, side: S) -> (Vec<Meta>, Vec<u8>) {
        let ff = self.r.p(self.p.ff);
        let tag = match (kind, ff) {
            (Kind::IOC, false) => 0,
            (Kind::IOC, true) => 1,
            (_, false) => 2,
            (_, true) => 3,
        };
        let uof = if self.r.p(2) { !ff } else { ff };
        let mut o = self.order(at, m, kind, side, uof, t);
        if self.r.n(100) < 1 {
            o.kind = *self.r.of(&[Kind::PO, Kind::L, Kind::IOC]);
        }
        let data = self.encode(&o, tag);
        (self.env.accs(tag, "m0", t, ""), data)
    }
    fn encode(&mut self, o: &Order, tag: u8) -> Vec<u8> {
        let mut d = o.enc(ix(tag)).0;
        if self.r.p(self.p.trunc) {
            // leave out trailing zero bytes, sometimes one more than may be left out
            let max = if o.kind == Kind::IOC { 2 } else { 3 };
            let k = self.r.r(1, max + 1);
            for i in 0..k {
                if d.len() > 2 && (d[d.len() - 1] == 0 && i < max || self.r.p(4)) {
                    d.pop();
                }
            }
        } else if self.r.n(1000) < 8 {
            let x = self.r.n(256) as u8;
            d.push(x);
        }
        d
    }
    pub fn conds(&mut self, at: usize, m: &Mkt, side: S) -> Vec<Cond> {
        let n = if self.r.p(self.p.big_multi) { self.r.r(5, 40) } else { self.r.n(5) };
        // keep the two lists apart, mostly
        let mid = match (m.bids.first(), m.asks.first()) {
            (Some(b), Some(a)) if self.r.p(60) => b.px / 2 + a.px / 2,
            _ => self.p.pxs / 2,
        };
        let mut v: Vec<Cond> = vec![];
        for _ in 0..n {
            let (lvs, lvt) = self.limits(at);
            if !v.is_empty() && self.r.p(25) {
                // same price (and perhaps limits) as another entry
                let mut c = self.r.of(&v).clone();
                c.sz = self.sz();
                if self.r.p(40) {
                    c.lvs = lvs;
                }
                v.push(c);
                continue;
            }
            let d = self.r.n(if self.p.deep { 28 } else { 4 });
            let px = if self.r.p(90) {
                if side == S::B { mid.saturating_sub(d) } else { mid.saturating_add(1 + d) }
            } else {
                self.px(m)
            };
            let sz = if self.p.deep { self.r.r(1, 4) } else { self.sz() };
            v.push(Cond { px: px.max(if self.r.p(2) { 0 } else { 1 }), sz, lvs, lvt });
        }
        v
    }

    /// An existing order, or one that is not there.
    pub fn target(&mut self, m: &Mkt, t: &str) -> (S, u64, u64, u64) {
        let k = self.env.k(t);
        let mut v: Vec<(S, u64, u64, u64, bool)> = vec![];
        for s in [S::B, S::A] {
            for o in m.side(s) {
                v.push((s, o.px, o.seq, o.sz, o.tr == k));
            }
        }
        let own: Vec<_> = v.iter().filter(|x| x.4).cloned().collect();
        let x = if !own.is_empty() && self.r.p(80) {
            *self.r.of(&own)
        } else if !v.is_empty() && self.r.p(70) {
            *self.r.of(&v)
        } else {
            let s = self.side();
            let q = self.r.r(1, m.oseq.max(1).min(200));
            (s, self.r.r(1, self.p.pxs), if s == S::B { !q } else { q }, 5, false)
        };
        let (mut s, mut px, mut seq) = (x.0, x.1, x.2);
        match self.r.n(30) {
            0 => s = s.opp(),
            1 => px = px.wrapping_add(1),
            2 => seq = !seq,
            3 => {
                s = s.opp();
                seq = !seq
            }
            _ => {}
        }
        (s, px, seq, x.3)
    }

    // -- steps --------------------------------------------------------------------------------
    pub fn step(&mut self, at: usize) -> usize {
        let m = self.mkt(at, "m0");
        let acts = self.p.acts.clone();
        let a = *self.r.w(&acts);
        match self.compose(a, at, &m) {
            Err(at) => at,
            Ok((mut metas, mut data)) => {
                if self.r.p(self.p.advers) {
                    self.corrupt(&mut metas, &mut data);
                }
                self.do_call(at, metas, data).0
            }
        }
    }
    /// A call for an action, or where the action itself has led.
    fn compose(&mut self, a: &str, at: usize, m: &Mkt) -> Result<(Vec<Meta>, Vec<u8>), usize> {
        Ok(match a {
            "ioc" | "limit" | "po" => {
                let t = self.any_trader();
                let side = self.side();
                let t = if a == "ioc" && self.r.p(15) { "eve".to_string() } else { t };
                let kind = match a {
                    "ioc" => Kind::IOC,
                    "po" => Kind::PO,
                    _ => Kind::L,
                };
                self.order_call(at, m, kind, &t, side)
            }
            "selfioc" | "selflimit" => {
                // somebody with an order near the touch takes the other way
                let side = self.side();
                let n = m.side(side.opp()).len().min(3) as u64;
                let t = if n > 0 { let k = self.r.n(n) as usize; self.nm(&m.side(side.opp())[k].tr) } else { self.any_trader() };
                let kind = if a == "selfioc" { Kind::IOC } else { Kind::L };
                self.order_call(at, m, kind, &t, side)
            }
            "multi" => {
                let t = self.any_trader();
                let ff = self.r.p(self.p.ff);
                let bids = if self.r.p(85) { self.conds(at, m, S::B) } else { vec![] };
                let asks = if self.r.p(85) { self.conds(at, m, S::A) } else { vec![] };
                let coid = if self.r.p(50) { None } else { Some(self.r.next() as u128) };
                let beh = self.r.n(4) as u8;
                let tag = if ff { 17 } else { 16 };
                (self.env.accs(tag, "m0", &t, ""), multi(tag, &bids, &asks, coid, beh))
            }
            "reduce" => {
                let t = self.any_trader();
                let (s, px, seq, sz) = self.target(m, &t);
                let n = *self.r.of(&[1, 2, sz / 2, sz.saturating_sub(1), sz, sz.saturating_add(1), u64::MAX, 0]);
                let tag = if self.r.p(self.p.ff) { 5 } else { 4 };
                (self.env.accs(tag, "m0", &t, ""), ix(tag).side(s).u64(px).u64(seq).u64(n).0)
            }
            "cancelall" => {
                let t = if self.r.p(10) { "eve".into() } else { self.any_trader() };
                let tag = if self.r.p(self.p.ff) { 7 } else { 6 };
                (self.env.accs(tag, "m0", &t, ""), ix(tag).0)
            }
            "upto" => {
                let t = if self.r.p(5) { "eve".into() } else { self.any_trader() };
                let tag = if self.r.p(self.p.ff) { 9 } else { 8 };
                let d = self.upto(tag, m);
                (self.env.accs(tag, "m0", &t, ""), d)
            }
            "byid" => {
                let t = if self.r.p(5) { "eve".into() } else { self.any_trader() };
                let tag = if self.r.p(self.p.ff) { 11 } else { 10 };
                let n = self.r.n(if self.p.deep { 40 } else { 5 }) as usize;
                let mut w = ix(tag).u32(n as u32);
                let mut last = None;
                for _ in 0..n {
                    let x = match last {
                        Some(l) if self.r.p(12) => l,
                        _ => self.target(m, &t),
                    };
                    last = Some(x);
                    w = w.side(x.0).u64(x.1).u64(x.2);
                }
                (self.env.accs(tag, "m0", &t, ""), w.0)
            }
            "withdraw" => {
                let t = self.any_trader();
                let st = m.trader(&self.env.k(&t)).unwrap_or([0; 4]);
                let mut f = |x: u64| match self.r.n(5) {
                    0 => None,
                    1 => Some(x),
                    2 => Some(x.saturating_add(1)),
                    3 => Some(x / 2),
                    _ => Some(if self.r.p(10) { u64::MAX } else { 0 }),
                };
                let (q, b) = (f(st[1]), f(st[3]));
                (self.env.accs(12, "m0", &t, ""), ix(12).o64(q).o64(b).0)
            }
            "deposit" => {
                let t = self.any_trader();
                let a = self.env.cfg.amt.saturating_add(2);
                let (q, b) = (self.dep(a), self.dep(a));
                (self.env.accs(13, "m0", &t, ""), ix(13).u64(q).u64(b).0)
            }
            "reqseat" => {
                let t = self.any_wallet();
                let mk = self.any_market();
                (self.env.accs(14, &mk, &t, ""), ix(14).0)
            }
            "reqauth" => {
                let t = self.any_wallet();
                let s = self.auth(m);
                let mk = self.any_market();
                (self.env.accs(105, &mk, &s, &t), ix(105).0)
            }
            "seatstatus" => {
                let t = self.any_wallet_seated();
                let s = self.auth(m);
                let st = self.r.n(4) as u8;
                (self.env.accs(104, "m0", &s, &t), ix(104).u8(st).0)
            }
            "approve" => {
                let t = self.any_wallet_seated();
                let s = self.auth(m);
                (self.env.accs(104, "m0", &s, &t), ix(104).u8(1).0)
            }
            "evict" => {
                let t = self.any_wallet_seated();
                let s = self.auth(m);
                (self.env.accs(106, "m0", &s, &t), ix(106).0)
            }
            "drain" => {
                // all orders of someone whose seat was taken back go, then the seat
                let t = self.any_wallet_seated();
                let s = self.nm(&m.auth);
                let st = if self.r.p(50) { 0 } else { 2 };
                let mut at = self.do_call(at, self.env.accs(104, "m0", &s, &t), ix(104).u8(st).0).0;
                for side in [0, 1] {
                    at = self.do_call(at, self.env.accs(107, "m0", &s, &t), ix(107).u8(side).u8(0).u8(0).u8(0).0).0;
                }
                return Err(self.do_call(at, self.env.accs(106, "m0", &s, &t), ix(106).0).0);
            }
            "force" => {
                let t = self.any_wallet_seated();
                let s = self.auth(m);
                let d = self.upto(107, m);
                (self.env.accs(107, "m0", &s, &t), d)
            }
            "succ" => {
                let s = self.auth(m);
                let k = self.outsider();
                (self.env.accs(102, "m0", &s, ""), ix(102).raw(self.env.k(&k).as_ref()).0)
            }
            "claim" => {
                let s = if self.r.p(60) { self.nm(&m.succ) } else { self.outsider() };
                (self.env.accs(101, "m0", &s, ""), ix(101).0)
            }
            "mstatus" => {
                let s = self.auth(m);
                let st = self.r.n(7) as u8;
                self.status_call(&s, st)
            }
            "recover" => {
                if m.status == 1 && !self.r.p(10) {
                    return Err(at);
                }
                let s = self.nm(&m.auth);
                let st = if m.status == 4 { 2 } else { 1 };
                self.status_call(&s, st)
            }
            "collect" => {
                let s = self.any_wallet();
                let f = if self.r.p(85) { self.nm(&m.fr) } else { self.outsider() };
                let f = if self.env.names.by_name.contains_key(&format!("{}.q", f)) { f } else { "fee".into() };
                (self.env.accs(108, "m0", &s, &f), ix(108).0)
            }
            "chfr" => {
                let s = self.auth(m);
                let k = self.outsider();
                let mut v = self.env.accs(109, "m0", &s, &k);
                if self.r.p(60) {
                    let pr = if self.r.p(75) { self.nm(&m.fr) } else { self.outsider() };
                    let sg = self.r.p(80);
                    v.push(self.env.meta(&pr, sg, false));
                }
                (v, ix(109).0)
            }
            "usurp" => self.usurp(at, m),
            "badseat" => self.badseat(at, m),
            "init" => self.init_any(at),
            "closestep" => return Err(self.closestep(at, m)),
            "closed" => {
                // anything at all, on a market that may be gone
                if m.status == 5 || m.bids.is_empty() && m.asks.is_empty() {
                    self.init_or_any(at, m)
                } else {
                    return Err(at);
                }
            }
            "leave" | "wind" => {
                let (slot, ts) = self.clock(at);
                let n = self.r.n(24);
                if a == "leave" {
                    crate::leave::leave(self, at, "m0", slot, ts, n);
                } else {
                    crate::leave::wind(self, at, "m0", slot, ts, n);
                }
                return Err(at);
            }
            "bytes" => return Err(self.bytes(at, m)),
            "poke" => return Err(self.poke(at)),
            "pokeseq" => return Err(self.pokeseq(at, m)),
            "prefund" => return Err(self.prefund(at)),
            "ladder" => return Err(self.ladder(at, m)),
            "decode" => return Err(self.decode(at, m)),
            "built" => return Err(crate::build::built(self, at, m)),
            "view" => return Err(if m.len_is_zero() { at } else { crate::views::any(self, at, m, self.p.sums) }),
            _ => panic!("{}", a),
        })
    }

    /// Some call, and the same with its data cut short, continued or changed.
    fn bytes(&mut self, at: usize, m: &Mkt) -> usize {
        let a = *self.r.of(&["ioc", "limit", "po", "multi", "reduce", "cancelall", "upto", "byid", "withdraw", "deposit", "seatstatus", "force", "succ", "mstatus", "evict", "collect", "chfr"]);
        let (metas, data) = match self.compose(a, at, m) {
            Ok(x) => x,
            Err(at) => return at,
        };
        let (slot, ts) = self.clock(at);
        for i in 0..5 {
            let mut d = data.clone();
            let k = self.r.n(d.len() as u64) as usize;
            match i {
                0 => d.truncate(k.max(1)),
                1 => {
                    let n = self.r.r(1, 9);
                    for _ in 0..n {
                        d.push(if self.r.p(70) { 0 } else { self.r.n(256) as u8 });
                    }
                }
                2 => d.truncate(d.len().saturating_sub(1 + self.r.n(3) as usize).max(1)),
                3 => d[k] = *self.r.of(&[0u8, 1, 2, 3, 4, 5, 6, 128, 255]),
                _ => {
                    if let Some(j) = (1..d.len()).filter(|j| d[*j] < 3).nth(self.r.n(12) as usize) {
                        d[j] = *self.r.of(&[0u8, 1, 2, 3, 4, 255]);
                    }
                }
            }
            if d != data {
                self.run.call(at, &metas, &d, slot, ts, ",\"x\":\"bytes\"");
            }
        }
        self.run.call(at, &metas, &data, slot, ts, "").0
    }
    fn dep(&mut self, a: u64) -> u64 {
        match self.r.n(10) {
            0 => 0,
            1 => a,
            _ => {
                if self.r.p(self.p.huge) {
                    self.huge()
                } else {
                    self.r.r(0, (a / 4).max(1))
                }
            }
        }
    }
    fn any_market(&mut self) -> String {
        self.r.w(&[("m0", 8), ("m1", 2)]).to_string()
    }
    fn any_wallet(&mut self) -> String {
        if self.p.crowd > 0 && self.r.p(70) {
            return self.one_of_crowd();
        }
        if self.r.p(75) {
            let n = self.env.cfg.traders as u64;
            let i = self.r.n(n) as usize;
            self.env.trader(i)
        } else {
            self.outsider()
        }
    }
    fn any_wallet_seated(&mut self) -> String {
        if self.p.crowd > 0 {
            return self.one_of_crowd();
        }
        let n = self.env.cfg.traders as u64;
        let i = self.r.n(n) as usize;
        self.env.trader(i)
    }
    fn upto(&mut self, tag: u8, m: &Mkt) -> Vec<u8> {
        let s = self.side();
        let px = m.side(s).get(self.r.n(4) as usize).map(|o| o.px).unwrap_or(5);
        let tl = if self.r.p(50) { None } else { Some(*self.r.of(&[px, px, px + 1, px.saturating_sub(1), 0])) };
        let k = if self.p.deep { 12 } else { 1 };
        let mut ns = if self.r.p(55) { None } else { Some(self.r.n(5 * k) as u32) };
        let mut nc = if self.r.p(55) { None } else { Some(self.r.n(4 * k) as u32) };
        if self.r.p(4) {
            ns = Some(self.wrap32());
        }
        if self.r.p(4) {
            nc = Some(self.wrap32());
        }
        ix(tag).side(s).o64(tl).o32(ns).o32(nc).0
    }
    fn status_call(&mut self, s: &str, st: u8) -> (Vec<Meta>, Vec<u8>) {
        let mut v = self.env.accs(103, "m0", s, "");
        if st == 5 && self.r.p(50) {
            let k = self.r.of(&["rcv", "rcv", "eve", "w0", "m1"]).to_string();
            let w = self.r.p(90);
            v.push(self.env.meta(&k, false, w));
        }
        (v, ix(103).u8(st).0)
    }

    /// Authority actions by those who may not.
    fn usurp(&mut self, at: usize, m: &Mkt) -> (Vec<Meta>, Vec<u8>) {
        let mut s = self.outsider();
        if self.r.p(25) {
            s = self.nm(&m.succ);
        }
        let t = self.any_wallet_seated();
        match self.r.n(8) {
            0 => {
                let st = *self.r.of(&[1u8, 2, 3, 4, 5]);
                self.status_call(&s, st)
            }
            1 => {
                let st = self.r.n(3) as u8;
                (self.env.accs(104, "m0", &s, &t), ix(104).u8(st).0)
            }
            2 => (self.env.accs(105, "m0", &s, &self.env.trader(self.env.cfg.traders - 1)), ix(105).0),
            3 => (self.env.accs(106, "m0", &s, &t), ix(106).0),
            4 => {
                let d = self.upto(107, m);
                (self.env.accs(107, "m0", &s, &t), d)
            }
            5 => (self.env.accs(102, "m0", &s, ""), ix(102).raw(self.env.k("eve").as_ref()).0),
            6 => {
                let f = self.nm(&m.fr);
                let mut v = self.env.accs(109, "m0", &s, "eve");
                if self.r.p(50) {
                    v.push(self.env.meta(&f, true, false));
                }
                (v, ix(109).0)
            }
            _ => {
                // the authority itself, without its signature
                let a = self.nm(&m.auth);
                let _ = at;
                let tag = *self.r.of(&[103u8, 104, 106, 107, 102, 109]);
                let mut v = self.env.accs(tag, "m0", &a, &t);
                v[3].s = false;
                let d = match tag {
                    103 => ix(103).u8(3).0,
                    104 => ix(104).u8(1).0,
                    107 => ix(107).u8(0).u8(0).u8(0).u8(0).0,
                    102 => ix(102).raw(self.env.k("eve").as_ref()).0,
                    x => ix(x).0,
                };
                (v, d)
            }
        }
    }

    /// Placements, deposits and free-funds swaps with a seat that is not right.
    fn badseat(&mut self, at: usize, m: &Mkt) -> (Vec<Meta>, Vec<u8>) {
        let t = self.any_trader();
        let side = self.side();
        let (mut v, d) = match self.r.n(5) {
            0 => (self.env.accs(13, "m0", &t, ""), ix(13).u64(1).u64(1).0),
            1 => {
                let tag = *self.r.of(&[16u8, 17]);
                let c = vec![Cond { px: 1, sz: 1, lvs: None, lvt: None }];
                (self.env.accs(tag, "m0", &t, ""), multi(tag, &c, &[], None, 0))
            }
            2 => {
                let o = Order { kind: Kind::IOC, side, px: None, bl: 2, ql: 0, minb: 0, minq: 0, stb: 1, ml: None, coid: 0, rej: false, uof: true, lvs: None, lvt: None, fs: false };
                (self.env.accs(1, "m0", &t, ""), o.enc(ix(1)).0)
            }
            _ => {
                let k = *self.r.of(&[Kind::PO, Kind::L]);
                self.order_call(at, m, k, &t, side)
            }
        };
        let mut pool = vec!["fseat".to_string(), "fseat2".into(), "fseat3".into(), "seat:m1:w1".into(), "m0".into(), "w0.b".into()];
        for i in 0..self.env.cfg.traders {
            pool.push(self.env.seat("m0", &self.env.trader(i)));
            pool.push(self.env.seat("m1", &self.env.trader(i)));
        }
        if v.len() > 4 && self.r.p(80) {
            v[4].key = self.env.k(&self.r.of(&pool).clone());
        } else if v.len() > 4 && self.r.p(50) {
            v.remove(4);
        }
        (v, d)
    }

    pub fn init_params(&mut self) -> MarketCfg {
        let (bd, qd) = (self.env.cfg.bdec, self.env.cfg.qdec);
        let raw = *self.r.of(&[None, Some(1u32), Some(2), Some(10), Some(0), Some(u32::MAX)]);
        let unit = 10u128.pow(bd as u32) * raw.unwrap_or(1).max(1) as u128;
        let mut nb = divisor(&mut self.r, unit, 1000);
        let mut nq = divisor(&mut self.r, 10u128.pow(qd as u32), 1000);
        let mut tick = nb * self.r.r(1, 4);
        let mut fee = *self.r.of(&[0u16, 5, 10000, 9999, 10001, 65535]);
        if self.r.p(60) {
            fee = fee.min(10000);
        }
        let mut size = [2, 2, 3];
        let raw = if self.r.p(70) { raw.filter(|x| *x != 0) } else { raw };
        match self.r.n(14) {
            0 => nb += 1,
            1 => nq += 1,
            2 => tick += 1,
            3 => tick = 0,
            4 => nb = 0,
            5 => nq = 0,
            6 => size = *self.r.of(&[[4, 4, 6], [512, 512, 128], [2, 2, 4], [0, 0, 0], [2, 3, 3], [8, 8, 8]]),
            7 => tick = self.huge() / nb.max(1) * nb,
            8 => nb = (unit as u64).max(1),
            9 => tick = nb / 2,
            _ => {}
        }
        MarketCfg { size, nq, tick, nb, fee, raw }
    }
    fn init_any(&mut self, _at: usize) -> (Vec<Meta>, Vec<u8>) {
        let c = self.init_params();
        let mk = self.r.w(&[("m2", 12), ("m0", 1), ("m1", 1)]).to_string();
        let s = self.r.of(&["adm", "eve", "w0"]).to_string();
        let col = self.outsider();
        let mut v = self.env.accs(100, &mk, &s, "");
        match self.r.n(16) {
            0 => v[4].key = self.env.k("X"),
            1 => v[6].key = self.env.k(&format!("vault:{}:X", mk)),
            2 => v.swap(6, 7),
            3 => v.swap(4, 5),
            4 => v[5].key = v[4].key,
            5 => v[4].key = self.env.k("FB"),
            6 => v[6].key = self.env.k("vault:m1:B"),
            7 => {
                v[5].key = v[4].key;
                v[7].key = v[6].key;
            }
            8 => {
                // the other way round, consistently
                v.swap(4, 5);
                v.swap(6, 7);
            }
            _ => {}
        }
        (v, init_data(&c, &self.env.k(&col)))
    }
    fn init_or_any(&mut self, at: usize, m: &Mkt) -> (Vec<Meta>, Vec<u8>) {
        let t = self.any_trader();
        let side = self.side();
        match self.r.n(10) {
            0 => {
                let c = self.env.cfg.m.clone();
                (self.env.accs(100, "m0", "adm", ""), init_data(&c, &self.env.k("fee")))
            }
            1 => (self.env.accs(13, "m0", &t, ""), ix(13).u64(1).u64(1).0),
            2 => (self.env.accs(12, "m0", &t, ""), ix(12).u8(0).u8(0).0),
            3 => (self.env.accs(14, "m0", "eve", ""), ix(14).0),
            4 => (self.env.accs(108, "m0", "adm", "fee"), ix(108).0),
            5 => self.status_call("adm", 1),
            6 => self.order_call(at, m, Kind::IOC, &t, side),
            7 => (self.env.accs(101, "m0", "adm", ""), ix(101).0),
            8 => (self.env.accs(6, "m0", &t, ""), ix(6).0),
            _ => {
                let s = self.nm(&m.auth);
                let s = if self.env.names.by_name.contains_key(&s) { s } else { "adm".into() };
                self.status_call(&s, 5)
            }
        }
    }

    /// One more step towards deleting the market.
    fn closestep(&mut self, at: usize, m: &Mkt) -> usize {
        if m.len_is_zero() {
            return at;
        }
        let s = self.nm(&m.auth);
        let early = self.r.p(15);
        let (v, d) = if early {
            self.status_call(&s, 5)
        } else if m.status == 1 || m.status == 3 {
            self.status_call(&s, if m.status == 1 { 2 } else { 4 })
        } else if m.status == 2 {
            self.status_call(&s, 4)
        } else if let Some((t, _)) = m.tr.get(self.r.n(m.tr.len().max(1) as u64) as usize) {
            let t = self.nm(t);
            let seat = obs::seat(&self.run.acct(at, &self.env.k(&self.env.seat("m0", &t)))).map(|s| s.st).unwrap_or(0);
            let st = m.trader(&self.env.k(&t)).unwrap_or([0; 4]);
            if st[0] != 0 || st[2] != 0 {
                if self.r.p(50) || seat == 1 {
                    (self.env.accs(6, "m0", &t, ""), ix(6).0)
                } else {
                    let sd = (st[0] == 0) as u8;
                    (self.env.accs(107, "m0", &s, &t), ix(107).u8(sd).u8(0).u8(0).u8(0).0)
                }
            } else if seat == 1 {
                (self.env.accs(104, "m0", &s, &t), ix(104).u8(0).0)
            } else {
                (self.env.accs(106, "m0", &s, &t), ix(106).0)
            }
        } else if m.unc != 0 && self.r.p(80) {
            let f = self.nm(&m.fr);
            let f = if self.env.names.by_name.contains_key(&format!("{}.q", f)) { f } else { "fee".into() };
            (self.env.accs(108, "m0", &s, &f), ix(108).0)
        } else {
            self.status_call(&s, 5)
        };
        self.do_call(at, v, d).0
    }

    /// Outside events: wallets spend or receive, accounts are frozen or thawed.
    fn poke(&mut self, at: usize) -> usize {
        let who = self.any_wallet();
        match self.r.n(10) {
            8 | 9 => self.donate(at),
            0 => {
                let k = self.env.k(&who);
                let mut a = self.run.acct(at, &k);
                a.lam = *self.r.of(&[1000u64, 10_000_000_000, 1_781_759, 1_781_760]);
                self.run.poke(at, vec![(k, a)])
            }
            1 => {
                let k = self.env.k(&format!("{}.{}", who, self.r.of(&["b", "q"])));
                let mut a = self.run.acct(at, &k);
                if a.data.len() == 165 {
                    a.data[108] = if a.data[108] == 2 || self.r.p(60) { 1 } else { 2 };
                }
                self.run.poke(at, vec![(k, a)])
            }
            _ => {
                let q = self.r.p(50);
                let k = self.env.k(&format!("{}.{}", who, if q { "q" } else { "b" }));
                let mut a = self.run.acct(at, &k);
                let ls = if q { self.env.cfg.qls() } else { self.env.cfg.bls() };
                let lots = match self.r.n(4) {
                    0 => self.r.n(10),
                    1 => self.r.n(60),
                    _ => self.env.cfg.amt,
                };
                let amt = (lots as u128 * ls as u128 + self.r.n(ls) as u128).min(u64::MAX as u128 / 64) as u64;
                crate::env::set_amount(&mut a, amt);
                self.run.poke(at, vec![(k, a)])
            }
        }
    }
    /// Someone sends tokens to a vault; what was given is remembered in an account of its own.
    fn donate(&mut self, at: usize) -> usize {
        let q = self.r.p(50);
        let name = format!("vault:{}:{}", if self.r.p(80) { "m0" } else { "m1" }, if q { "Q" } else { "B" });
        let ls = if q { self.env.cfg.qls() } else { self.env.cfg.bls() }.max(1);
        let n = match self.r.n(4) {
            0 => self.r.r(1, 9),
            1 => self.r.n(ls) + 1,
            _ => (self.r.n(50) as u128 * ls as u128 + self.r.n(2) as u128).min(1 << 50) as u64,
        };
        self.give(at, &name, n)
    }
    fn give(&mut self, at: usize, vault: &str, n: u64) -> usize {
        let k = self.env.k(vault);
        let mut a = self.run.acct(at, &k);
        let t = match obs::tok(&a) {
            Some(t) if t.amt < 1 << 60 => t,
            _ => return at,
        };
        crate::env::set_amount(&mut a, t.amt + n);
        let (gk, g) = self.gift(at, vault, &t.mint, n);
        self.run.poke(at, vec![(k, a), (gk, g)])
    }
    fn gift(&mut self, at: usize, vault: &str, mint: &Pubkey, n: u64) -> (Pubkey, Acct) {
        let gk = self.env.k(&format!("gift:{}", vault));
        let had = obs::tok(&self.run.acct(at, &gk)).map(|t| t.amt).unwrap_or(0);
        (gk, crate::env::token_acct(mint, &self.env.k("prog"), had + n))
    }
    fn prefund(&mut self, at: usize) -> usize {
        if self.r.p(40) {
            let mint = if self.r.p(50) { "B" } else { "Q" };
            let vault = format!("vault:m2:{}", mint);
            let k = self.env.k(&vault);
            let mut a = self.run.acct(at, &k);
            if a.data.is_empty() {
                let need = crate::vm::rent(165);
                a.lam = a.lam.max(need - 2 + self.r.n(5) + if self.r.p(30) { 1_000_000 } else { 0 });
                let mk = self.env.k(mint);
                let mut pk = vec![];
                if mk == spl_token::native_mint::id() && a.lam > need {
                    // wrapped SOL: what is there beyond the rent will count
                    pk.push(self.gift(at, &vault, &mk, 0));
                    crate::env::set_amount(&mut pk[0].1, a.lam - need);
                }
                pk.push((k, a));
                return self.run.poke(at, pk);
            }
            return at;
        }
        let t = self.any_wallet();
        let k = self.env.k(&self.env.seat("m0", &t));
        let mut a = self.run.acct(at, &k);
        if a.data.is_empty() {
            a.lam = *self.r.of(&[1u64, 890_880, 1_781_759, 1_781_760, 1_781_761, 5_000_000]);
            return self.run.poke(at, vec![(k, a)]);
        }
        at
    }
    fn pokeseq(&mut self, at: usize, m: &Mkt) -> usize {
        let lim = u64::MAX >> 1;
        let k = self.env.k("m0");
        let mut a = self.run.acct(at, &k);
        if !obs::is_market(&a) || m.oseq > lim - 10 {
            return at;
        }
        let v = lim - self.r.r(1, 6);
        a.data[obs::HDR + 272..obs::HDR + 280].copy_from_slice(&v.to_le_bytes());
        self.run.poke(at, vec![(k, a)])
    }

    fn ladder(&mut self, at: usize, m: &Mkt) -> usize {
        if m.len_is_zero() {
            return at;
        }
        let st = self.run.states[at].clone();
        let (slot, ts) = match self.r.n(20) {
            0 => (Some(self.wrap()), None),
            1 => (None, Some(self.wrap())),
            2 => (Some(u64::MAX), Some(0)),
            3 => (Some(0), Some(u64::MAX)),
            4..=7 => (None, None),
            8..=11 => (Some(st.slot + self.r.n(4)), None),
            12..=15 => (None, Some(st.ts as u64 + self.r.n(4))),
            _ => (Some(st.slot + self.r.n(6)), Some(st.ts as u64 + self.r.n(6))),
        };
        let levels = match self.r.n(10) {
            0 => u64::MAX - self.r.n(2),
            1 | 2 => self.wrap(),
            3 if self.p.deep => self.r.r(1, 300),
            _ => *self.r.of(&[0u64, 1, 1, 2, 3, 5, 10, u64::MAX >> 1]),
        };
        let a = self.run.acct(at, &self.env.k("m0"));
        let body = crate::build::ladder("m0", &a, levels, slot, ts);
        self.run.probe(at, body)
    }
    fn decode(&mut self, at: usize, m: &Mkt) -> usize {
        let k = *self.r.of(&[Kind::PO, Kind::L, Kind::IOC]);
        let t = self.any_trader();
        let side = self.side();
        let uof = self.r.p(50);
        let o = self.order(at, m, k, side, uof, &t);
        let mut d = self.encode(&o, 0)[1..].to_vec();
        match self.r.n(12) {
            0 => {
                let n = self.r.n(d.len() as u64) as usize;
                d.truncate(n);
            }
            1 => {
                let x = self.r.n(4) as u8;
                d[0] = x;
            }
            2 => {
                let i = self.r.n(d.len() as u64) as usize;
                d[i] = self.r.n(256) as u8;
            }
            3 => {
                let x = self.r.n(3) as u8;
                d.push(x);
            }
            _ => {}
        }
        let body = crate::build::decode(&d);
        self.run.probe(at, body)
    }

    /// Changes one thing about a call.
    fn corrupt(&mut self, v: &mut Vec<Meta>, d: &mut Vec<u8>) {
        let n = v.len() as u64;
        let i = self.r.n(n) as usize;
        if self.r.p(self.p.cross) {
            // the accounts of the other market, some or all of them
            let all = self.r.p(25);
            let us: Vec<bool> = v.iter().map(|_| all || self.r.p(50)).collect();
            for (x, u) in v.iter_mut().zip(us) {
                if u {
                    if let Some(k) = crate::env::mirror(&self.env.names, &x.key) {
                        x.key = k;
                    }
                }
            }
            if self.r.p(40) {
                v[3].key = self.env.k(&self.r.of(&["adm", "suc", "w0", "w1"]).to_string());
            }
            return;
        }
        match self.r.n(20) {
            0..=5 => {
                // something of the same kind
                let cur = self.nm(&v[i].key);
                let pool: Vec<String> = if cur.starts_with("seat:") {
                    vec!["seat:m0:w0".into(), "seat:m0:w1".into(), "seat:m1:w1".into(), "fseat".into(), "fseat2".into(), "seat:m0:eve".into()]
                } else if cur.starts_with("vault:") {
                    vec!["vault:m0:B".into(), "vault:m0:Q".into(), "vault:m1:B".into(), "vault:m1:Q".into(), "fvault".into(), "w0.b".into(), "w0.q".into(), "vault:m0:X".into()]
                } else if cur.contains('.') {
                    vec!["w0.b".into(), "w0.q".into(), "w1.b".into(), "w1.q".into(), "w0.b2".into(), "w0.q2".into(), "w0.x".into(), "w0.fb".into(), "w1.qd".into(), "w0.bd".into(), "eve.qc".into(), "eve.bc".into(), "eve.b".into(), "eve.q".into(), "fee.q".into(), "vault:m0:B".into(), "vault:m0:Q".into()]
                } else if cur.starts_with('m') {
                    vec!["m0".into(), "m1".into(), "m2".into(), "fmarket".into()]
                } else if cur.starts_with('w') || crate::env::OTHERS.contains(&cur.as_str()) {
                    vec!["w0".into(), "w1".into(), "adm".into(), "eve".into(), "suc".into(), "fee".into(), "rcv".into()]
                } else {
                    vec!["token".into(), "system".into(), "prog".into(), "phoenix".into(), "log".into(), "eve".into(), "B".into(), "Q".into(), "X".into(), "FB".into()]
                };
                v[i].key = self.env.k(&self.r.of(&pool).clone());
            }
            6 | 7 => {
                let mut all: Vec<&String> = self.env.names.by_name.keys().filter(|x| !x.starts_with("gift:")).collect();
                all.sort();
                v[i].key = self.env.k(all[self.r.n(all.len() as u64) as usize]);
            }
            8 | 9 => v[i].w = false,
            10 | 11 => {
                let c: Vec<usize> = (0..v.len()).filter(|j| v[*j].s).collect();
                if !c.is_empty() {
                    let j = *self.r.of(&c);
                    v[j].s = false;
                }
            }
            12 => {
                v.truncate(i);
            }
            13 => {
                let j = self.r.n(n) as usize;
                v.swap(i, j);
            }
            14 => {
                v.remove(i);
            }
            15 => {
                // another signer for the same accounts
                v[3].key = self.env.k(&self.r.of(&["w0", "w1", "eve", "adm"]).to_string());
            }
            16 => {
                let k = self.r.n(d.len() as u64) as usize;
                if k > 0 {
                    d[k] = self.r.n(256) as u8;
                }
            }
            17 => {
                let k = self.r.n(d.len() as u64) as usize;
                d.truncate(k);
            }
            18 => d.push(self.r.clone().n(256) as u8),
            _ => {
                d[0] = *self.r.of(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 255]);
            }
        }
    }
}

impl Mkt {
    pub fn len_is_zero(&self) -> bool {
        self.size == [0, 0, 0]
    }
}

#[allow(dead_code)]
pub fn approved_seat(env: &Env, m: &str, t: &str) -> (Pubkey, crate::vm::Acct) {
    let k = env.k(&env.seat(m, t));
    (k, seat_acct(&env.k(m), &env.k(t), 1))
}
