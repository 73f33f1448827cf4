//! A small driver for demonstrations.
use crate::env::{Cfg, Env, MarketCfg};
use crate::obs::{self, Mkt};
use crate::vm::{self, Meta, Out, World};
use crate::wire::{ix, multi, Cond, Kind, Order, S};
use std::sync::Arc;

pub struct Sim {
    pub env: Env,
    pub w: World,
    pub slot: u64,
    pub ts: i64,
}
pub fn order(kind: Kind, side: S, px: u64, bl: u64) -> Order {
    Order {
        kind, side, px: Some(px), bl, ql: 0, minb: 0, minq: 0, stb: 1, ml: None, coid: 0, rej: false,
        uof: false, lvs: None, lvt: None, fs: false,
    }
}
impl Sim {
    /// Market m0 is active; w0.. are seated; every wallet holds `amt` lots of both tokens.
    pub fn new(size: [u64; 3], fee: u16, traders: usize, amt: u64) -> Sim {
        Sim::with(Cfg { bdec: 3, qdec: 3, m: MarketCfg { size, nq: 100, tick: 10, nb: 10, fee, raw: None }, traders, seats: traders, amt })
    }
    pub fn with(cfg: Cfg) -> Sim {
        let m = cfg.m.clone();
        let mut s = Sim::raw(cfg);
        assert!(s.init("m0", &m).ok);
        for i in 0..s.env.cfg.seats {
            let t = format!("w{}", i);
            assert!(s.go(105, "m0", "adm", &t, ix(105).0).ok);
            assert!(s.go(104, "m0", "adm", &t, ix(104).u8(1).0).ok);
        }
        assert!(s.status(1).ok);
        s
    }
    pub fn raw(cfg: Cfg) -> Sim {
        vm::install();
        let (env, w) = Env::new(1, cfg);
        Sim { env, w, slot: 100, ts: 1000 }
    }
    pub fn init(&mut self, m: &str, c: &MarketCfg) -> Out {
        let d = ix(100).u64(c.size[0]).u64(c.size[1]).u64(c.size[2]).u64(c.nq).u64(c.tick).u64(c.nb).u16(c.fee)
            .raw(self.env.k("fee").as_ref()).o32(c.raw).0;
        self.go(100, m, "adm", "", d)
    }
    pub fn call(&mut self, mut metas: Vec<Meta>, data: Vec<u8>) -> Out {
        vm::merge_flags(&mut metas);
        let (out, ch) = vm::run(&self.w, &metas, &data, self.slot, self.ts);
        for (k, a) in ch {
            self.w.insert(k, Arc::new(a));
        }
        out
    }
    pub fn go(&mut self, tag: u8, m: &str, signer: &str, t: &str, data: Vec<u8>) -> Out {
        let v = self.env.accs(tag, m, signer, t);
        self.call(v, data)
    }
    pub fn status(&mut self, st: u8) -> Out {
        self.go(103, "m0", "adm", "", ix(103).u8(st).0)
    }
    pub fn seat(&mut self, t: &str, st: u8) -> Out {
        self.go(104, "m0", "adm", t, ix(104).u8(st).0)
    }
    pub fn deposit(&mut self, t: &str, q: u64, b: u64) -> Out {
        self.go(13, "m0", t, "", ix(13).u64(q).u64(b).0)
    }
    pub fn place(&mut self, t: &str, o: &Order) -> Out {
        let tag = match (o.kind, o.uof) {
            (Kind::IOC, false) => 0,
            (Kind::IOC, true) => 1,
            (_, false) => 2,
            (_, true) => 3,
        };
        self.go(tag, "m0", t, "", o.enc(ix(tag)).0)
    }
    pub fn post(&mut self, t: &str, s: S, px: u64, n: u64) -> Out {
        self.place(t, &order(Kind::PO, s, px, n))
    }
    pub fn batch(&mut self, t: &str, bids: &[(u64, u64)], asks: &[(u64, u64)], beh: u8) -> Out {
        let f = |v: &[(u64, u64)]| v.iter().map(|x| Cond { px: x.0, sz: x.1, lvs: None, lvt: None }).collect::<Vec<_>>();
        self.go(16, "m0", t, "", multi(16, &f(bids), &f(asks), None, beh))
    }
    pub fn mkt(&self) -> Mkt {
        obs::market(&vm::get(&self.w, &self.env.k("m0"))).unwrap()
    }
    /// [quote locked, quote free, base locked, base free]
    pub fn tr(&self, t: &str) -> Option<[u64; 4]> {
        self.mkt().trader(&self.env.k(t))
    }
    pub fn tok(&self, n: &str) -> u64 {
        obs::tok(&vm::get(&self.w, &self.env.k(n))).map(|t| t.amt).unwrap_or(0)
    }
    pub fn book(&self, s: S) -> Vec<(u64, u64)> {
        self.mkt().side(s).iter().map(|o| (o.px, o.sz)).collect()
    }
    /// Vault atoms against what the market owes.
    pub fn solvent(&self) -> bool {
        let m = self.mkt();
        let q: u64 = m.tr.iter().map(|t| t.1[0] + t.1[1]).sum::<u64>() + m.unc;
        let b: u64 = m.tr.iter().map(|t| t.1[2] + t.1[3]).sum();
        self.tok("vault:m0:B") == b * m.bls && self.tok("vault:m0:Q") == q * m.qls
    }
    pub fn events(&self, o: &Out) -> String {
        obs::out(&self.env.names, o)
    }
}
