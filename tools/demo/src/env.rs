//! The accounts of a scenario and the account lists of every instruction.
use crate::obs::Names;
use crate::rng::Rng;
use crate::vm::{rent, Acct, Meta, World};
use solana_program::{pubkey::Pubkey, system_program};
use std::str::FromStr;
use std::sync::Arc;

#[derive(Clone, Debug)]
pub struct MarketCfg {
    pub size: [u64; 3],
    pub nq: u64,
    pub tick: u64,
    pub nb: u64,
    pub fee: u16,
    pub raw: Option<u32>,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub bdec: u8,
    pub qdec: u8,
    pub m: MarketCfg,
    pub traders: usize,
    pub seats: usize, // traders approved during setup
    pub amt: u64,     // token balance, in lots
}
impl Cfg {
    pub fn bls(&self) -> u64 {
        (10u128.pow(self.bdec as u32) * self.m.raw.unwrap_or(1) as u128 / self.m.nb as u128) as u64
    }
    pub fn qls(&self) -> u64 {
        (10u128.pow(self.qdec as u32) / self.m.nq as u128) as u64
    }
}

pub struct Env {
    pub names: Names,
    pub cfg: Cfg,
}

pub fn market_len(s: &[u64; 3]) -> usize {
    576 + 304 + 96 + 64 * (s[0] + s[1]) as usize + 144 * s[2] as usize
}

pub fn key_of(seed: u64, name: &str) -> Pubkey {
    let mut h = seed;
    for b in name.bytes() {
        h = h.wrapping_mul(0x100000001b3) ^ b as u64;
    }
    let mut r = Rng::new(h);
    let mut k = [0u8; 32];
    for c in k.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_le_bytes());
    }
    Pubkey::new(&k)
}
pub fn pda(seeds: &[&[u8]], program: &Pubkey) -> Pubkey {
    Pubkey::find_program_address(seeds, program).0
}
pub fn ata(wallet: &Pubkey, mint: &Pubkey) -> Pubkey {
    let prog = Pubkey::from_str("ATokenGPvbdGVxr1b2hvZbsiqW5xWH25efTNsLJA8knL").unwrap();
    pda(&[wallet.as_ref(), spl_token::id().as_ref(), mint.as_ref()], &prog)
}

pub fn wallet(lam: u64) -> Acct {
    Acct { lam, owner: system_program::id(), exec: false, data: vec![] }
}
pub fn rent_wallet() -> Acct {
    wallet(10_000_000_000)
}
pub fn token_acct(mint: &Pubkey, auth: &Pubkey, amt: u64) -> Acct {
    let mut d = vec![0u8; 165];
    d[0..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(auth.as_ref());
    d[64..72].copy_from_slice(&amt.to_le_bytes());
    d[108] = 1;
    Acct { lam: rent(165), owner: spl_token::id(), exec: false, data: d }
}
pub fn mint_acct(dec: u8) -> Acct {
    let mut d = vec![0u8; 82];
    d[36..44].copy_from_slice(&u64::MAX.to_le_bytes());
    d[44] = dec;
    d[45] = 1;
    Acct { lam: rent(82), owner: spl_token::id(), exec: false, data: d }
}
pub fn seat_acct(market: &Pubkey, trader: &Pubkey, st: u64) -> Acct {
    let mut d = vec![0u8; 128];
    d[0..8].copy_from_slice(&crate::obs::SEAT_DISC.to_le_bytes());
    d[8..40].copy_from_slice(market.as_ref());
    d[40..72].copy_from_slice(trader.as_ref());
    d[72..80].copy_from_slice(&st.to_le_bytes());
    Acct { lam: rent(128), owner: phoenix::ID, exec: false, data: d }
}
fn program() -> Acct {
    Acct { lam: 1, owner: Pubkey::from_str("BPFLoaderUpgradeab1e11111111111111111111111").unwrap(), exec: true, data: vec![] }
}

pub const OTHERS: [&str; 5] = ["adm", "suc", "fee", "eve", "rcv"];

impl Env {
    pub fn k(&self, n: &str) -> Pubkey {
        self.names.key(n)
    }
    pub fn trader(&self, i: usize) -> String {
        format!("w{}", i)
    }
    /// All accounts, before anything was initialized.
    pub fn new(seed: u64, cfg: Cfg) -> (Env, World) {
        let mut n = Names::default();
        let mut w = World::new();
        let put = |w: &mut World, k: Pubkey, a: Acct| {
            w.insert(k, Arc::new(a));
        };
        put(&mut w, n.by_name.get("x").copied().unwrap_or(phoenix::ID), program());
        n.add("phoenix", phoenix::ID);
        n.add("token", spl_token::id());
        n.add("system", system_program::id());
        n.add("prog", key_of(seed, "prog"));
        for p in ["token", "system", "prog"] {
            put(&mut w, n.key(p), program());
        }
        let log = pda(&[b"log"], &phoenix::ID);
        n.add("log", log);
        put(&mut w, log, crate::vm::absent());
        let (bl, ql) = (cfg.bls(), cfg.qls());
        for (m, d) in [("B", cfg.bdec), ("Q", cfg.qdec), ("X", cfg.bdec)] {
            let k = n.add(m, key_of(seed, m));
            put(&mut w, k, mint_acct(d));
        }
        // a mint of some other token program
        let k = n.add("FB", key_of(seed, "FB"));
        put(&mut w, k, Acct { owner: key_of(seed, "prog"), ..mint_acct(cfg.bdec) });
        let mut who: Vec<String> = (0..cfg.traders).map(|i| format!("w{}", i)).collect();
        who.extend(OTHERS.iter().map(|s| s.to_string()));
        for x in &who {
            let k = n.add(x, key_of(seed, x));
            put(&mut w, k, wallet(10_000_000_000));
            for (s, mint, ls) in [("b", "B", bl), ("q", "Q", ql), ("x", "X", bl)] {
                let a = n.add(&format!("{}.{}", x, s), ata(&k, &n.key(mint)));
                let amt = (cfg.amt as u128 * ls as u128 + (ls as u128 / 3)).min(u64::MAX as u128 / 64) as u64;
                put(&mut w, a, token_acct(&n.key(mint), &k, amt));
            }
        }
        for (s, mint, ls) in [("b2", "B", bl), ("q2", "Q", ql)] {
            let a = n.add(&format!("w0.{}", s), key_of(seed, &format!("w0.{}", s)));
            put(&mut w, a, token_acct(&n.key(mint), &n.key("w0"), (3 * ls as u128).min(u64::MAX as u128 / 64) as u64));
        }
        // a token account in the name of w0, owned by another program
        let a = n.add("w0.fb", key_of(seed, "w0.fb"));
        put(&mut w, a, Acct { owner: n.key("prog"), ..token_acct(&n.key("B"), &n.key("w0"), 1000) });
        for m in ["m0", "m1", "m2"] {
            let mk = n.add(m, key_of(seed, m));
            let len = if m == "m0" { market_len(&cfg.m.size) } else { market_len(&[2, 2, 3]) };
            put(&mut w, mk, Acct { lam: rent(len as u64), owner: phoenix::ID, exec: false, data: vec![0; len] });
            for mint in ["B", "Q", "X"] {
                let v = n.add(&format!("vault:{}:{}", m, mint), pda(&[b"vault", mk.as_ref(), n.key(mint).as_ref()], &phoenix::ID));
                put(&mut w, v, crate::vm::absent());
            }
            for x in &who {
                let s = n.add(&format!("seat:{}:{}", m, x), pda(&[b"seat", mk.as_ref(), n.key(x).as_ref()], &phoenix::ID));
                put(&mut w, s, crate::vm::absent());
            }
        }
        // forgeries: a seat record that is not at its address, one owned by another program, a
        // market and a vault in disguise
        for (f, st, own) in [("fseat", 1u64, true), ("fseat2", 1, false), ("fseat3", 0, true)] {
            let k = n.add(f, key_of(seed, f));
            let mut a = seat_acct(&n.key("m0"), &n.key("w0"), st);
            if !own {
                a.owner = n.key("prog");
            }
            put(&mut w, k, a);
        }
        let k = n.add("fmarket", key_of(seed, "fmarket"));
        let len = market_len(&cfg.m.size);
        put(&mut w, k, Acct { lam: rent(len as u64), owner: n.key("prog"), exec: false, data: vec![0; len] });
        let k = n.add("fvault", key_of(seed, "fvault"));
        put(&mut w, k, token_acct(&n.key("Q"), &n.key("vault:m0:Q"), 1000));
        (Env { names: n, cfg }, w)
    }

    pub fn meta(&self, n: &str, s: bool, w: bool) -> Meta {
        Meta { key: self.k(n), s, w }
    }
    fn head(&self, m: &str, signer: &str, w: bool) -> Vec<Meta> {
        vec![self.meta("phoenix", false, false), self.meta("log", false, false), self.meta(m, false, true), self.meta(signer, true, w)]
    }
    fn vaults(&self, v: &mut Vec<Meta>, m: &str, t: &str) {
        v.push(self.meta(&format!("{}.b", t), false, true));
        v.push(self.meta(&format!("{}.q", t), false, true));
        v.push(self.meta(&format!("vault:{}:B", m), false, true));
        v.push(self.meta(&format!("vault:{}:Q", m), false, true));
        v.push(self.meta("token", false, false));
    }
    pub fn seat(&self, m: &str, t: &str) -> String {
        format!("seat:{}:{}", m, t)
    }
    /// The accounts an honest client passes. `t` is the affected trader where it is not the signer.
    pub fn accs(&self, tag: u8, m: &str, signer: &str, t: &str) -> Vec<Meta> {
        let mut v = self.head(m, signer, matches!(tag, 14 | 100 | 103));
        let seat = |w: bool, t: &str| self.meta(&self.seat(m, t), false, w);
        match tag {
            0 | 4 | 6 | 8 | 10 | 12 => self.vaults(&mut v, m, signer),
            1 | 3 | 17 => v.push(seat(false, signer)),
            2 | 13 | 16 => {
                v.push(seat(false, signer));
                self.vaults(&mut v, m, signer);
            }
            14 => {
                v.push(seat(true, signer));
                v.push(self.meta("system", false, false));
            }
            100 => {
                v.push(self.meta("B", false, false));
                v.push(self.meta("Q", false, false));
                v.push(self.meta(&format!("vault:{}:B", m), false, true));
                v.push(self.meta(&format!("vault:{}:Q", m), false, true));
                v.push(self.meta("system", false, false));
                v.push(self.meta("token", false, false));
            }
            104 => v.push(seat(true, t)),
            105 => {
                v.push(self.meta("rcv", true, true));
                v.push(self.meta(t, false, false));
                v.push(seat(true, t));
                v.push(self.meta("system", false, false));
            }
            106 | 107 => {
                v.push(self.meta(t, false, false));
                v.push(seat(false, t));
                self.vaults(&mut v, m, t);
            }
            108 => {
                v.push(self.meta(&format!("{}.q", t), false, true));
                v.push(self.meta(&format!("vault:{}:Q", m), false, true));
                v.push(self.meta("token", false, false));
            }
            109 => v.push(self.meta(t, false, false)),
            _ => {}
        }
        v
    }
}
