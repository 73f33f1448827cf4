//! Projection of account contents onto the specification's state, as JSON.
use crate::vm::{Acct, Out, World};
use crate::wire::S;
use phoenix::program::MarketHeader;
use phoenix::quantities::WrapperU64;
use phoenix::state::markets::{FIFOMarket, FIFOOrderId, FIFORestingOrder};
use sokoban::node_allocator::NodeAllocatorMap;
use solana_program::pubkey::Pubkey;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const MARKET_DISC: u64 = 8167313896524341111;
pub const SEAT_DISC: u64 = 2002603505298356104;

#[derive(Default, Clone)]
pub struct Names {
    pub by_key: HashMap<Pubkey, String>,
    pub by_name: HashMap<String, Pubkey>,
}
impl Names {
    pub fn add(&mut self, name: &str, key: Pubkey) -> Pubkey {
        self.by_key.insert(key, name.to_string());
        self.by_name.insert(name.to_string(), key);
        key
    }
    pub fn key(&self, name: &str) -> Pubkey {
        // a stranger's account stands in for one that does not exist
        let other = if name.ends_with(".b") {
            "eve.b"
        } else if name.ends_with(".q") {
            "eve.q"
        } else if name.starts_with("seat:") {
            "fseat"
        } else {
            "eve"
        };
        *self.by_name.get(name).unwrap_or_else(|| &self.by_name[other])
    }
    pub fn of(&self, k: &Pubkey) -> String {
        self.by_key.get(k).cloned().unwrap_or_else(|| format!("?{}", dec(k.as_ref())))
    }
}

/// Decimal text of a little-endian number.
pub fn dec(le: &[u8]) -> String {
    let mut d: Vec<u8> = vec![0];
    for b in le.iter().rev() {
        let mut c = *b as u32;
        for x in d.iter_mut() {
            let v = *x as u32 * 256 + c;
            *x = (v % 10) as u8;
            c = v / 10;
        }
        while c > 0 {
            d.push((c % 10) as u8);
            c /= 10;
        }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ord_ {
    pub px: u64,
    pub seq: u64,
    pub tr: Pubkey,
    pub sz: u64,
    pub lvs: u64,
    pub lvt: u64,
}
#[derive(Clone, Debug, Default)]
pub struct Mkt {
    pub status: u64,
    pub size: [u64; 3],
    pub dec: [u32; 2],
    pub mint: [Pubkey; 2],
    pub vault: [Pubkey; 2],
    pub bump: [u32; 2],
    pub bls: u64,
    pub qls: u64,
    pub tqa: u64,
    pub auth: Pubkey,
    pub fr: Pubkey,
    pub succ: Pubkey,
    pub mseq: u64,
    pub raw: u32,
    pub t: u64,
    pub b: u64,
    pub fee: u64,
    pub oseq: u64,
    pub col: u64,
    pub unc: u64,
    pub bids: Vec<Ord_>,
    pub asks: Vec<Ord_>,
    pub tr: Vec<(Pubkey, [u64; 4])>,
}
impl Mkt {
    pub fn side(&self, s: S) -> &Vec<Ord_> {
        if s == S::B { &self.bids } else { &self.asks }
    }
    pub fn trader(&self, k: &Pubkey) -> Option<[u64; 4]> {
        self.tr.iter().find(|t| t.0 == *k).map(|t| t.1)
    }
    pub fn quote(&self, px: u64, n: u64) -> u64 {
        let v = px as u128 * self.t as u128 * n as u128 / (self.b.max(1) as u128);
        v.min(u64::MAX as u128) as u64
    }
}

pub const HDR: usize = std::mem::size_of::<MarketHeader>();

pub fn u64at(d: &[u8], i: usize) -> u64 {
    u64::from_le_bytes(d[i..i + 8].try_into().unwrap())
}

pub fn is_market(a: &Acct) -> bool {
    a.data.len() >= HDR && u64at(&a.data, 0) == MARKET_DISC
}

/// Reads the account's bytes directly, so that the library's reading functions can be held against it.
pub fn market(a: &Acct) -> Result<Mkt, String> {
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<Mkt, String> {
        let d = &a.data[..];
        let key = |i: usize| Pubkey::new(&d[i..i + 32]);
        let u32at = |i: usize| u32::from_le_bytes(d[i..i + 4].try_into().unwrap());
        let mut m = Mkt {
            status: u64at(d, 8),
            size: [u64at(d, 16), u64at(d, 24), u64at(d, 32)],
            dec: [u32at(40), u32at(120)],
            mint: [key(48), key(128)],
            vault: [key(80), key(160)],
            bump: [u32at(44), u32at(124)],
            bls: u64at(d, 112),
            qls: u64at(d, 192),
            tqa: u64at(d, 200),
            auth: key(208),
            fr: key(240),
            mseq: u64at(d, 272),
            succ: key(280),
            raw: u32at(312),
            ..Mkt::default()
        };
        let d = &d[HDR..];
        if d.len() < 304 {
            return Err("too short".into());
        }
        m.b = u64at(d, 256);
        m.t = u64at(d, 264);
        m.oseq = u64at(d, 272);
        m.fee = u64at(d, 280);
        m.col = u64at(d, 288);
        m.unc = u64at(d, 296);
        if m.oseq == 0 {
            return Err("uninitialized".into());
        }
        let body = aligned(d);
        let bytes: &[u8] = &bytemuck::cast_slice(&body)[..d.len()];
        macro_rules! read {
            ($(($b:literal, $a:literal, $s:literal)),*) => {
                match (m.size[0], m.size[1], m.size[2]) {
                    $( ($b, $a, $s) => {
                        type F = FIFOMarket<Pubkey, $b, $a, $s>;
                        if d.len() < std::mem::size_of::<F>() {
                            return Err("too short".into());
                        }
                        let k: &F = bytemuck::from_bytes(&bytes[..std::mem::size_of::<F>()]);
                        let name = |i: u64| k.traders.get_node(i as u32).key;
                        orders_of(k.bids.iter(), &mut m.bids, &name)?;
                        orders_of(k.asks.iter(), &mut m.asks, &name)?;
                        for (t, s) in k.traders.iter() {
                            if m.tr.len() > 10000 {
                                return Err("endless traders".into());
                            }
                            m.tr.push((
                                *t,
                                [s.quote_lots_locked.as_u64(), s.quote_lots_free.as_u64(), s.base_lots_locked.as_u64(), s.base_lots_free.as_u64()],
                            ));
                        }
                    } )*
                    _ => return Err("unknown size".into()),
                }
            };
        }
        read!(
            (512, 512, 128), (512, 512, 1025), (512, 512, 1153), (1024, 1024, 128), (1024, 1024, 2049), (1024, 1024, 2177),
            (2048, 2048, 128), (2048, 2048, 4097), (2048, 2048, 4225), (4096, 4096, 128), (4096, 4096, 8193), (4096, 4096, 8321),
            (2, 2, 3), (4, 4, 6), (8, 8, 8)
        );
        Ok(m)
    }));
    r.unwrap_or_else(|_| Err("panic".into()))
}

fn orders_of<'a>(
    it: impl Iterator<Item = (&'a FIFOOrderId, &'a FIFORestingOrder)>, v: &mut Vec<Ord_>, name: &dyn Fn(u64) -> Pubkey,
) -> Result<(), String> {
    for (id, o) in it {
        if v.len() > 10000 {
            return Err("endless book".into());
        }
        v.push(Ord_ {
            px: u64at(bytemuck::bytes_of(id), 0),
            seq: id.order_sequence_number,
            tr: name(o.trader_index),
            sz: o.num_base_lots.as_u64(),
            lvs: o.last_valid_slot,
            lvt: o.last_valid_unix_timestamp_in_seconds,
        });
    }
    Ok(())
}

/// The vault that the program signs for with this bump.
fn signed_by(market: &Pubkey, mint: &Pubkey, bump: u32) -> Option<Pubkey> {
    type Known = HashMap<(Pubkey, Pubkey, u32), Option<Pubkey>>;
    thread_local!(static KNOWN: std::cell::RefCell<Known> = Default::default());
    KNOWN.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() > 10000 {
            c.clear();
        }
        *c.entry((*market, *mint, bump)).or_insert_with(|| {
            let b = [u8::try_from(bump).ok()?];
            Pubkey::create_program_address(&[b"vault", market.as_ref(), mint.as_ref(), &b], &phoenix::ID).ok()
        })
    })
}

pub fn aligned(b: &[u8]) -> Vec<u64> {
    let mut v = vec![0u64; b.len() / 8 + 1];
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), v.as_mut_ptr() as *mut u8, b.len());
    }
    v
}

pub struct Tok {
    pub mint: Pubkey,
    pub auth: Pubkey,
    pub amt: u64,
    pub fz: bool,
    pub nat: bool,
}
pub fn tok(a: &Acct) -> Option<Tok> {
    if a.data.len() == 165 && (a.data[108] == 1 || a.data[108] == 2) {
        Some(Tok {
            mint: Pubkey::new(&a.data[0..32]),
            auth: Pubkey::new(&a.data[32..64]),
            amt: u64at(&a.data, 64),
            fz: a.data[108] == 2,
            nat: a.data[109] == 1,
        })
    } else {
        None
    }
}
pub struct SeatRec {
    pub market: Pubkey,
    pub trader: Pubkey,
    pub st: u64,
}
pub fn seat(a: &Acct) -> Option<SeatRec> {
    if a.data.len() == 128 && u64at(&a.data, 0) == SEAT_DISC {
        Some(SeatRec { market: Pubkey::new(&a.data[8..40]), trader: Pubkey::new(&a.data[40..72]), st: u64at(&a.data, 72) })
    } else {
        None
    }
}

const ST: [&str; 6] = ["UN", "AC", "PO", "PA", "CL", "TO"];
const SEAT_ST: [&str; 3] = ["NA", "AP", "RT"];
fn pick<'a>(t: &[&'a str], i: u64) -> &'a str {
    if (i as usize) < t.len() { t[i as usize] } else { "??" }
}
pub fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' | '\\' => {
                o.push('\\');
                o.push(c);
            }
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn orders(n: &Names, v: &[Ord_]) -> String {
    let mut o = String::from("[");
    for (i, r) in v.iter().enumerate() {
        let _ = write!(
            o, "{}{{\"px\":\"{}\",\"seq\":\"{}\",\"tr\":{},\"sz\":\"{}\",\"lvs\":\"{}\",\"lvt\":\"{}\"}}",
            if i > 0 { "," } else { "" }, r.px, r.seq, q(&n.of(&r.tr)), r.sz, r.lvs, r.lvt
        );
    }
    o.push(']');
    o
}

fn owner(k: &Pubkey) -> &'static str {
    if *k == phoenix::ID {
        "phoenix"
    } else if *k == spl_token::id() {
        "token"
    } else if *k == solana_program::system_program::id() {
        "system"
    } else {
        "other"
    }
}

pub fn acct(n: &Names, k: &Pubkey, a: &Acct) -> String {
    let own = owner(&a.owner);
    if let Some(t) = tok(a) {
        return format!(
            "{{\"k\":\"tok\",\"own\":\"{}\",\"lam\":\"{}\",\"mint\":{},\"auth\":{},\"amt\":\"{}\",\"fz\":{},\"nat\":{}}}",
            own, a.lam, q(&n.of(&t.mint)), q(&n.of(&t.auth)), t.amt, t.fz, t.nat
        );
    }
    if a.data.len() == 82 && a.data[45] == 1 {
        return format!("{{\"k\":\"mint\",\"own\":\"{}\",\"lam\":\"{}\",\"dec\":\"{}\",\"nat\":{}}}", own, a.lam, a.data[44], *k == spl_token::native_mint::id());
    }
    if let Some(s) = seat(a) {
        return format!(
            "{{\"k\":\"seat\",\"own\":\"{}\",\"lam\":\"{}\",\"market\":{},\"trader\":{},\"st\":\"{}\"}}",
            own, a.lam, q(&n.of(&s.market)), q(&n.of(&s.trader)), pick(&SEAT_ST, s.st)
        );
    }
    if is_market(a) {
        return match market(a) {
            Err(e) => format!("{{\"k\":\"broken\",\"own\":\"{}\",\"lam\":\"{}\",\"why\":{}}}", own, a.lam, q(&e)),
            Ok(m) if own == "phoenix" && (0..2).any(|i| signed_by(k, &m.mint[i], m.bump[i]) != Some(m.vault[i])) => {
                format!("{{\"k\":\"broken\",\"own\":\"{}\",\"lam\":\"{}\",\"why\":\"nobody signs for a vault\"}}", own, a.lam)
            }
            Ok(m) => {
                let mut tr = String::from("{");
                for (i, (t, s)) in m.tr.iter().enumerate() {
                    let _ = write!(
                        tr, "{}{}:{{\"ql\":\"{}\",\"qf\":\"{}\",\"bl\":\"{}\",\"bf\":\"{}\"}}",
                        if i > 0 { "," } else { "" }, q(&n.of(t)), s[0], s[1], s[2], s[3]
                    );
                }
                tr.push('}');
                let tp = |i: usize| format!("{{\"dec\":\"{}\",\"mint\":{},\"vault\":{}}}", m.dec[i], q(&n.of(&m.mint[i])), q(&n.of(&m.vault[i])));
                format!(
                    "{{\"k\":\"market\",\"own\":\"{}\",\"lam\":\"{}\",\"len\":\"{}\",\"st\":\"{}\",\"size\":{{\"b\":\"{}\",\"a\":\"{}\",\"s\":\"{}\"}},\"bm\":{},\"qm\":{},\"bls\":\"{}\",\"qls\":\"{}\",\"tqa\":\"{}\",\"auth\":{},\"fr\":{},\"succ\":{},\"mseq\":\"{}\",\"raw\":\"{}\",\"T\":\"{}\",\"B\":\"{}\",\"fee\":\"{}\",\"oseq\":\"{}\",\"col\":\"{}\",\"unc\":\"{}\",\"bids\":{},\"asks\":{},\"tr\":{}}}",
                    own, a.lam, a.data.len(), pick(&ST, m.status), m.size[0], m.size[1], m.size[2], tp(0), tp(1),
                    m.bls, m.qls, m.tqa, q(&n.of(&m.auth)), q(&n.of(&m.fr)), q(&n.of(&m.succ)), m.mseq, m.raw,
                    m.t, m.b, m.fee, m.oseq, m.col, m.unc, orders(n, &m.bids), orders(n, &m.asks), tr
                )
            }
        };
    }
    format!(
        "{{\"k\":\"raw\",\"own\":\"{}\",\"lam\":\"{}\",\"len\":\"{}\",\"zero\":{}}}",
        own, a.lam, a.data.len(), a.data.iter().all(|b| *b == 0)
    )
}

// ---------------------------------------------------------------------------------------------
struct R<'a>(&'a [u8], usize);
impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.0.get(self.1..self.1 + n)?;
        self.1 += n;
        Some(r)
    }
    fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    fn u16(&mut self) -> Option<u16> {
        Some(u16::from_le_bytes(self.take(2)?.try_into().ok()?))
    }
    fn n(&mut self, k: usize) -> Option<String> {
        Some(dec(self.take(k)?))
    }
    fn key(&mut self, n: &Names) -> Option<String> {
        Some(q(&n.of(&Pubkey::new(self.take(32)?))))
    }
}

fn batch(n: &Names, d: &[u8]) -> Option<String> {
    let mut r = R(d, 0);
    if r.u8()? != 15 || r.u8()? != 1 {
        return None;
    }
    let ix = r.u8()?;
    let (seq, ts, slot) = (r.n(8)?, r.n(8)?, r.n(8)?);
    let (mk, sg) = (r.key(n)?, r.key(n)?);
    let total = r.u16()?;
    let mut ev = vec![];
    let mut idx = vec![];
    while r.1 < d.len() {
        let t = r.u8()?;
        idx.push(r.u16()?.to_string());
        ev.push(match t {
            2 => {
                let m = r.key(n)?;
                format!("{{\"t\":\"Fill\",\"maker\":{},\"seq\":\"{}\",\"px\":\"{}\",\"n\":\"{}\",\"rem\":\"{}\"}}", m, r.n(8)?, r.n(8)?, r.n(8)?, r.n(8)?)
            }
            3 => {
                let (s, c, p, b) = (r.n(8)?, r.n(16)?, r.n(8)?, r.n(8)?);
                format!("{{\"t\":\"Place\",\"seq\":\"{}\",\"px\":\"{}\",\"n\":\"{}\",\"coid\":\"{}\"}}", s, p, b, c)
            }
            4 => format!("{{\"t\":\"Reduce\",\"seq\":\"{}\",\"px\":\"{}\",\"n\":\"{}\",\"rem\":\"{}\"}}", r.n(8)?, r.n(8)?, r.n(8)?, r.n(8)?),
            5 => {
                let m = r.key(n)?;
                format!("{{\"t\":\"Evict\",\"maker\":{},\"seq\":\"{}\",\"px\":\"{}\",\"n\":\"{}\"}}", m, r.n(8)?, r.n(8)?, r.n(8)?)
            }
            6 => format!("{{\"t\":\"Summary\",\"coid\":\"{}\",\"base\":\"{}\",\"quote\":\"{}\",\"fee\":\"{}\"}}", r.n(16)?, r.n(8)?, r.n(8)?, r.n(8)?),
            7 => format!("{{\"t\":\"Fee\",\"fee\":\"{}\"}}", r.n(8)?),
            8 => format!("{{\"t\":\"Tif\",\"seq\":\"{}\",\"lvs\":\"{}\",\"lvt\":\"{}\"}}", r.n(8)?, r.n(8)?, r.n(8)?),
            9 => {
                let m = r.key(n)?;
                format!("{{\"t\":\"Expired\",\"maker\":{},\"seq\":\"{}\",\"px\":\"{}\",\"n\":\"{}\"}}", m, r.n(8)?, r.n(8)?, r.n(8)?)
            }
            _ => return None,
        });
    }
    Some(format!(
        "{{\"good\":true,\"ix\":{},\"seq\":\"{}\",\"ts\":\"{}\",\"slot\":\"{}\",\"market\":{},\"signer\":{},\"total\":{},\"len\":{},\"idx\":[{}],\"ev\":[{}]}}",
        ix, seq, ts, slot, mk, sg, total, d.len(), idx.join(","), ev.join(",")
    ))
}

pub fn out(n: &Names, o: &Out) -> String {
    let ret = match &o.ret {
        None => "[]".to_string(),
        Some(d) => {
            let k = if d.len() >= 4 { u32::from_le_bytes(d[..4].try_into().unwrap()) as usize } else { 0 };
            if d.len() >= 4 && d.len() == 4 + 16 * k {
                let v: Vec<String> = (0..k)
                    .map(|i| format!("{{\"px\":\"{}\",\"seq\":\"{}\"}}", u64at(d, 4 + 16 * i), u64at(d, 12 + 16 * i)))
                    .collect();
                format!("[{}]", v.join(","))
            } else {
                "[{\"px\":\"?\",\"seq\":\"?\"}]".to_string()
            }
        }
    };
    let logs: Vec<String> = o.logs.iter().map(|d| batch(n, d).unwrap_or_else(|| format!("{{\"good\":false,\"len\":{}}}", d.len()))).collect();
    format!("{{\"ok\":{},\"err\":{},\"ret\":{},\"log\":[{}]}}", o.ok, q(&o.err), ret, logs.join(","))
}

pub fn world(n: &Names, w: &World) -> String {
    let v: Vec<String> = w.iter().map(|(k, a)| format!("{}:{}", q(&n.of(k)), acct(n, k, a))).collect();
    format!("{{{}}}", v.join(","))
}
