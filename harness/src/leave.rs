//! Traders leave with everything; the authority winds the market down.
use crate::gen::Gen;
use crate::obs::{self, q, Mkt};
use crate::vm::Meta;
use crate::wire::ix;

struct Script<'a> {
    g: &'a mut Gen,
    at: usize,
    clock: (u64, i64),
    mark: &'static str,
    ok: bool,
}
impl Script<'_> {
    /// Goes on only as long as nothing is refused.
    fn call(&mut self, metas: Vec<Meta>, data: Vec<u8>) {
        if self.ok {
            let tag = format!(",\"x\":\"{}\"", self.mark);
            let (at, ok) = self.g.run.call(self.at, &metas, &data, self.clock.0, self.clock.1, &tag);
            self.at = at;
            self.ok = ok;
        }
    }
}

/// The token accounts through which `t` is paid, if it has them.
fn purse(g: &Gen, t: &str) -> bool {
    g.env.names.by_name.contains_key(&format!("{}.b", t)) && g.env.names.by_name.contains_key(&format!("{}.q", t))
}
fn amount(g: &Gen, at: usize, x: &str) -> u64 {
    let a = g.run.acct(at, &g.env.k(x));
    if a.data.len() == 165 { u64::from_le_bytes(a.data[64..72].try_into().unwrap()) } else { 0 }
}
/// What account `x` holds, and is to receive in lots of `ls` atoms.
fn due(g: &Gen, at: usize, x: String, lots: [u64; 2], ls: u64) -> String {
    format!("{{\"x\":{},\"had\":\"{}\",\"a\":\"{}\",\"b\":\"{}\",\"ls\":\"{}\"}}", q(&x), amount(g, at, &x), lots[0], lots[1], ls)
}
fn dues(g: &Gen, at: usize, m: &Mkt, t: &str) -> Vec<String> {
    let s = m.trader(&g.env.k(t)).unwrap_or([0; 4]);
    vec![due(g, at, format!("{}.q", t), [s[0], s[1]], m.qls), due(g, at, format!("{}.b", t), [s[2], s[3]], m.bls)]
}
fn usable(g: &Gen, m: &Mkt) -> bool {
    !m.len_is_zero() && (1..5).contains(&m.status) && m.tr.iter().all(|(k, _)| purse(g, &g.nm(k)))
}

/// Every trader in turn, each from the same state.
pub fn leave(g: &mut Gen, at: usize, mn: &str, slot: u64, ts: i64, n: u64) {
    let m = g.mkt(at, mn);
    if !usable(g, &m) {
        return;
    }
    for (i, (k, _)) in m.tr.iter().enumerate() {
        let t = g.nm(k);
        let pay = dues(g, at, &m, &t).join(",");
        let (all, out) = (g.env.accs(6, mn, &t, ""), g.env.accs(12, mn, &t, ""));
        let free = g.env.accs(7, mn, &t, "");
        let mut s = Script { g, at, clock: (slot, ts), mark: "leave", ok: true };
        if (n + i as u64) % 3 == 0 {
            s.call(free, ix(7).0);
        } else {
            s.call(all, ix(6).0);
        }
        s.call(out, ix(12).u8(0).u8(0).0);
        if s.ok {
            let end = s.at;
            g.run.probe(end, format!("\"k\":\"left\",\"m\":{},\"t\":{},\"gone\":false,\"pay\":[{}]", q(mn), q(&t), pay));
        }
    }
}

/// The authority alone, down to the deletion of the market.
pub fn wind(g: &mut Gen, at: usize, mn: &str, slot: u64, ts: i64, n: u64) {
    let m = g.mkt(at, mn);
    let (adm, fr) = (g.nm(&m.auth), if m.len_is_zero() { String::new() } else { g.nm(&m.fr) });
    if !usable(g, &m) || !purse(g, &fr) || !g.env.names.by_name.contains_key(&adm) {
        return;
    }
    let mut pay = vec![due(g, at, format!("{}.q", fr), [m.unc, 0], m.qls)];
    let mut who: Vec<String> = m.tr.iter().map(|(k, _)| g.nm(k)).collect();
    for t in &who {
        pay.extend(dues(g, at, &m, t));
    }
    if n % 2 == 1 {
        who.reverse();
    }
    let mut s = Script { g, at, clock: (slot, ts), mark: "wind", ok: true };
    let status = |s: &mut Script, st: u8| {
        let v = s.g.env.accs(103, mn, &adm, "");
        s.call(v, ix(103).u8(st).0);
    };
    match m.status {
        1 => {
            status(&mut s, if n % 3 == 0 { 2 } else { 3 });
            status(&mut s, 4);
        }
        2 | 3 => status(&mut s, 4),
        _ => {}
    }
    let collect = |s: &mut Script| {
        let v = s.g.env.accs(108, mn, &adm, &fr);
        s.call(v, ix(108).0);
    };
    if n % 4 == 1 {
        collect(&mut s);
    }
    for (i, t) in who.iter().enumerate() {
        let seat = s.g.run.acct(s.at, &s.g.env.k(&s.g.env.seat(mn, t)));
        if obs::seat(&seat).map(|x| x.st) == Some(1) {
            let v = s.g.env.accs(104, mn, &adm, t);
            s.call(v, ix(104).u8(if (n + i as u64) % 2 == 0 { 0 } else { 2 }).0);
        }
        for side in [n & 1, 1 - (n & 1)] {
            let v = s.g.env.accs(107, mn, &adm, t);
            s.call(v, ix(107).u8(side as u8).u8(0).u8(0).u8(0).0);
        }
        let v = s.g.env.accs(106, mn, &adm, t);
        s.call(v, ix(106).0);
    }
    if n % 4 != 1 {
        collect(&mut s);
    }
    status(&mut s, 5);
    if s.ok {
        let end = s.at;
        g.run.probe(end, format!("\"k\":\"left\",\"m\":{},\"t\":\"\",\"gone\":true,\"pay\":[{}]", q(mn), pay.join(",")));
    }
}
