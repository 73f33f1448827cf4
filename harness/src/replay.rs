//! Carries out the call sequences the model checker found, on the real program.
use crate::gen::Gen;
use crate::model::{self, Item};
use crate::rng::Rng;
use crate::trace::Beat;
use std::collections::HashMap;
use std::io::BufRead;
use std::sync::Arc;

#[derive(Clone, Copy)]
struct At {
    node: usize,
    slot: u64,
    ts: i64,
}

fn step(g: &mut Gen, a: At, i: &Item, mark: &str) -> Option<(At, bool)> {
    match i {
        Item::Tick { slots, secs } => Some((At { slot: a.slot + slots, ts: a.ts + secs, ..a }, false)),
        Item::Call { metas, data, refs } => {
            let d = model::fill(g, a.node, data, refs)?;
            let (node, ok) = g.run.call(a.node, metas, &d, a.slot, a.ts, mark);
            Some((At { node, ..a }, ok))
        }
    }
}

/// Looks at a state through the client library.
fn look(g: &mut Gen, a: At, probe: &str, n: u64) {
    g.r = Rng::new(n);
    let m = g.mkt(a.node, "m0");
    match probe {
        "look" if !m.len_is_zero() => {
            if n % 3 == 0 {
                crate::views::view(g, a.node, "m0", a.slot + n % 2, a.ts as u64);
            }
            let acct = g.run.acct(a.node, &g.env.k("m0"));
            for levels in [0u64, 1, 2, 5] {
                for (s, t) in [(None, None), (Some(a.slot), Some(a.ts as u64)), (Some(a.slot + 1), None), (None, Some(a.ts as u64 + 1)), (Some(a.slot + 2), Some(a.ts as u64 + 2))] {
                    if (levels + s.unwrap_or(1) + n) % 2 == 0 {
                        let b = crate::build::ladder("m0", &acct, levels, s, t);
                        g.run.probe(a.node, b);
                    }
                }
            }
        }
        "build" => {
            for _ in 0..12 {
                crate::build::built(g, a.node, &m);
            }
        }
        _ => {}
    }
}

/// Returns how many paths were carried out. `work` has lines "theme variant deep sample" followed by lines with paths (indices into the alphabet, from
/// 1, joined by dots) until an empty line.
pub fn play(id: &str, work: &str, beat: Arc<Beat>, flush: &mut dyn FnMut(&Gen)) -> u64 {
    let mut paths = 0;
    let mut lines = std::io::BufReader::new(std::fs::File::open(work).unwrap()).lines().map(|l| l.unwrap());
    while let Some(head) = lines.next() {
        let h: Vec<&str> = head.split(' ').collect();
        let (mut g, setup, alpha, probe) = model::stand(model::model(h[0], h[1].parse().unwrap(), h[2] == "1", h[3].parse().unwrap()), beat.clone());
        let mark = if h[0] == "bytes" { ",\"x\":\"bytes\"" } else { "" };
        let probe = if id == "C31" { "look" } else { probe };
        let mut at = At { node: 0, slot: g.run.states[0].slot, ts: g.run.states[0].ts };
        for i in &setup {
            if let Some((b, _)) = step(&mut g, at, i, "") {
                at = b;
            }
        }
        let mut seen: HashMap<Vec<u16>, Option<At>> = HashMap::new();
        seen.insert(vec![], Some(at));
        let mut n = 0u64;
        look(&mut g, at, probe, n);
        for l in lines.by_ref() {
            if l.is_empty() {
                break;
            }
            paths += 1;
            let p: Vec<u16> = l.split('.').map(|x| x.parse().unwrap()).collect();
            for k in 1..=p.len() {
                if seen.contains_key(&p[..k]) {
                    continue;
                }
                let from = seen[&p[..k - 1]];
                let item = &alpha[p[k - 1] as usize - 1];
                let to = match from {
                    Some(a) => step(&mut g, a, item, mark),
                    None => None,
                };
                if probe == "wire" {
                    if let (Item::Call { data, .. }, Some(a)) = (item, from) {
                        let b = crate::build::decode(&data[1..]);
                        g.run.probe(a.node, b);
                    }
                }
                if let Some((a, true)) = to {
                    n += 1;
                    look(&mut g, a, probe, n);
                    // several markets' worth of calls each: not from every state
                    match id {
                        "C33" if n % 3 == 0 => crate::leave::leave(&mut g, a.node, "m0", a.slot, a.ts, n / 3),
                        "C34" if n % 8 == 0 => crate::leave::wind(&mut g, a.node, "m0", a.slot, a.ts, n / 8),
                        _ => {}
                    }
                }
                seen.insert(p[..k].to_vec(), to.map(|x| x.0));
            }
        }
        flush(&g);
    }
    paths
}
