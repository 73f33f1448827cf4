//! A tree of runs: every node is one call (or an observation) and the state it led to.
use crate::obs::{self, Names};
use crate::vm::{self, Acct, Meta, World};
use solana_program::pubkey::Pubkey;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub struct Node {
    pub par: Option<usize>,
    pub body: String, // JSON fields without id, par, kids
    pub kids: Vec<usize>,
}

/// What the watchdog needs to know of a worker.
#[derive(Default)]
pub struct Beat {
    pub nodes: Mutex<Vec<Node>>,
    pub busy: Mutex<Option<(usize, String)>>, // parent and call of the running step
    pub since: AtomicU64,
}

pub fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

#[derive(Clone)]
pub struct State {
    pub world: Arc<World>,
    pub slot: u64,
    pub ts: i64,
}

pub struct Run {
    pub names: Names,
    pub beat: Arc<Beat>,
    pub states: Vec<State>,
    pub ok: u64,
    pub calls: u64,
}

fn changes(n: &Names, ch: &[(Pubkey, Acct)]) -> String {
    let v: Vec<String> = ch.iter().map(|(k, a)| format!("{}:{}", obs::q(&n.of(k)), obs::acct(n, k, a))).collect();
    format!("{{{}}}", v.join(","))
}

pub fn call_json(n: &Names, metas: &[Meta], data: &[u8], slot: u64, ts: i64) -> String {
    let a: Vec<String> =
        metas.iter().map(|m| format!("{{\"n\":{},\"s\":{},\"w\":{}}}", obs::q(&n.of(&m.key)), m.s, m.w)).collect();
    let d: Vec<String> = data.iter().map(|b| b.to_string()).collect();
    format!("{{\"d\":[{}],\"accs\":[{}],\"slot\":\"{}\",\"ts\":\"{}\"}}", d.join(","), a.join(","), slot, ts)
}

impl Run {
    pub fn new(names: Names, world: World, slot: u64, ts: i64, beat: Arc<Beat>) -> Run {
        let pk: Vec<String> =
            names.by_key.iter().map(|(k, v)| format!("\"{}\":{}", obs::dec(k.as_ref()), obs::q(v))).collect();
        let body = format!(
            "\"k\":\"root\",\"pk\":{{{}}},\"acc\":{}",
            pk.join(","),
            obs::world(&names, &world)
        );
        let r = Run { names, beat, states: vec![], ok: 0, calls: 0 };
        r.beat.nodes.lock().unwrap().clear();
        let mut r = r;
        r.push(None, body, State { world: Arc::new(world), slot, ts });
        r
    }
    fn push(&mut self, par: Option<usize>, body: String, st: State) -> usize {
        let mut nodes = self.beat.nodes.lock().unwrap();
        let id = nodes.len();
        if let Some(p) = par {
            nodes[p].kids.push(id);
        }
        nodes.push(Node { par, body, kids: vec![] });
        drop(nodes);
        self.states.push(st);
        id
    }
    pub fn acct(&self, at: usize, k: &Pubkey) -> Acct {
        vm::get(&self.states[at].world, k)
    }
    /// Runs a call at node `at`; `tag` is extra JSON ("" or ",\"b\":...").
    pub fn call(&mut self, at: usize, metas: &[Meta], data: &[u8], slot: u64, ts: i64, tag: &str) -> (usize, bool) {
        let mut metas = metas.to_vec();
        vm::merge_flags(&mut metas);
        let st = self.states[at].clone();
        let cj = call_json(&self.names, &metas, data, slot, ts);
        *self.beat.busy.lock().unwrap() = Some((at, cj.clone()));
        self.beat.since.store(now_ms(), Ordering::SeqCst);
        let (out, ch) = vm::run(&st.world, &metas, data, slot, ts);
        let body = format!(
            "\"k\":\"call\",\"c\":{},\"res\":{},\"acc\":{}{}",
            cj,
            obs::out(&self.names, &out),
            changes(&self.names, &ch),
            tag
        );
        self.beat.since.store(0, Ordering::SeqCst);
        self.calls += 1;
        self.ok += out.ok as u64;
        let world = if ch.is_empty() {
            st.world.clone()
        } else {
            let mut w = (*st.world).clone();
            for (k, a) in ch {
                w.insert(k, Arc::new(a));
            }
            Arc::new(w)
        };
        (self.push(Some(at), body, State { world, slot, ts }), out.ok)
    }
    /// Runs calls without recording them; the result is one "jump" node.
    pub fn bulk(&mut self, at: usize, calls: &[(Vec<Meta>, Vec<u8>)], slot: u64, ts: i64) -> usize {
        let st = self.states[at].clone();
        let mut w = (*st.world).clone();
        let mut touched = std::collections::BTreeSet::new();
        for (metas, data) in calls {
            let mut metas = metas.clone();
            vm::merge_flags(&mut metas);
            let (_, ch) = vm::run(&w, &metas, data, slot, ts);
            for (k, a) in ch {
                touched.insert(k);
                w.insert(k, Arc::new(a));
            }
        }
        let ch: Vec<(Pubkey, Acct)> = touched.iter().map(|k| (*k, vm::get(&w, k))).collect();
        let body = format!("\"k\":\"jump\",\"acc\":{}", changes(&self.names, &ch));
        self.push(Some(at), body, State { world: Arc::new(w), slot, ts })
    }
    /// Sets accounts from outside the program.
    pub fn poke(&mut self, at: usize, ch: Vec<(Pubkey, Acct)>) -> usize {
        let st = self.states[at].clone();
        let body = format!("\"k\":\"poke\",\"acc\":{}", changes(&self.names, &ch));
        let mut w = (*st.world).clone();
        for (k, a) in ch {
            w.insert(k, Arc::new(a));
        }
        self.push(Some(at), body, State { world: Arc::new(w), ..st })
    }
    /// Records an observation that leaves the state alone.
    pub fn probe(&mut self, at: usize, body: String) -> usize {
        let st = self.states[at].clone();
        self.push(Some(at), format!("{},\"acc\":{{}}", body), st)
    }
}

/// Writes finished nodes with ids from `base`; returns the next free id.
pub fn write(out: &mut dyn std::io::Write, nodes: &[Node], base: usize) -> usize {
    for (i, n) in nodes.iter().enumerate() {
        let kids: Vec<String> = n.kids.iter().map(|k| (k + base).to_string()).collect();
        let _ = writeln!(
            out,
            "{{\"id\":{},\"par\":{},\"kids\":[{}],{}}}",
            i + base,
            n.par.map(|p| (p + base).to_string()).unwrap_or_else(|| "0".into()),
            kids.join(","),
            n.body
        );
    }
    base + nodes.len()
}
