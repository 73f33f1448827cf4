//! Runs scenarios against the real program and records what happened.
//!   phx run PROPERTY SEED CALLS THREADS PREFIX     random scenarios, PREFIX<i>.ndjson per thread
//!   phx sizes SEED THREADS PREFIX [MAXORDERS]      markets of every offered size
//!   phx model THEME VARIANT DEEP SAMPLE FILE       a small world for the model checker to explore
//! With PHX_WORK set, `run` first carries out what the model checker found (work files $PHX_WORK<i>).
mod build;
mod env;
mod gen;
mod leave;
mod model;
mod obs;
mod replay;
mod rng;
mod sizes;
mod trace;
#[cfg(feature = "views")]
mod views;
/// A stand-in, should the library's reading interface not build.
#[cfg(not(feature = "views"))]
mod views {
    pub fn any(_: &mut crate::gen::Gen, at: usize, _: &crate::obs::Mkt, _: bool) -> usize {
        at
    }
    pub fn view(_: &mut crate::gen::Gen, at: usize, _: &str, _: u64, _: u64) -> usize {
        at
    }
}
mod vm;
mod wire;

use std::fs::File;
use std::io::{BufWriter, Write};
use std::os::unix::io::{FromRawFd, IntoRawFd};
use std::sync::atomic::Ordering;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use trace::{now_ms, Beat};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

struct Sink {
    f: BufWriter<File>,
    next: usize,
}
struct Worker {
    beat: Arc<Beat>,
    sink: Arc<Mutex<Sink>>,
    done: Arc<Mutex<bool>>,
}
#[derive(Default)]
pub struct Stats {
    pub calls: u64,
    pub ok: u64,
    pub scenarios: u64,
    /// call sequences of the model checker carried out
    pub paths: u64,
    /// what stopped a scenario short
    pub cut: Vec<String>,
}

fn flush(sink: &Mutex<Sink>, beat: &Beat) {
    let mut s = sink.lock().unwrap();
    let mut nodes = beat.nodes.lock().unwrap();
    let base = s.next;
    s.next = trace::write(&mut s.f, &nodes, base);
    nodes.clear();
}

fn main() {
    let mut out = unsafe {
        let keep = File::from_raw_fd(dup(1));
        let null = File::create("/dev/null").unwrap().into_raw_fd();
        dup2(null, 1);
        keep
    };
    vm::install();
    let a: Vec<String> = std::env::args().collect();
    let limit: u64 = std::env::var("PHX_HANG_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(20_000);
    let (threads, prefix): (usize, String) = match a[1].as_str() {
        "run" => (a[5].parse().unwrap(), a[6].clone()),
        "sizes" => (a[3].parse().unwrap(), a[4].clone()),
        "model" => {
            let m = model::model(&a[2], a[3].parse().unwrap(), a[4] == "1", a[5].parse().unwrap());
            model::write(&mut BufWriter::new(File::create(&a[6]).unwrap()), &m);
            std::process::exit(0);
        }
        _ => panic!("usage"),
    };
    let stats = Arc::new(Mutex::new(Stats::default()));
    let queue = Arc::new(Mutex::new(Vec::<[u64; 3]>::new()));
    if a[1] == "sizes" {
        // those beyond MAXORDERS are only used a little
        let max: u64 = a.get(5).and_then(|x| x.parse().ok()).unwrap_or(1 << 20);
        let mut v: Vec<[u64; 3]> = sizes::SIZES[..12].to_vec();
        v.sort_by_key(|s| if s[0] <= max { s[0] * 2 + s[2] } else { 0 }); // the largest first
        *queue.lock().unwrap() = v;
    }
    let mut ws = vec![];
    for i in 0..threads {
        let beat = Arc::new(Beat::default());
        let sink = Arc::new(Mutex::new(Sink { f: BufWriter::new(File::create(format!("{}{}.ndjson", prefix, i)).unwrap()), next: 1 }));
        let done = Arc::new(Mutex::new(false));
        ws.push(Worker { beat: beat.clone(), sink: sink.clone(), done: done.clone() });
        let (a, stats, queue) = (a.clone(), stats.clone(), queue.clone());
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                let tally = |g: &trace::Run| {
                    let mut s = stats.lock().unwrap();
                    s.calls += g.calls;
                    s.ok += g.ok;
                    s.scenarios += 1;
                };
                // a scenario that cannot go on keeps what was recorded
                let whole = |play: &mut dyn FnMut()| {
                    if catch_unwind(AssertUnwindSafe(play)).is_err() {
                        stats.lock().unwrap().cut.push(vm::last_panic());
                    }
                };
                match a[1].as_str() {
                    "run" => {
                        let seed: u64 = a[3].parse().unwrap();
                        let quota: u64 = a[4].parse::<u64>().unwrap() / threads as u64;
                        if let Some(w) = std::env::var("PHX_WORK").ok().map(|w| format!("{}{}", w, i)) {
                            whole(&mut || {
                                stats.lock().unwrap().paths += replay::play(&a[2], &w, beat.clone(), &mut |g| {
                                    tally(&g.run);
                                    flush(&sink, &beat);
                                });
                            });
                            flush(&sink, &beat);
                        }
                        let mut n = 0;
                        let mut k = 0u64;
                        while n < quota {
                            let mut h = rng::Rng::new(seed ^ ((i as u64) << 40) ^ (k << 8));
                            let s = h.next();
                            n += 1;
                            k += 1;
                            whole(&mut || {
                                let mut g = gen::Gen::scenario(s, &a[2], beat.clone());
                                whole(&mut || g.play());
                                n += g.run.states.len() as u64 - 1;
                                tally(&g.run);
                            });
                            flush(&sink, &beat);
                        }
                    }
                    "sizes" => loop {
                        let s = match queue.lock().unwrap().pop() {
                            None => break,
                            Some(s) => s,
                        };
                        let seed: u64 = a[2].parse().unwrap();
                        let full = s[0] <= a.get(5).and_then(|x| x.parse().ok()).unwrap_or(1 << 20);
                        whole(&mut || {
                            let mut g = sizes::scenario(seed ^ (s[0] << 20) ^ s[2], s, full, beat.clone());
                            whole(&mut || sizes::play(&mut g, full));
                            tally(&g.run);
                        });
                        flush(&sink, &beat);
                    },
                    _ => unreachable!(),
                }
                *done.lock().unwrap() = true;
            })
            .unwrap();
    }
    let mut hung: Vec<bool> = vec![false; threads];
    loop {
        std::thread::sleep(std::time::Duration::from_millis(20));
        let mut open = 0;
        for (i, w) in ws.iter().enumerate() {
            if hung[i] || *w.done.lock().unwrap() {
                continue;
            }
            open += 1;
            let since = w.beat.since.load(Ordering::SeqCst);
            if since != 0 && now_ms().saturating_sub(since) > limit {
                hung[i] = true;
                let (at, call) = w.beat.busy.lock().unwrap().clone().unwrap_or((0, "{}".into()));
                {
                    let mut nodes = w.beat.nodes.lock().unwrap();
                    let id = nodes.len();
                    nodes[at].kids.push(id);
                    nodes.push(trace::Node {
                        par: Some(at),
                        body: format!(
                            "\"k\":\"call\",\"c\":{},\"res\":{{\"ok\":false,\"err\":\"hang\",\"ret\":[],\"log\":[]}},\"acc\":{{}}",
                            call
                        ),
                        kids: vec![],
                    });
                }
                flush(&w.sink, &w.beat);
            }
        }
        if open == 0 {
            break;
        }
    }
    for w in &ws {
        w.sink.lock().unwrap().f.flush().unwrap();
    }
    let s = stats.lock().unwrap();
    let n: usize = ws.iter().map(|w| w.sink.lock().unwrap().next - 1).sum();
    let _ = writeln!(
        out,
        "{{\"nodes\":{},\"calls\":{},\"ok\":{},\"scenarios\":{},\"paths\":{},\"hung\":{},\"per\":[{}],\"cut\":[{}]}}",
        n, s.calls, s.ok, s.scenarios, s.paths, hung.iter().filter(|x| **x).count(),
        ws.iter().map(|w| (w.sink.lock().unwrap().next - 1).to_string()).collect::<Vec<_>>().join(","),
        s.cut.iter().map(|m| format!("{:?}", m.replace(|c: char| !c.is_ascii() || c.is_control() || c == '\'', " "))).collect::<Vec<_>>().join(",")
    );
    let _ = out.flush();
    std::process::exit(0);
}
