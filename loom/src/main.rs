//! Runs small concurrent programs under every schedule loom finds and reports the distinct
//! histories. One JSON program per line in, one JSON result per line out.
#[macro_use]
#[path = "../../harness/src/json.rs"]
mod json;
#[path = "../../harness/src/util.rs"]
#[allow(dead_code)]
mod util;

use binate::connection::{RequestCounter, StreamIdProvider};
use json::*;
use std::collections::BTreeSet;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use util::*;

/// Runs `call(thread, index)` in every thread; thread 0 is the main one.
fn threads(sizes: &[usize], call: Arc<dyn Fn(usize, usize) -> J + Send + Sync>) -> J {
    let got: Arc<Vec<Mutex<Vec<J>>>> = Arc::new(sizes.iter().map(|_| Mutex::new(vec![])).collect());
    let body = |t: usize| {
        let (got, call, n) = (got.clone(), call.clone(), sizes[t]);
        move || {
            for i in 0..n {
                let r = call(t, i);
                got[t].lock().unwrap().push(r);
            }
        }
    };
    let hs: Vec<_> = (1..sizes.len()).map(|t| loom::thread::spawn(body(t))).collect();
    if !sizes.is_empty() {
        body(0)();
    }
    for h in hs {
        h.join().unwrap();
    }
    J::A(got.iter().map(|g| J::A(g.lock().unwrap().clone())).collect())
}

fn once(q: &J) -> J {
    match q.at("op").str() {
        "ids" => {
            let gen = Arc::new(match q.at("side").str() {
                "client" => StreamIdProvider::new_for_client(),
                "server" => StreamIdProvider::new_for_server(),
                #[cfg(not(binate_verif_no_ids))]
                _ => StreamIdProvider::verif_starting_at(pair_of(q.at("at")) as i32),
                #[cfg(binate_verif_no_ids)]
                _ => bad("hooks"),
            });
            let store = Arc::new(dashmap::DashMap::new());
            for i in q.at("used").arr() {
                store.insert(pair_of(i), ());
            }
            let sizes: Vec<usize> = q.at("todo").arr().iter().map(|x| x.int() as usize).collect();
            let (g, st) = (gen.clone(), store.clone());
            let got = threads(&sizes, Arc::new(move |_, _| pair(g.next_stream_id(&st))));
            o! { got: got, after: pair(gen.next_stream_id(&store)) }
        }
        "permits" => {
            let c = Arc::new(RequestCounter::new(pair_of(q.at("init"))));
            let calls = Arc::new(q.at("calls").clone());
            let sizes: Vec<usize> = calls.arr().iter().map(|p| p.arr().len()).collect();
            let d = c.clone();
            let got = threads(
                &sizes,
                Arc::new(move |t, i| {
                    let st = &calls.arr()[t].arr()[i];
                    match st.at("o").str() {
                        "take" => o! { t: s("ok"), v: J::N(d.dec() as i64) },
                        "add" => {
                            d.add(pair_of(st.at("n")));
                            o! { t: s("ok") }
                        }
                        "zero" => o! { t: s("ok"), z: J::B(d.is_zero()) },
                        _ => o! { t: s("ok"), v: J::N(d.load() as i64) },
                    }
                }),
            );
            o! { got: got, after: J::N(c.load() as i64) }
        }
        x => bad(x),
    }
}

fn run(q: &J, said: &Arc<Mutex<String>>) -> J {
    let seen: Arc<Mutex<BTreeSet<String>>> = Arc::default();
    let count = Arc::new(AtomicUsize::new(0));
    let mut b = loom::model::Builder::new();
    b.max_branches = 5_000;
    b.max_duration = Some(Duration::from_millis(q.at("ms").int() as u64));
    b.preemption_bound = q.at("bound").opt().map(|x| x.int() as usize);
    let (q2, seen2, count2) = (q.clone(), seen.clone(), count.clone());
    let r = catch_unwind(AssertUnwindSafe(|| {
        b.check(move || {
            let h = once(&q2);
            let mut t = String::new();
            write(&h, &mut t);
            seen2.lock().unwrap().insert(t);
            count2.fetch_add(1, Ordering::Relaxed);
        })
    }));
    let hist = match seen.lock() {
        Ok(s) => s.iter().map(|t| parse(t)).collect(),
        Err(_) => vec![],
    };
    let why = match r {
        Ok(()) => s(""),
        Err(_) => s(&said.lock().unwrap_or_else(|e| e.into_inner())),
    };
    o! { hist: J::A(hist), schedules: n(count.load(Ordering::Relaxed)), died: why }
}

fn main() {
    let said: Arc<Mutex<String>> = Arc::default();
    let keep = said.clone();
    std::panic::set_hook(Box::new(move |i| {
        let mut t = keep.lock().unwrap_or_else(|e| e.into_inner());
        *t = i.to_string();
    }));
    let stdout = std::io::stdout();
    let mut out = stdout.lock();
    for q in std::io::stdin().lock().lines() {
        let q = parse(&q.expect("stdin"));
        let r = run(&q, &said);
        let mut line = String::new();
        write(&r, &mut line);
        line.push('\n');
        out.write_all(line.as_bytes()).expect("stdout");
        out.flush().expect("stdout");
    }
}
