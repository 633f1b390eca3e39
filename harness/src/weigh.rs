//! Counts the memory that is taken and not given back, thread by thread.
use crate::hooks::BufQueue;
use crate::json::*;
use crate::link::{make, payload, pieces, Multi};
use crate::objects::{chunk_size, Machine};
use crate::session::{runtime, silence, Player};
use crate::util::*;
use binate::frame::{Encode, Frame};
use bytes::{Buf, Bytes};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Scales;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

fn more(k: i64) {
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + k);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}

unsafe impl GlobalAlloc for Scales {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        more(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        more(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        more(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        more(n as i64);
        let q = System.realloc(p, l, n);
        more(-(if q.is_null() { n } else { l.size() } as i64));
        q
    }
}

fn number(k: i64) -> J {
    J::N(k.max(0).min(i32::MAX as i64))
}

/// What is taken at most at a time, and what is kept in the end.
fn weighed(f: impl FnOnce()) -> (J, J) {
    let before = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(before));
    f();
    let (peak, after) = (PEAK.with(|p| p.get()), LIVE.with(|l| l.get()));
    (number(peak - before), number(after - before))
}

/// Once as a rehearsal, then several times in a row.
fn repeated(st: &J, size: usize, count: usize, mut f: impl FnMut()) -> J {
    let (_, first) = weighed(&mut f);
    let times = st.at("times").int();
    let (peak, kept) = weighed(|| (0..times).for_each(|_| f()));
    o! { t: s("ok"), size: n(size), count: n(count), peak: peak, first: first, kept: kept }
}

fn decode(mut b: impl Buf) {
    let f = Frame::decode(&mut b);
    drop(f);
}

fn session(st: &J) -> J {
    let steps = st.at("first").arr();
    let body = st.at("body").arr();
    let times = st.at("times").int();
    let (peak, kept) = runtime().block_on(async {
        let mut p = Player::new(&steps[0]);
        for x in steps {
            p.play(x).await;
        }
        p.mute();
        let mut at = 0;
        let mut got = None;
        // The rehearsal is as long as what is measured, so that tables have the room they need.
        for half in 0..2 {
            let before = LIVE.with(|l| l.get());
            PEAK.with(|p| p.set(before));
            for _ in 0..times {
                for x in body {
                    p.play(x).await;
                }
                p.forget();
                at += 1;
            }
            if half == 1 {
                let (peak, after) = (PEAK.with(|p| p.get()), LIVE.with(|l| l.get()));
                got = Some((number(peak - before), number(after - before)));
            }
        }
        assert!(at == 2 * times);
        got.unwrap()
    });
    silence();
    o! { t: s("ok"), size: J::N(st.at("size").int()), count: n(body.len()), peak: peak, first: n(0), kept: kept }
}

pub fn weigh() -> Machine {
    Box::new(|st| match st.at("o").str() {
        "decode" => {
            let b = bytes_of(st.at("b"));
            let ps = pieces(&b, st.at("cuts").arr());
            let (size, count) = (b.len(), ps.len());
            match st.at("kind").str() {
                "bytes" => repeated(st, size, 1, || decode(b.clone())),
                "slice" => repeated(st, size, 1, || decode(&b[..])),
                "queue" => repeated(st, size, count, || {
                    let mut q = BufQueue::new();
                    ps.iter().for_each(|p| q.push(p.clone()));
                    decode(q)
                }),
                _ => repeated(st, size, count, || decode(Multi(ps.iter().cloned().collect()))),
            }
        }
        "encode" => {
            let f = make(st.at("a"));
            let size = f.len();
            repeated(st, size, 1, || drop(f.to_bytes()))
        }
        // Cut and dropped chunk by chunk.
        "cut" => {
            let (m, d) = (opt_bytes(st.at("m")), opt_bytes(st.at("d")));
            let size = m.iter().chain(d.iter()).map(|b| b.len()).sum();
            repeated(st, size, 1, || {
                payload(m.clone(), d.clone()).chunks(chunk_size(st)).for_each(drop)
            })
        }
        "join" => {
            let frames: Vec<Bytes> = st.at("frames").arr().iter().map(|a| make(a).to_bytes()).collect();
            let size = frames.iter().map(|b| b.len()).sum();
            repeated(st, size, frames.len(), || {
                let mut q = BufQueue::new();
                frames.iter().for_each(|f| q.push(f.clone()));
                drop(q.reassemble())
            })
        }
        "session" => session(st),
        x => bad(x),
    })
}
