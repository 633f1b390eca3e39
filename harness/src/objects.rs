//! Objects driven step by step: payload chunks, buffer queues, stream ids, permits, builders.
//! The first step of every run is "new".
use crate::json::*;
use crate::link::{encoded, error, payload, view, Multi};
use crate::util::*;
use crate::hooks::BufQueue;
use binate::connection::{RequestCounter, StreamIdProvider};
use binate::frame::codec::*;
use binate::frame::{Encode, Flags, Frame, Version, U24};
use binate::prelude::PayloadChunks;
use binate::Payload;
use bytes::{Buf, Bytes};
use std::io::IoSlice;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

fn done() -> J {
    o! { t: s("ok") }
}

/// Performs one step of a run after the other.
pub type Machine = Box<dyn FnMut(&J) -> J>;

/// Performs the steps until one panics: what an object does afterwards is not specified.
pub fn script(q: &J, mut f: Machine) -> J {
    let mut out = Vec::new();
    for st in q.at("steps").arr() {
        match guard(|| f(st)) {
            Some(r) => out.push(r),
            None => {
                out.push(panicked());
                break;
            }
        }
    }
    J::A(out)
}

fn parts(p: Payload) -> J {
    let (m, d) = p.split();
    o! { m: opt_runs(m), d: opt_runs(d) }
}

fn pl(st: &J) -> Payload {
    payload(opt_bytes(st.at("m")), opt_bytes(st.at("d")))
}

fn append(acc: &mut Option<Vec<u8>>, b: Option<Bytes>) {
    if let Some(b) = b {
        acc.get_or_insert_with(Vec::new).extend_from_slice(&b);
    }
}

pub fn chunk_size(st: &J) -> usize {
    match st.at("n").int() {
        -1 => usize::MAX,
        -2 => (1 << 32) + 1,
        -3 => 1 << 63,
        v => v as usize,
    }
}

pub fn chunks() -> Machine {
    let mut it: Option<PayloadChunks> = None;
    Box::new(move |st| match st.at("o").str() {
        "new" => {
            it = Some(pl(st).chunks(chunk_size(st)));
            done()
        }
        "len" => {
            let it = it.as_ref().unwrap();
            let (lo, hi) = it.size_hint();
            o! { t: s("ok"), n: n(it.len()), lo: n(lo), hi: opt(hi.map(n)) }
        }
        "next" => {
            let p = it.as_mut().unwrap().next();
            o! { t: s("ok"), c: opt(p.map(parts)) }
        }
        // Several steps at once.
        "skip" => {
            let (mut m, mut d) = (None, None);
            let (mut got, mut wide) = (0, 0);
            for _ in 0..st.at("k").int() {
                match it.as_mut().unwrap().next() {
                    Some(p) => {
                        got += 1;
                        let (pm, pd) = p.split();
                        for x in pm.iter().chain(pd.iter()) {
                            wide = wide.max(x.len());
                        }
                        append(&mut m, pm);
                        append(&mut d, pd);
                    }
                    None => break,
                }
            }
            o! { t: s("ok"), m: opt_runs(m), d: opt_runs(d), got: n(got), wide: n(wide) }
        }
        // Other ways of going on.
        "nth" => {
            let p = it.as_mut().unwrap().nth(st.at("k").int() as usize);
            o! { t: s("ok"), c: opt(p.map(parts)) }
        }
        "count" => o! { t: s("ok"), n: n(it.take().unwrap().count()) },
        "last" => o! { t: s("ok"), c: opt(it.take().unwrap().last().map(parts)) },
        "fold" => {
            let init = (None, None, 0, 0);
            let (m, d, got, wide) =
                it.take().unwrap().fold(init, |(mut m, mut d, got, mut wide), p| {
                    let (pm, pd) = p.split();
                    for x in pm.iter().chain(pd.iter()) {
                        wide = wide.max(x.len());
                    }
                    append(&mut m, pm);
                    append(&mut d, pd);
                    (m, d, got + 1, wide)
                });
            o! { t: s("ok"), m: opt_runs(m), d: opt_runs(d), got: n(got), wide: n(wide) }
        }
        x => bad(x),
    })
}

fn fragment(k: &str, first: bool, last: bool, p: Payload) -> Frame {
    match k {
        "REQUEST_RESPONSE" => Frame::RequestResponse(RequestResponseFrame::new(1, !last, p)),
        "REQUEST_FNF" => Frame::RequestFnf(RequestFnfFrame::new(1, !last, p)),
        "REQUEST_STREAM" => Frame::RequestStream(RequestStreamFrame::new(1, !last, 1, p)),
        "REQUEST_CHANNEL" => {
            Frame::RequestChannel(RequestChannelFrame::new(1, !last, false, 1, p))
        }
        _ => {
            let mut f = Flags::empty();
            if !last {
                f |= Flags::FOLLOWS;
            }
            if first {
                f |= Flags::NEXT;
            }
            Frame::Payload(PayloadFrame::new(1, f, p))
        }
    }
}

fn reassembled(frames: &[Bytes], kind: &str, cut: usize) -> J {
    let r = match kind {
        "multi" => {
            let mut l = BufQueue::new();
            for f in frames {
                let k = cut.min(f.len());
                l.push(Multi(
                    vec![f.slice(..k), f.slice(k..)].into_iter().filter(|b| !b.is_empty()).collect(),
                ));
            }
            l.reassemble()
        }
        _ => {
            let mut l = BufQueue::new();
            for f in frames {
                l.push(f.clone());
            }
            l.reassemble()
        }
    };
    match r {
        Ok(p) => {
            let (m, d) = p.split();
            o! { t: s("ok"), m: opt_runs(m), d: opt_runs(d) }
        }
        Err(e) => o! { t: s("err"), err: error(&e) },
    }
}

/// One message: cut into fragments, framed, encoded, reassembled.
pub fn message() -> Machine {
    Box::new(move |st| match st.at("o").str() {
        // The whole way with the code's own chunks, frames of other kinds in between.
        "carry" => {
            let cs: Vec<Payload> = pl(st).chunks(chunk_size(st)).collect();
            let last = cs.len().max(1) - 1;
            let mut frames = Vec::new();
            for (i, c) in cs.into_iter().enumerate() {
                let k = st.at(if i == 0 { "first" } else { "rest" }).str();
                frames.push(fragment(k, i == 0, i == last, c).to_bytes());
            }
            for x in st.at("noise").arr() {
                let at = (x.at("at").int() as usize).min(frames.len());
                frames.insert(at, crate::link::make(x.at("a")).to_bytes());
            }
            reassembled(&frames, st.at("kind").str(), st.at("cut").int() as usize)
        }
        // Frames from elsewhere.
        "join" => {
            let frames: Vec<Bytes> = st.at("frames").arr().iter().map(bytes_of).collect();
            reassembled(&frames, st.at("kind").str(), st.at("cut").int() as usize)
        }
        x => bad(x),
    })
}

fn queue_of<T: Buf + 'static>(seg: impl Fn(Vec<Bytes>) -> T + 'static) -> Machine {
    let mut b: BufQueue<T> = BufQueue::new();
    Box::new(move |st| {
        let k = || st.at("n").int() as usize;
        let r = match st.at("o").str() {
            "push" => {
                b.push(seg(st.at("s").arr().iter().map(bytes_of).collect()));
                J::A(vec![])
            }
            "advance" => {
                b.advance(k());
                J::A(vec![])
            }
            "copy" => J::A(vec![runs(&b.copy_to_bytes(k()))]),
            "get" => {
                let mut v = vec![0; k()];
                b.copy_to_slice(&mut v);
                J::A(vec![runs(&v)])
            }
            // Takes the next 1, 2, 4 or 8 bytes as one number.
            "num" => {
                let v = match k() {
                    1 => b.get_u8().to_be_bytes().to_vec(),
                    2 => b.get_u16().to_be_bytes().to_vec(),
                    4 => b.get_u32().to_be_bytes().to_vec(),
                    _ => b.get_u64().to_be_bytes().to_vec(),
                };
                J::A(vec![runs(&v)])
            }
            "chunk" => J::A(vec![runs(b.chunk())]),
            "vec" => {
                let empty: &[u8] = &[];
                let mut dst = vec![IoSlice::new(empty); k()];
                let m = b.chunks_vectored(&mut dst);
                J::A(dst[..m].iter().map(|x| runs(x)).collect())
            }
            "rest" => {
                let k = b.remaining();
                J::A(vec![runs(&b.copy_to_bytes(k))])
            }
            x => bad(x),
        };
        o! { t: s("ok"), v: r, rem: n(b.remaining()), has: J::B(b.has_remaining()) }
    })
}

pub fn queue(q: &J) -> Machine {
    match q.at("kind").str() {
        "bytes" => queue_of(|mut v| v.remove(0)),
        "chain" => queue_of(|mut v| {
            let b = if v.len() > 1 { v.remove(1) } else { Bytes::new() };
            v.remove(0).chain(b)
        }),
        "nested" => queue_of(|v| {
            let mut b = BufQueue::new();
            for x in v {
                b.push(x);
            }
            b
        }),
        _ => queue_of(|v| Multi(v.into_iter().collect())),
    }
}

/// Runs one closure per thread, all let go at the same moment.
pub fn together<T: Send>(fs: Vec<Box<dyn FnOnce() -> T + Send + '_>>) -> Vec<Option<T>> {
    let ready = AtomicUsize::new(0);
    let count = fs.len();
    std::thread::scope(|sc| {
        let hs: Vec<_> = fs
            .into_iter()
            .map(|f| {
                let ready = &ready;
                sc.spawn(move || {
                    ready.fetch_add(1, Ordering::SeqCst);
                    while ready.load(Ordering::SeqCst) < count {
                        std::hint::spin_loop();
                    }
                    guard(f)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or(None)).collect()
    })
}

fn gathered(v: Vec<Option<J>>) -> J {
    match v.into_iter().collect::<Option<Vec<J>>>() {
        Some(v) => o! { t: s("ok"), got: J::A(v) },
        None => panicked(),
    }
}

pub fn ids() -> Machine {
    let store = dashmap::DashMap::new();
    let mut gen = None;
    Box::new(move |st| match st.at("o").str() {
        "new" => {
            gen = Some(match st.at("side").str() {
                "client" => StreamIdProvider::new_for_client(),
                "server" => StreamIdProvider::new_for_server(),
                _ => crate::hooks::ids_from(pair_of(st.at("at")) as i32),
            });
            done()
        }
        "next" => o! { t: s("ok"), id: pair(gen.as_ref().unwrap().next_stream_id(&store)) },
        // n allocations in a row, as segments of ids two apart.
        "many" => {
            let gen = gen.as_ref().unwrap();
            let mut segs: Vec<(u32, i64)> = Vec::new();
            for _ in 0..st.at("n").int() {
                let id = gen.next_stream_id(&store);
                match segs.last_mut() {
                    Some((a, k)) if *a as i64 + 2 * *k == id as i64 => *k += 1,
                    _ => segs.push((id, 1)),
                }
                if segs.len() > 1000 {
                    break;
                }
            }
            let segs = segs.into_iter().map(|(a, k)| J::A(vec![pair(a), J::N(k)])).collect();
            o! { t: s("ok"), segs: J::A(segs) }
        }
        // Many allocations by each thread: all ids together as segments from `at` on, and whether
        // each thread's own were in order.
        "rush" => {
            let (gen, store) = (gen.as_ref().unwrap(), &store);
            let at = pair_of(st.at("at"));
            let far = move |id: u32| id.wrapping_sub(at) & 0x7fff_ffff;
            let all = Mutex::new((Vec::new(), true));
            let all_ref = &all;
            together(
                st.at("todo")
                    .arr()
                    .iter()
                    .map(|k| {
                        let k = k.int();
                        Box::new(move || {
                            let v: Vec<u32> = (0..k).map(|_| gen.next_stream_id(store)).collect();
                            let mut all = all_ref.lock().unwrap();
                            all.1 &= v.windows(2).all(|w| far(w[0]) < far(w[1]));
                            all.0.extend(v);
                            done()
                        }) as Box<dyn FnOnce() -> J + Send>
                    })
                    .collect(),
            );
            let (mut all, orderly) = all.into_inner().unwrap();
            all.sort_by_key(|id| far(*id));
            let mut segs: Vec<(u32, i64)> = Vec::new();
            for id in all {
                match segs.last_mut() {
                    Some((a, k)) if *a as i64 + 2 * *k == id as i64 => *k += 1,
                    _ => segs.push((id, 1)),
                }
            }
            segs.truncate(1000);
            let segs = segs.into_iter().map(|(a, k)| J::A(vec![pair(a), J::N(k)])).collect();
            o! { t: s("ok"), segs: J::A(segs), orderly: J::B(orderly) }
        }
        "par" => {
            let (gen, store) = (gen.as_ref().unwrap(), &store);
            gathered(together(
                st.at("todo")
                    .arr()
                    .iter()
                    .map(|k| {
                        let k = k.int();
                        Box::new(move || {
                            let v: Vec<u32> = (0..k).map(|_| gen.next_stream_id(store)).collect();
                            J::A(v.into_iter().map(pair).collect())
                        }) as Box<dyn FnOnce() -> J + Send>
                    })
                    .collect(),
            ))
        }
        // n ids two apart, in use or not.
        o @ ("block" | "unblock") => {
            let at = pair_of(st.at("id"));
            for k in 0..st.at("n").int() as u32 {
                if o == "block" {
                    store.insert(at + 2 * k, ());
                } else {
                    store.remove(&(at + 2 * k));
                }
            }
            done()
        }
        "occupy" => {
            store.insert(pair_of(st.at("id")), ());
            done()
        }
        "release" => {
            store.remove(&pair_of(st.at("id")));
            done()
        }
        x => bad(x),
    })
}

fn permit(c: &RequestCounter, st: &J) -> J {
    match st.at("o").str() {
        "take" => o! { t: s("ok"), v: J::N(c.dec() as i64) },
        "add" => {
            c.add(pair_of(st.at("n")));
            done()
        }
        "zero" => o! { t: s("ok"), z: J::B(c.is_zero()) },
        "load" => o! { t: s("ok"), v: J::N(c.load() as i64) },
        x => bad(x),
    }
}

pub fn permits() -> Machine {
    let mut c = None;
    Box::new(move |st| match st.at("o").str() {
        "new" => {
            c = Some(RequestCounter::new(pair_of(st.at("n"))));
            done()
        }
        // k takes in a row: the first and last count, and whether each is one less.
        "many" => {
            let c = c.as_ref().unwrap();
            let first = c.dec();
            let (mut last, mut steps) = (first, true);
            for _ in 1..st.at("k").int() {
                let v = c.dec();
                steps &= v.wrapping_add(1) == last;
                last = v;
            }
            o! { t: s("ok"), first: J::N(first as i64), last: J::N(last as i64), steps: J::B(steps) }
        }
        // Many calls by each thread: the least and the most that takers got, and whether no two
        // got the same.
        "rush" => {
            let c = c.as_ref().unwrap();
            let all = Mutex::new(Vec::new());
            let all_ref = &all;
            together(
                st.at("calls")
                    .arr()
                    .iter()
                    .map(|p| {
                        Box::new(move || {
                            let k = p.at("k").int();
                            if p.at("o").str() == "add" {
                                let n = pair_of(p.at("n"));
                                (0..k).for_each(|_| c.add(n));
                            } else {
                                let v: Vec<i64> = (0..k).map(|_| c.dec() as i64).collect();
                                all_ref.lock().unwrap().extend(v);
                            }
                            done()
                        }) as Box<dyn FnOnce() -> J + Send>
                    })
                    .collect(),
            );
            let mut all = all.into_inner().unwrap();
            all.sort_unstable();
            let apart = all.windows(2).all(|w| w[0] < w[1]);
            let (lo, hi) = (all.first().copied(), all.last().copied());
            o! { t: s("ok"), lo: opt(lo.map(J::N)), hi: opt(hi.map(J::N)), apart: J::B(apart) }
        }
        "par" => {
            let c = c.as_ref().unwrap();
            gathered(together(
                st.at("calls")
                    .arr()
                    .iter()
                    .map(|p| {
                        Box::new(move || J::A(p.arr().iter().map(|x| permit(c, x)).collect()))
                            as Box<dyn FnOnce() -> J + Send>
                    })
                    .collect(),
            ))
        }
        _ => permit(c.as_ref().unwrap(), st),
    })
}

pub fn setup() -> Machine {
    let mut b = None;
    let text = |x: &J| String::from_utf8(bytes_of(x).to_vec()).unwrap_or_else(|_| bad("mime"));
    Box::new(move |st| {
        let v = || st.at("v");
        if st.at("o").str() == "new" {
            b = Some(SetupFrame::builder());
            return done();
        }
        let c = b.take().unwrap();
        b = Some(match st.at("o").str() {
            "resume" => c.set_resume_flag(),
            "lease" => c.set_lease_flag(),
            "version" => c.set_version(st.at("maj").int() as u16, st.at("min").int() as u16),
            "ka" => c.set_keepalive_interval(u32_of(v())),
            "lt" => c.set_keepalive_timeout(u32_of(v())),
            "tok" => c.set_resume_token(bytes_of(v())),
            "mm" => c.set_metadata_mimetype(text(v())),
            "dm" => c.set_data_mimetype(text(v())),
            "meta" => c.set_metadata(bytes_of(v())),
            "data" => c.set_data(bytes_of(v())),
            "build" => {
                let f = Frame::Setup(c.build());
                let (w, _) = encoded(&f);
                let flags = if w.len() > 5 { w[4] as i64 % 4 * 256 + w[5] as i64 } else { -1 };
                return o! { t: s("ok"), acc: view(&f), flags: J::N(flags) };
            }
            x => bad(x),
        });
        done()
    })
}

fn text(r: Result<&str, std::str::Utf8Error>) -> J {
    opt(r.ok().map(|t| runs(t.as_bytes())))
}

pub fn values() -> Machine {
    let mut b = None;
    let mut p = Payload::default();
    Box::new(move |st| match st.at("o").str() {
        "new" => {
            b = Some(Payload::builder());
            done()
        }
        "data" => {
            b = b.take().map(|b| b.set_data(bytes_of(st.at("v"))));
            done()
        }
        "meta" => {
            b = b.take().map(|b| b.set_metadata(bytes_of(st.at("v"))));
            done()
        }
        "default" => {
            p = Payload::default();
            done()
        }
        "build" => {
            p = b.take().unwrap().build();
            done()
        }
        "look" => {
            let (e, pre) = encoded(&p);
            o! {
                t: s("ok"), data: opt_runs(p.data()), meta: opt_runs(p.metadata()),
                len: n(p.len()), elen: n(Encode::len(&p)), eempty: J::B(Encode::is_empty(&p)), empty: J::B(p.is_empty()),
                hd: J::B(p.has_data()), hm: J::B(p.has_metadata()),
                dtext: text(p.data_utf8()), mtext: text(p.metadata_utf8()),
                split: parts(p.clone()), enc: runs(&e), pre: J::B(pre),
                tob: J::B(p.to_bytes() == e), same: J::B(p == p.clone()),
            }
        }
        // The length and encoding of a version and a 24-bit integer (C02).
        "version" => {
            let v = Version::new(st.at("maj").int() as u16, st.at("min").int() as u16);
            let (e, pre) = encoded(&v);
            o! { t: s("ok"), len: n(v.len()), empty: J::B(v.is_empty()), enc: runs(&e), pre: J::B(pre), tob: J::B(v.to_bytes() == e) }
        }
        "u24" => {
            let v = U24::from_u32(st.at("v").int() as u32);
            let (e, pre) = encoded(&v);
            o! { t: s("ok"), len: n(v.len()), empty: J::B(v.is_empty()), enc: runs(&e), pre: J::B(pre), tob: J::B(v.to_bytes() == e) }
        }
        x => bad(x),
    })
}
