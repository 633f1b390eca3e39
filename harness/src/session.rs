//! Sessions over a transport that records what it is given, on a clock that only moves when told.
use crate::json::*;
use crate::link::{payload, pieces, view, Multi};
use crate::tables::queries;
use crate::util::*;
use crate::hooks::{self, BufQueue, Session};
use binate::connection::{ConnectionStatus, DuplexConnection};
use binate::frame::codec::KeepaliveFrame;
use binate::frame::{Encode, Frame};
use binate::{Error, Flux, Mono, Result};
use bytes::{Buf, Bytes};
use std::collections::VecDeque;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::time::Instant;
use tokio_stream::Stream;
use tracing::field::{Field, Visit};
use tracing::span::{Attributes, Id, Record};
use tracing::{Event, Level, Metadata, Subscriber};

/// A stream of the transport.
struct Feed<T> {
    items: VecDeque<T>,
    ended: bool,
    wakers: Vec<Waker>,
    polls: usize,
    subs: usize,
}

impl<T> Feed<T> {
    fn new() -> Feed<T> {
        Feed { items: VecDeque::new(), ended: false, wakers: vec![], polls: 0, subs: 0 }
    }
}

struct Refusal {
    left: i64,
    kind: String,
    cause: Option<String>,
}

struct Answer {
    err: Option<(String, Option<String>)>,
    after: u64,
}

struct State {
    start: Instant,
    /// Milliseconds of one unit of the run's time.
    unit: u64,
    /// The time while threads run, which have no clock.
    frozen: i64,
    log: Vec<J>,
    refusal: Refusal,
    answers: VecDeque<Answer>,
    status: Feed<ConnectionStatus>,
    frames: Feed<u64>,
    current: ConnectionStatus,
    /// The order in which callers may reach the transport.
    turns: VecDeque<usize>,
    /// The bytes of the requests on their way, if there is somebody at the other end.
    sent: Option<Vec<(usize, Bytes)>>,
    /// Whether nothing is recorded.
    mute: bool,
    /// Whether the clock is the machine's.
    real: bool,
    closed: bool,
}

/// The other end: puts together what arrives on each stream.
struct Receiver {
    kind: String,
    cuts: Vec<J>,
    /// What came on each stream, and of which caller.
    streams: Vec<(u32, usize, Vec<Bytes>)>,
}

impl Receiver {
    fn decode(&self, b: &Bytes) -> Option<Frame> {
        let ps = pieces(b, &self.cuts);
        let all = |mut buf: Box<dyn Buf>| {
            let f = Frame::decode(&mut buf).ok();
            f.filter(|_| !buf.has_remaining())
        };
        match &self.kind[..] {
            "queue" => {
                let mut q = BufQueue::new();
                ps.into_iter().for_each(|p| q.push(p));
                all(Box::new(q))
            }
            "multi" => all(Box::new(Multi(ps.into_iter().collect()))),
            _ => all(Box::new(b.clone())),
        }
    }

    fn take(&mut self, by: usize, b: Bytes) -> Option<J> {
        let odd = |what| Some(o! { p: n(by), odd: s(what) });
        let (id, follows) = match self.decode(&b) {
            Some(Frame::RequestFnf(f)) => (f.stream_id(), f.is_follows()),
            Some(Frame::Payload(f)) => (f.stream_id(), f.is_follows()),
            Some(_) => return odd("kind"),
            None => return odd("bytes"),
        };
        let at = match self.streams.iter().position(|x| x.0 == id) {
            Some(k) => k,
            None => {
                self.streams.push((id, by, vec![]));
                self.streams.len() - 1
            }
        };
        self.streams[at].2.push(b);
        if follows {
            return None;
        }
        let (id, first, frames) = self.streams.remove(at);
        if first != by {
            return odd("caller");
        }
        let mut q = BufQueue::new();
        for f in frames {
            q.push(f);
        }
        match q.reassemble() {
            Ok(p) => {
                let (m, d) = p.split();
                Some(o! { p: n(by), sid: pair(id), m: opt_runs(m), d: opt_runs(d) })
            }
            Err(_) => odd("message"),
        }
    }
}

#[derive(Clone)]
struct Wire(Arc<(Mutex<State>, Condvar)>);

impl State {
    fn now(&self) -> i64 {
        (self.start.elapsed().as_millis() / self.unit as u128) as i64
    }
}

thread_local! {
    static CALLER: std::cell::Cell<usize> = std::cell::Cell::new(0);
    static EARS: std::cell::RefCell<Option<Wire>> = std::cell::RefCell::new(None);
}

/// Callers 1 to 16 are threads; those beyond are pushes that wait, and 0 is everything else.
const WAITING: usize = 16;
fn threaded(by: usize) -> bool {
    (1..=WAITING).contains(&by)
}

impl Wire {
    fn lock(&self) -> MutexGuard<'_, State> {
        (self.0).0.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn note(&self, st: &mut State, mut v: Vec<(&str, J)>) {
        if st.mute {
            return;
        }
        let by = CALLER.with(|c| c.get());
        v.push(("by", n(by)));
        let mut at = if threaded(by) { st.frozen } else { st.now() };
        if v[0].1 == s("close") {
            st.closed = true;
            // A report and the close after it are one moment.
            if let (true, Some(last)) = (st.real, st.log.last()) {
                if last.at("e").str() == "said" && at - last.at("at").int() < 2_000 {
                    at = last.at("at").int();
                }
            }
        }
        v.push(("at", J::N(at)));
        // The same again, at once: counted.
        if let (Some(J::O(last)), true) = (st.log.last_mut(), v[0].1 == s("send")) {
            let k = last.len() - 1;
            if last.len() == v.len() + 1 && v.iter().zip(last.iter()).all(|(a, b)| a.0 == b.0 && a.1 == b.1) {
                if let J::N(n) = &mut last[k].1 {
                    *n += 1;
                }
                return;
            }
        }
        if v[0].1 == s("send") {
            v.push(("n", n(1)));
        }
        if st.log.len() < 20_000 {
            st.log.push(obj(v));
        }
    }
    /// Waits until it is the caller's turn; a turn nobody takes is passed over after a while.
    fn turn(&self) -> MutexGuard<'_, State> {
        let me = CALLER.with(|c| c.get());
        let mut st = self.lock();
        loop {
            match st.turns.front() {
                None => return st,
                Some(t) if *t == me => {
                    st.turns.pop_front();
                    (self.0).1.notify_all();
                    return st;
                }
                Some(_) => {
                    let len = st.turns.len();
                    let (g, out) = (self.0)
                        .1
                        .wait_timeout(st, Duration::from_millis(15))
                        .unwrap_or_else(|e| e.into_inner());
                    st = g;
                    if out.timed_out() && st.turns.len() == len {
                        st.turns.pop_front();
                        (self.0).1.notify_all();
                    }
                }
            }
        }
    }
}

impl DuplexConnection for Wire {
    fn send(&self, frame: Frame) -> Mono<Result<()>> {
        let w = self.clone();
        self.note(&mut self.lock(), vec![("e", s("push")), ("f", view(&frame))]);
        Box::pin(async move {
            let (a, unit) = {
                let mut st = w.lock();
                let mut a = st.answers.pop_front().unwrap_or(Answer { err: None, after: 0 });
                if threaded(CALLER.with(|c| c.get())) {
                    a.after = 0;
                }
                w.note(&mut st, vec![("e", s("asked")), ("after", n(a.after as usize))]);
                (a, st.unit)
            };
            if a.after > 0 {
                tokio::time::sleep(Duration::from_millis(a.after * unit)).await;
            }
            w.note(&mut w.lock(), vec![("e", s("answer"))]);
            match a.err {
                None => Ok(()),
                Some((kind, cause)) => Err(hooks::error(&kind, cause)),
            }
        })
    }

    fn send_and_forget(&self, frame: Frame) -> Result<()> {
        let mut st = self.turn();
        let ok = st.refusal.left != 0;
        if st.refusal.left >= 0 {
            st.refusal.left -= 1;
        }
        if let Some(sent) = &mut st.sent {
            if ok {
                sent.push((CALLER.with(|c| c.get()), frame.to_bytes()));
                return Ok(());
            }
        }
        self.note(&mut st, vec![("e", s("send")), ("f", view(&frame)), ("ok", J::B(ok))]);
        if ok {
            Ok(())
        } else {
            Err(hooks::error(&st.refusal.kind, st.refusal.cause.clone()))
        }
    }

    fn send_stream(&self, _frames: Flux<Frame>) {
        self.note(&mut self.lock(), vec![("e", s("stream"))]);
    }

    fn receive(&self) -> Flux<Frame> {
        self.lock().frames.subs += 1;
        Box::pin(Frames(self.clone()))
    }

    fn connect(&self) {
        self.note(&mut self.lock(), vec![("e", s("connect"))]);
    }

    fn close(&self) {
        self.note(&mut self.lock(), vec![("e", s("close"))]);
    }

    fn connection_status(&self) -> Flux<ConnectionStatus> {
        let mut st = self.lock();
        st.status.subs += 1;
        // The status there is comes first; somebody who keeps asking gets no more answers.
        let first = if st.status.subs < 50 { Some(st.current.clone()) } else { None };
        Box::pin(Statuses { wire: self.clone(), first, mine: st.status.subs })
    }
}

struct Statuses {
    wire: Wire,
    first: Option<ConnectionStatus>,
    mine: usize,
}

impl Stream for Statuses {
    type Item = ConnectionStatus;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<ConnectionStatus>> {
        let wire = self.wire.clone();
        let mut st = wire.lock();
        st.status.polls += 1;
        if st.status.polls > 10_000 {
            panic!("polled all the time");
        }
        if let Some(x) = self.first.take() {
            return Poll::Ready(Some(x));
        }
        // Only the last subscriber is told of changes.
        if self.mine == st.status.subs {
            if let Some(x) = st.status.items.pop_front() {
                return Poll::Ready(Some(x));
            }
        }
        if st.status.ended {
            return Poll::Ready(None);
        }
        st.status.wakers.push(cx.waker().clone());
        Poll::Pending
    }
}

struct Frames(Wire);

impl Stream for Frames {
    type Item = Frame;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Frame>> {
        let mut st = self.0.lock();
        st.frames.polls += 1;
        if st.frames.polls > 10_000 {
            panic!("polled all the time");
        }
        if let Some(x) = st.frames.items.pop_front() {
            return Poll::Ready(Some(Frame::Keepalive(KeepaliveFrame::new(x, None, false))));
        }
        st.frames.wakers.push(cx.waker().clone());
        Poll::Pending
    }
}

/// Records what is reported at error level to the log of the session at hand.
struct Ears;
struct Text(String);
impl Visit for Text {
    fn record_debug(&mut self, f: &Field, v: &dyn fmt::Debug) {
        if f.name() == "message" {
            self.0 = format!("{:?}", v) + &self.0;
        } else {
            self.0 += &format!(" {}={:?}", f.name(), v);
        }
    }
    fn record_str(&mut self, f: &Field, v: &str) {
        self.0 += &format!(" {}={}", f.name(), v);
    }
}
impl Subscriber for Ears {
    fn enabled(&self, m: &Metadata<'_>) -> bool {
        *m.level() == Level::ERROR
    }
    fn new_span(&self, _: &Attributes<'_>) -> Id {
        Id::from_u64(1)
    }
    fn record(&self, _: &Id, _: &Record<'_>) {}
    fn record_follows_from(&self, _: &Id, _: &Id) {}
    fn enter(&self, _: &Id) {}
    fn exit(&self, _: &Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut t = Text(String::new());
        e.record(&mut t);
        let wire = EARS.with(|x| x.borrow().clone());
        if let Some(w) = wire {
            w.note(&mut w.lock(), vec![("e", s("said")), ("text", s(&t.0))]);
        }
    }
}

pub fn listen() {
    tracing::subscriber::set_global_default(Ears).expect("one listener");
}

async fn settle() {
    for _ in 0..60 {
        let _ = tokio::task::yield_now().await;
    }
}

fn failure(e: &Error) -> J {
    let cause = std::error::Error::source(e).map(|x| x.to_string());
    o! { t: s("err"), yes: queries(e), cause: opt(cause.map(|c| s(&c))) }
}

fn result(r: Option<Result<()>>) -> J {
    match r {
        None => panicked(),
        Some(Ok(())) => o! { t: s("ok") },
        Some(Err(e)) => failure(&e),
    }
}

pub fn status(j: &J) -> ConnectionStatus {
    match j.at("s").str() {
        "Unconnected" => ConnectionStatus::Unconnected,
        "Connecting" => ConnectionStatus::Connecting,
        "Connected" => ConnectionStatus::Connected,
        "Closed" => ConnectionStatus::Closed,
        _ => ConnectionStatus::Error(j.at("m").str().to_string()),
    }
}

fn fnf(x: &Session, st: &J) -> J {
    let p = payload(opt_bytes(st.at("m")), opt_bytes(st.at("d")));
    result(guard(|| x.fire_and_forget(p)))
}

/// A future whose panics are data.
struct Caught<F>(Pin<Box<F>>);
impl<F: Future> Future for Caught<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match guard(|| self.0.as_mut().poll(cx)) {
            None => Poll::Ready(None),
            Some(Poll::Pending) => Poll::Pending,
            Some(Poll::Ready(x)) => Poll::Ready(Some(x)),
        }
    }
}

/// A push that is waited for now and then.
enum Waiting {
    Gone,
    Open(Caught<Mono<Result<()>>>),
    Over(J),
}

impl Waiting {
    fn poll(&mut self, k: usize, cx: &mut Context<'_>) -> bool {
        if let Waiting::Open(f) = self {
            CALLER.with(|c| c.set(WAITING + k));
            let r = Pin::new(f).poll(cx);
            CALLER.with(|c| c.set(0));
            match r {
                Poll::Pending => return false,
                Poll::Ready(r) => *self = Waiting::Over(result(r)),
            }
        }
        true
    }
}

/// Waits on a thread of its own.
struct Thread(std::thread::Thread);
impl std::task::Wake for Thread {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}
fn wait<F: Future>(f: F) -> F::Output {
    let waker = Arc::new(Thread(std::thread::current())).into();
    let mut f = Box::pin(f);
    loop {
        match f.as_mut().poll(&mut Context::from_waker(&waker)) {
            Poll::Ready(x) => return x,
            Poll::Pending => std::thread::park_timeout(Duration::from_millis(1)),
        }
    }
}

fn on_thread(c: &mut Session, st: &J) -> J {
    match st.at("o").str() {
        "fnf" => fnf(c, st),
        "push" => {
            let m = bytes_of(st.at("m"));
            match guard(|| c.metadata_push(m)) {
                None => panicked(),
                Some(f) => result(wait(Caught(Box::pin(f)))),
            }
        }
        "close" => match guard(|| c.close()) {
            None => panicked(),
            Some(()) => o! { t: s("ok") },
        },
        o => bad(o),
    }
}

async fn futures_once(x: &mut Waiting, k: usize) {
    std::future::poll_fn(|cx| {
        x.poll(k, cx);
        Poll::Ready(())
    })
    .await
}

async fn step(handles: &mut Vec<Option<Session>>, waits: &mut Vec<Waiting>, w: &Wire, q: &J) -> J {
    let wake = |ws: Vec<Waker>| ws.into_iter().for_each(|k| k.wake());
    let ok = o! { t: s("ok") };
    // Any clone will do.
    let who = q.get("on").map_or(0, |i| i.int() as usize);
    let mut none = None;
    let handle = handles.get_mut(who).unwrap_or(&mut none);
    let word = q.at("o").str();
    if let "status" | "wake" | "end" | "peer" | "advance" | "until" | "answers" | "refuse" | "join" | "abandon" = word {
        // These are no calls.
    } else if handle.is_none() {
        bad("no such handle")
    }
    macro_rules! me {
        () => {
            handle.as_mut().expect("a handle")
        };
    }
    match word {
        "clone" => {
            let c = me!().clone();
            handles.push(Some(c));
            ok
        }
        "drop" => match guard(|| drop(handle.take())) {
            None => panicked(),
            Some(()) => ok,
        },
        "begin" => {
            let k = q.at("slot").int() as usize;
            let m = bytes_of(q.at("m"));
            while waits.len() <= k {
                waits.push(Waiting::Gone);
            }
            CALLER.with(|c| c.set(WAITING + k));
            let f = guard(|| me!().metadata_push(m));
            CALLER.with(|c| c.set(0));
            waits[k] = match f {
                None => Waiting::Over(panicked()),
                Some(f) => Waiting::Open(Caught(Box::pin(f))),
            };
            if q.at("poll").bool() {
                futures_once(&mut waits[k], k).await;
            }
            ok
        }
        "join" => {
            let ks: Vec<usize> = q.at("slots").arr().iter().map(|k| k.int() as usize).collect();
            std::future::poll_fn(|cx| {
                let over = ks.iter().filter(|k| waits[**k].poll(**k, cx)).count();
                if over == ks.len() {
                    Poll::Ready(())
                } else {
                    Poll::Pending
                }
            })
            .await;
            let got = ks.iter().map(|k| match std::mem::replace(&mut waits[*k], Waiting::Gone) {
                Waiting::Over(r) => r,
                _ => bad("nothing to wait for"),
            });
            o! { t: s("ok"), got: J::A(got.collect()) }
        }
        "abandon" => {
            let k = q.at("slot").int() as usize;
            match guard(|| waits[k] = Waiting::Gone) {
                None => panicked(),
                Some(()) => ok,
            }
        }
        "fnf" => fnf(me!(), q),
        "push" => {
            let m = bytes_of(q.at("m"));
            match guard(|| me!().metadata_push(m)) {
                None => panicked(),
                Some(f) => result(Caught(Box::pin(f)).await),
            }
        }
        "close" => match guard(|| me!().close()) {
            None => panicked(),
            Some(()) => ok,
        },
        "occupy" => {
            hooks::occupy(me!(), pair_of(q.at("id")));
            ok
        }
        "release" => {
            hooks::release(me!(), pair_of(q.at("id")));
            ok
        }
        "refuse" => {
            w.lock().refusal = Refusal {
                left: q.at("left").int(),
                kind: q.at("kind").str().to_string(),
                cause: q.at("cause").opt().map(|c| c.str().to_string()),
            };
            ok
        }
        "answers" => {
            for a in q.at("list").arr() {
                let err = match a.at("t").str() {
                    "ok" => None,
                    _ => Some((
                        a.at("kind").str().to_string(),
                        a.at("cause").opt().map(|c| c.str().to_string()),
                    )),
                };
                w.lock().answers.push_back(Answer { err, after: a.at("after").int() as u64 });
            }
            ok
        }
        "status" => {
            let mut st = w.lock();
            for y in q.at("list").arr() {
                let y = status(y);
                st.current = y.clone();
                st.status.items.push_back(y);
            }
            let ws = std::mem::replace(&mut st.status.wakers, vec![]);
            drop(st);
            wake(ws);
            ok
        }
        "wake" => {
            let ws = std::mem::replace(&mut w.lock().status.wakers, vec![]);
            wake(ws);
            ok
        }
        "end" => {
            let mut st = w.lock();
            st.status.ended = true;
            let ws = std::mem::replace(&mut st.status.wakers, vec![]);
            drop(st);
            wake(ws);
            ok
        }
        "peer" => {
            let mut st = w.lock();
            st.frames.items.push_back(7);
            let ws = std::mem::replace(&mut st.frames.wakers, vec![]);
            drop(st);
            wake(ws);
            ok
        }
        "advance" => {
            let unit = w.lock().unit;
            tokio::time::sleep(Duration::from_millis(q.at("ms").int() as u64 * unit)).await;
            ok
        }
        // Until the connection is closed, or for a long time; once is enough of that.
        "until" => {
            static IN_VAIN: AtomicBool = AtomicBool::new(false);
            let wait = if IN_VAIN.load(Ordering::SeqCst) { 300 } else { 14_000 };
            let since = std::time::Instant::now();
            while !w.lock().closed {
                if since.elapsed() > Duration::from_millis(wait) {
                    IN_VAIN.store(true, Ordering::SeqCst);
                    break;
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            ok
        }
        "par" => {
            let calls = q.at("calls").arr();
            let at = w.lock().now();
            w.lock().frozen = at;
            w.lock().turns = q.at("turns").arr().iter().map(|t| t.int() as usize).collect();
            let hs: Vec<_> = calls
                .iter()
                .enumerate()
                .map(|(i, list)| {
                    let (list, mut c, w) = (list.clone(), me!().clone(), w.clone());
                    std::thread::spawn(move || {
                        CALLER.with(|x| x.set(i + 1));
                        EARS.with(|x| *x.borrow_mut() = Some(w));
                        J::A(list.arr().iter().map(|st| on_thread(&mut c, st)).collect())
                    })
                })
                .collect();
            let got = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| panicked())).collect();
            w.lock().turns.clear();
            o! { t: s("ok"), got: J::A(got) }
        }
        o => bad(o),
    }
}

/// A session, driven step by step.
pub struct Player {
    wire: Wire,
    begun: bool,
    handles: Vec<Option<Session>>,
    waits: Vec<Waiting>,
    receiver: Option<Receiver>,
    /// When the last step ended: time that passes for others does not count.
    last: Instant,
}

impl Player {
    /// The session of a first step "new".
    pub fn new(first: &J) -> Player {
        let wire = Wire(Arc::new((
            Mutex::new(State {
                start: Instant::now(),
                unit: first.get("unit").map_or(1, |x| x.int() as u64),
                frozen: 0,
                log: vec![],
                refusal: Refusal { left: -1, kind: String::new(), cause: None },
                answers: VecDeque::new(),
                status: Feed::new(),
                frames: Feed::new(),
                current: status(first.at("status")),
                turns: VecDeque::new(),
                sent: first.get("cuts").map(|_| vec![]),
                mute: false,
                real: real(first),
                closed: false,
            }),
            Condvar::new(),
        )));
        let receiver = first.get("cuts").map(|cuts| Receiver {
            kind: first.at("kind").str().to_string(),
            cuts: cuts.arr().to_vec(),
            streams: vec![],
        });
        Player { wire, begun: false, handles: vec![], waits: vec![], receiver, last: Instant::now() }
    }

    async fn start(&mut self, first: &J) -> J {
        let mtu = first.at("mtu").opt().map(|x| match x.int() {
            -1 => usize::MAX,
            -2 => (1 << 32) + 1,
            -3 => 1 << 63,
            k => k as usize,
        });
        let at = first.at("ids").opt().map(|x| pair_of(x) as i32);
        let unit = self.wire.lock().unit;
        let make = Session::new(
            first.at("server").bool(),
            self.wire.clone(),
            match first.get("life").map_or("", |x| x.str()) {
                "max" => Duration::MAX,
                "seconds" => Duration::from_secs(u64::MAX),
                "half" => Duration::from_secs(i64::MAX as u64),
                "millis" => Duration::from_millis(u64::MAX),
                "age" => Duration::from_secs(1 << 40),
                _ => Duration::from_millis(first.at("timeout").int() as u64 * unit),
            },
        );
        match Caught(Box::pin(make)).await {
            Some(mut x) => {
                hooks::configure(&mut x, mtu, at);
                self.handles.push(Some(x));
                self.begun = true;
                o! { t: s("ok") }
            }
            None => panicked(),
        }
    }

    /// One step; nothing if there is no session.
    pub async fn play(&mut self, st: &J) -> J {
        CALLER.with(|c| c.set(0));
        EARS.with(|x| *x.borrow_mut() = Some(self.wire.clone()));
        {
            let mut st = self.wire.lock();
            if !st.real {
                st.start += self.last.elapsed();
            }
        }
        let mut r = match self.begun {
            false => self.start(st).await,
            true => step(&mut self.handles, &mut self.waits, &self.wire, st).await,
        };
        if self.begun {
            settle().await;
            let mut st = self.wire.lock();
            if let (Some(x), J::O(v)) = (&mut self.receiver, &mut r) {
                let sent = st.sent.replace(vec![]).unwrap_or_default();
                let got = guard(|| sent.into_iter().filter_map(|(by, b)| x.take(by, b)).collect());
                let got = got.unwrap_or_else(|| vec![o! { p: n(0), odd: crate::json::s("panic") }]);
                v.push(("arrived".to_string(), J::A(got)));
                v.push(("open".to_string(), n(x.streams.len())));
            }
            if let J::O(v) = &mut r {
                v.push(("log".to_string(), J::A(std::mem::replace(&mut st.log, vec![]))));
                v.push(("polls".to_string(), n(std::mem::replace(&mut st.status.polls, 0))));
                v.push(("subs".to_string(), n(st.status.subs)));
                v.push(("now".to_string(), J::N(st.now())));
            }
        }
        self.last = Instant::now();
        r
    }

    /// From now on nothing is recorded.
    pub fn mute(&mut self) {
        self.wire.lock().mute = true;
    }

    pub fn forget(&mut self) {
        self.handles.truncate(1);
        self.handles.shrink_to_fit();
        self.wire.lock().status.subs = 1;
    }

    pub fn alive(&self) -> bool {
        self.begun
    }
}

pub fn runtime() -> tokio::runtime::Runtime {
    clock(true)
}

fn clock(paused: bool) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(paused)
        .build()
        .expect("runtime")
}

/// Whether a session runs on the machine's clock.
fn real(first: &J) -> bool {
    first.get("real").map_or(false, |x| x.bool())
}

pub fn silence() {
    EARS.with(|x| *x.borrow_mut() = None);
}

pub fn session(q: &J) -> J {
    let steps = q.at("steps").arr();
    let out = clock(!real(&steps[0])).block_on(async {
        let mut out = vec![];
        let mut p = Player::new(&steps[0]);
        for st in steps {
            out.push(p.play(st).await);
            if !p.alive() {
                break;
            }
        }
        out
    });
    silence();
    J::A(out)
}
