//! Frames: construction, encoding, decoding over every kind of buffer, relaying.
use crate::json::*;
use crate::objects::Machine;
use crate::util::*;
use crate::hooks::BufQueue;
use binate::frame::codec::*;
use binate::frame::{Decode, DecodeError, Encode, Flags, Frame, Version};
use binate::Payload;
use bytes::{Buf, Bytes, BytesMut};
use std::collections::VecDeque;

pub fn payload(m: Option<Bytes>, d: Option<Bytes>) -> Payload {
    let mut b = Payload::builder();
    if let Some(m) = m {
        b = b.set_metadata(m);
    }
    if let Some(d) = d {
        b = b.set_data(d);
    }
    b.build()
}

fn string(b: Bytes) -> String {
    String::from_utf8(b.to_vec()).unwrap_or_else(|_| bad("mime type is not UTF-8"))
}

fn flags(v: i64) -> Flags {
    let mut f = Flags::empty();
    for (bit, flag) in [
        (512, Flags::IGNORE),
        (256, Flags::METADATA),
        (128, Flags::FOLLOWS),
        (64, Flags::COMPLETE),
        (32, Flags::NEXT),
    ]
    .iter()
    {
        if v & bit != 0 {
            f |= *flag;
        }
    }
    f
}

/// The frame for a list of arguments.
pub fn make(a: &J) -> Frame {
    let sid = || u32_of(a.at("sid"));
    let num = |x: &str| u32_of(a.at(x));
    let pos = |x: &str| u64_of(a.at(x));
    let yes = |x: &str| a.at(x).bool();
    let part = |x: &str| opt_bytes(a.at(x));
    let pl = || payload(part("meta"), part("data"));
    let version = || Version::new(a.at("maj").int() as u16, a.at("min").int() as u16);
    match a.at("k").str() {
        "SETUP" => {
            let mut b = SetupFrame::builder()
                .set_version(a.at("maj").int() as u16, a.at("min").int() as u16)
                .set_keepalive_interval(num("ka"))
                .set_keepalive_timeout(num("lt"))
                .set_metadata_mimetype(string(bytes_of(a.at("mm"))))
                .set_data_mimetype(string(bytes_of(a.at("dm"))));
            if yes("resume") {
                b = b.set_resume_flag();
            }
            if yes("lease") {
                b = b.set_lease_flag();
            }
            if let Some(t) = part("tok") {
                b = b.set_resume_token(t);
            }
            if let Some(m) = part("meta") {
                b = b.set_metadata(m);
            }
            if let Some(d) = part("data") {
                b = b.set_data(d);
            }
            Frame::Setup(b.build())
        }
        "LEASE" => Frame::Lease(LeaseFrame::new(num("ttl"), num("n"), part("meta"))),
        "KEEPALIVE" => {
            Frame::Keepalive(KeepaliveFrame::new(pos("pos"), part("data"), yes("resp")))
        }
        "REQUEST_RESPONSE" => {
            Frame::RequestResponse(RequestResponseFrame::new(sid(), yes("follows"), pl()))
        }
        "REQUEST_FNF" => Frame::RequestFnf(RequestFnfFrame::new(sid(), yes("follows"), pl())),
        "REQUEST_STREAM" => Frame::RequestStream(RequestStreamFrame::new(
            sid(),
            yes("follows"),
            num("n"),
            pl(),
        )),
        "REQUEST_CHANNEL" => Frame::RequestChannel(RequestChannelFrame::new(
            sid(),
            yes("follows"),
            yes("complete"),
            num("n"),
            pl(),
        )),
        "REQUEST_N" => Frame::RequestN(RequestNFrame::new(sid(), num("n"))),
        "CANCEL" => Frame::Cancel(CancelFrame::new(sid())),
        "PAYLOAD" => Frame::Payload(PayloadFrame::new(sid(), flags(a.at("fl").int()), pl())),
        "ERROR" => Frame::Error(ErrorFrame::new(sid(), num("code"), part("data"))),
        "METADATA_PUSH" => Frame::MetadataPush(MetadataPushFrame::new(bytes_of(a.at("meta")))),
        "RESUME" => Frame::Resume(ResumeFrame::new(
            version(),
            bytes_of(a.at("tok")),
            pos("srv"),
            pos("cli"),
        )),
        "RESUME_OK" => Frame::ResumeOk(ResumeOkFrame::new(pos("pos"))),
        k => bad(k),
    }
}

/// What the accessors of a frame report.
pub fn view(f: &Frame) -> J {
    let mut v: Vec<(&str, J)> = Vec::new();
    macro_rules! put {
        ($($k:ident : $v:expr),* $(,)?) => {{ $( v.push((stringify!($k), $v)); )* }};
    }
    macro_rules! ver {
        ($f:expr) => {
            put! { maj: J::N($f.version().major() as i64), min: J::N($f.version().minor() as i64) }
        };
    }
    // The payload that is moved out has to agree with the borrowed parts.
    macro_rules! parts {
        ($f:expr, $m:expr, $d:expr) => {{
            let (m, d) = $f.clone().payload().split();
            let agree = m.as_ref() == $m && d.as_ref() == $d;
            put! { meta: opt_runs($m), data: opt_runs($d) }
            if !agree {
                put! { disagree: J::A(vec![opt_runs(m), opt_runs(d)]) }
            }
        }};
    }
    match f {
        Frame::Setup(f) => {
            put! {
                k: s("SETUP"),
                lease: J::B(f.is_lease()),
                resume: J::B(f.is_resume()),
                ka: millis(f.keepalive_interval()),
                lt: millis(f.keepalive_timeout()),
                tok: opt_runs(f.resume_token()),
                mm: opt_runs(f.metadata_mimetype()),
                dm: opt_runs(f.data_mimetype()),
            }
            ver!(f);
            parts!(f, f.metadata(), f.data());
        }
        Frame::Lease(f) => put! {
            k: s("LEASE"),
            ttl: millis(f.ttl()),
            n: o32(f.number_of_requests()),
            meta: opt_runs(f.metadata()),
        },
        Frame::Keepalive(f) => put! {
            k: s("KEEPALIVE"),
            resp: J::B(f.is_respond()),
            pos: o64(f.last_received_position()),
            data: opt_runs(f.data()),
        },
        Frame::RequestResponse(f) => {
            put! { k: s("REQUEST_RESPONSE"), sid: o32(f.stream_id()), follows: J::B(f.is_follows()) }
            parts!(f, f.metadata(), f.data());
        }
        Frame::RequestFnf(f) => {
            put! { k: s("REQUEST_FNF"), sid: o32(f.stream_id()), follows: J::B(f.is_follows()) }
            parts!(f, f.metadata(), f.request_data());
        }
        Frame::RequestStream(f) => {
            put! {
                k: s("REQUEST_STREAM"), sid: o32(f.stream_id()), follows: J::B(f.is_follows()),
                n: o32(f.initial_request_n()),
            }
            parts!(f, f.metadata(), f.data());
        }
        Frame::RequestChannel(f) => {
            put! {
                k: s("REQUEST_CHANNEL"), sid: o32(f.stream_id()), follows: J::B(f.is_follows()),
                complete: J::B(f.is_complete()), n: o32(f.initial_request_n()),
            }
            parts!(f, f.metadata(), f.data());
        }
        Frame::RequestN(f) => put! {
            k: s("REQUEST_N"), sid: o32(f.stream_id()), n: o32(f.request_n()),
        },
        Frame::Cancel(f) => put! { k: s("CANCEL"), sid: o32(f.stream_id()) },
        Frame::Payload(f) => {
            put! {
                k: s("PAYLOAD"), sid: o32(f.stream_id()), follows: J::B(f.is_follows()),
                complete: J::B(f.is_complete()), next: J::B(f.is_next()),
            }
            parts!(f, f.metadata(), f.data());
        }
        Frame::Error(f) => {
            put! {
                k: s("ERROR"), sid: o32(f.stream_id()), code: o32(f.error_code()),
                data: opt_runs(f.data()), utf8: J::B(f.data_utf8().is_some()),
            }
            if let Some(t) = f.data_utf8() {
                if Some(t.as_bytes()) != f.data().map(|d| &d[..]) {
                    put! { disagree: runs(t.as_bytes()) }
                }
            }
        }
        Frame::MetadataPush(f) => put! { k: s("METADATA_PUSH"), meta: runs(f.metadata()) },
        Frame::Resume(f) => {
            put! {
                k: s("RESUME"), tok: runs(f.resume_token()),
                srv: o64(f.last_received_server_position()),
                cli: o64(f.first_available_client_position()),
            }
            ver!(f);
        }
        Frame::ResumeOk(f) => put! {
            k: s("RESUME_OK"), pos: o64(f.last_received_server_position()),
        },
    }
    obj(v)
}

pub fn error(e: &DecodeError) -> J {
    match e {
        DecodeError::InComplete => o! { e: s("incomplete") },
        DecodeError::UnrecognizedFrameType(c) => o! { e: s("type"), code: J::N(*c as i64) },
        DecodeError::InvalidStreamId { expected, found } => {
            o! { e: s("sid"), exp: s(expected), found: o32(*found) }
        }
        _ => o! { e: s("other") },
    }
}

fn err(e: &DecodeError) -> J {
    o! { t: s("err"), err: error(e) }
}

pub fn encoded<E: Encode>(x: &E) -> (BytesMut, bool) {
    let prefix = [1u8, 0, 255, 7];
    let mut buf = BytesMut::from(&prefix[..]);
    x.encode(&mut buf);
    let pre = buf.len() >= 4 && buf[..4] == prefix;
    let body = if buf.len() >= 4 { buf.split_off(4) } else { BytesMut::new() };
    (body, pre)
}

/// What holds of a frame, asked of the frame of its kind.
macro_rules! each_kind {
    ($f:expr, |$x:ident| $body:expr) => {
        match $f {
            Frame::Setup($x) => $body,
            Frame::Lease($x) => $body,
            Frame::Keepalive($x) => $body,
            Frame::RequestResponse($x) => $body,
            Frame::RequestFnf($x) => $body,
            Frame::RequestStream($x) => $body,
            Frame::RequestChannel($x) => $body,
            Frame::RequestN($x) => $body,
            Frame::Cancel($x) => $body,
            Frame::Payload($x) => $body,
            Frame::Error($x) => $body,
            Frame::MetadataPush($x) => $body,
            Frame::Resume($x) => $body,
            Frame::ResumeOk($x) => $body,
        }
    };
}

/// Constructs and encodes a frame.
fn send(a: &J) -> (J, Bytes) {
    guard(|| {
        let f = make(a);
        let (b, pre) = encoded(&f);
        let tob = f.to_bytes() == b;
        let own = each_kind!(&f, |x| {
            x.len() == f.len() && x.is_empty() == f.is_empty() && encoded(x).0 == b && x.to_bytes() == b
        });
        let r = o! {
            t: s("ok"), acc: view(&f), len: n(f.len()), b: runs(&b), tob: J::B(tob && own),
            pre: J::B(pre), empty: J::B(f.is_empty()),
        };
        (r, b.freeze())
    })
    .unwrap_or_else(|| {
        // What is refused is refused on every way.
        let r = match guard(|| make(a).to_bytes()) {
            None => panicked(),
            Some(b) => o! { t: s("odd"), b: runs(&b) },
        };
        (r, Bytes::new())
    })
}

fn recv(mut b: Bytes, a: Option<&J>) -> J {
    let made = a.and_then(|a| guard(|| make(a)));
    guard(|| match Frame::decode(&mut b) {
        Ok(f) => o! {
            t: s("ok"), acc: view(&f), rem: n(b.remaining()),
            eq: J::B(a.is_none() || made.as_ref() == Some(&f)),
        },
        Err(e) => err(&e),
    })
    .unwrap_or_else(panicked)
}

/// Decodes what follows a header as a frame of the given kind.
fn body(mut b: Bytes, k: &str, sid: u32, fl: i64) -> J {
    guard(move || {
        b.advance(b.len().min(6));
        let fl = flags(fl);
        macro_rules! as_kind {
            ($frame:ident, $t:ident) => {
                $t::decode(&mut b, sid, fl).map(Frame::$frame)
            };
        }
        let r = match k {
            "SETUP" => as_kind!(Setup, SetupFrame),
            "LEASE" => as_kind!(Lease, LeaseFrame),
            "KEEPALIVE" => as_kind!(Keepalive, KeepaliveFrame),
            "REQUEST_RESPONSE" => as_kind!(RequestResponse, RequestResponseFrame),
            "REQUEST_FNF" => as_kind!(RequestFnf, RequestFnfFrame),
            "REQUEST_STREAM" => as_kind!(RequestStream, RequestStreamFrame),
            "REQUEST_CHANNEL" => as_kind!(RequestChannel, RequestChannelFrame),
            "REQUEST_N" => as_kind!(RequestN, RequestNFrame),
            "CANCEL" => as_kind!(Cancel, CancelFrame),
            "PAYLOAD" => as_kind!(Payload, PayloadFrame),
            "ERROR" => as_kind!(Error, ErrorFrame),
            "METADATA_PUSH" => as_kind!(MetadataPush, MetadataPushFrame),
            "RESUME" => as_kind!(Resume, ResumeFrame),
            "RESUME_OK" => as_kind!(ResumeOk, ResumeOkFrame),
            k => bad(k),
        };
        match r {
            Ok(f) => o! {
                t: s("ok"), acc: view(&f), rem: n(b.remaining()), eq: J::B(true),
            },
            Err(e) => err(&e),
        }
    })
    .unwrap_or_else(panicked)
}

/// A segment made of several chunks.
#[derive(Clone)]
pub struct Multi(pub VecDeque<Bytes>);

impl Buf for Multi {
    fn remaining(&self) -> usize {
        self.0.iter().map(|b| b.len()).sum()
    }
    fn chunk(&self) -> &[u8] {
        self.0.front().map(|b| &b[..]).unwrap_or_default()
    }
    fn advance(&mut self, mut cnt: usize) {
        assert!(cnt <= self.remaining());
        while cnt > 0 {
            let k = cnt.min(self.0[0].len());
            self.0[0].advance(k);
            cnt -= k;
            if self.0[0].is_empty() {
                self.0.pop_front();
            }
        }
    }
    fn chunks_vectored<'t>(&'t self, dst: &mut [std::io::IoSlice<'t>]) -> usize {
        let k = dst.len().min(self.0.len());
        for (d, b) in dst.iter_mut().zip(self.0.iter()) {
            *d = std::io::IoSlice::new(b);
        }
        k
    }
}

pub fn pieces(b: &Bytes, cuts: &[J]) -> Vec<Bytes> {
    let mut v = Vec::new();
    let mut at = 0;
    for c in cuts.iter().map(|c| c.int() as usize).chain(Some(b.len())) {
        let c = c.min(b.len());
        if c > at {
            v.push(b.slice(at..c));
            at = c;
        }
    }
    v
}

fn decode_rest<B: Buf>(mut buf: B) -> J {
    guard(move || {
        let r = Frame::decode(&mut buf);
        let left = buf.remaining();
        match r {
            Ok(f) => {
                let mut rest = Vec::new();
                while buf.has_remaining() {
                    let c = buf.chunk().to_vec();
                    assert!(!c.is_empty());
                    buf.advance(c.len());
                    rest.extend_from_slice(&c);
                }
                o! { t: s("ok"), acc: view(&f), enc: runs(&f.to_bytes()), rem: n(left), rest: runs(&rest) }
            }
            Err(e) => o! { t: s("err"), err: error(&e), rem: n(left) },
        }
    })
    .unwrap_or_else(panicked)
}

/// Decodes the same bytes from one buffer and from segmented ones.
fn seg(b: Bytes, cuts: &[J]) -> J {
    let ps = pieces(&b, cuts);
    let base = decode_rest(b.clone());
    let mut outs = Vec::new();
    outs.push(decode_rest(&b[..]));
    let mut queue = BufQueue::new();
    for p in &ps {
        queue.push(p.clone());
    }
    outs.push(decode_rest(queue));
    let mut queue = BufQueue::new();
    for p in ps.chunks(2) {
        queue.push(Multi(p.iter().cloned().collect()));
    }
    outs.push(decode_rest(queue));
    outs.push(decode_rest(Multi(ps.iter().cloned().collect())));
    if ps.len() >= 2 {
        let rest = Multi(ps[1..].iter().cloned().collect());
        outs.push(decode_rest(ps[0].clone().chain(rest)));
        // A ring buffer whose contents wrap around.
        let mut ring: VecDeque<u8> = VecDeque::with_capacity(b.len());
        let room = ring.capacity();
        let lead = room - ps[0].len().min(room);
        ring.extend(std::iter::repeat(0).take(lead));
        ring.drain(..lead);
        ring.extend(b.iter());
        outs.push(decode_rest(ring));
    }
    let mut distinct: Vec<J> = Vec::new();
    for r in outs {
        if !distinct.contains(&r) {
            distinct.push(r);
        }
    }
    o! { t: s("ok"), base: base, outs: J::A(distinct) }
}

fn relay(mut b: Bytes) -> (J, Option<Bytes>) {
    guard(|| match Frame::decode(&mut b) {
        Ok(f) => {
            let (e, _) = encoded(&f);
            let e = e.freeze();
            let mut e2 = e.clone();
            let (acc2, same, rem2) = match Frame::decode(&mut e2) {
                Ok(g) => (view(&g), g == f, e2.remaining()),
                Err(x) => (error(&x), false, e2.remaining()),
            };
            let r = o! {
                t: s("ok"), acc: view(&f), acc2: acc2, same: J::B(same), rem2: n(rem2),
                b: runs(&e), len: n(f.len()),
            };
            (r, Some(e))
        }
        Err(e) => (err(&e), None),
    })
    .unwrap_or_else(|| (panicked(), None))
}

/// A channel of datagrams: each step is performed on the real code, its result recorded.
pub fn link() -> Machine {
    let mut chan: VecDeque<(Bytes, Option<J>)> = VecDeque::new();
    Box::new(move |st| match st.at("o").str() {
        "send" => {
            let a = st.at("a");
            let (r, b) = send(a);
            if r.at("t").str() == "ok" {
                chan.push_back((b, Some(a.clone())));
            }
            r
        }
        "inject" => {
            chan.push_back((bytes_of(st.at("b")), None));
            o! { t: s("ok") }
        }
        // Cut after the given permille of the datagram, or change one of its bytes.
        "cut" => match chan.front_mut() {
            Some((b, a)) if !b.is_empty() => {
                let k = (b.len() as i64 * st.at("f").int() / 1000).min(b.len() as i64 - 1);
                b.truncate(k as usize);
                *a = None;
                o! { t: s("ok"), n: J::N(k) }
            }
            _ => o! { t: s("none") },
        },
        "poke" => match chan.front_mut() {
            Some((b, a)) if !b.is_empty() => {
                let i = (st.at("i").int() as usize) % b.len();
                let mut v = b.to_vec();
                v[i] = st.at("v").int() as u8;
                *b = Bytes::from(v);
                *a = None;
                o! { t: s("ok"), i: n(i + 1) }
            }
            _ => o! { t: s("none") },
        },
        "relay" => match chan.front_mut() {
            Some((b, _)) => {
                let (r, e) = relay(b.clone());
                if let Some(e) = e {
                    *b = e;
                }
                r
            }
            None => o! { t: s("none") },
        },
        "seg" => match chan.front() {
            Some((b, _)) => seg(b.clone(), st.at("cuts").arr()),
            None => o! { t: s("none") },
        },
        "body" => match chan.front() {
            Some((b, _)) => {
                body(b.clone(), st.at("k").str(), u32_of(st.at("sid")), st.at("fl").int())
            }
            None => o! { t: s("none") },
        },
        "recv" => match chan.pop_front() {
            Some((b, a)) => recv(b, a.as_ref()),
            None => o! { t: s("none") },
        },
        x => bad(x),
    })
}

/// Frames compared.
pub fn twins() -> Machine {
    Box::new(move |st| match st.at("o").str() {
        "frames" => {
            let (f, g) = (make(st.at("a")), make(st.at("b")));
            let c = f.clone();
            let small = f.len() + g.len() < 2000;
            let text = small && (format!("{:?}", f) == format!("{:?}", c) && !format!("{:#?}", g).is_empty());
            let (e1, e2) = (f.to_bytes(), g.to_bytes());
            let (mut b1, mut b2) = (e1.clone(), e2.clone());
            let read = match (Frame::decode(&mut b1), Frame::decode(&mut b2)) {
                (Ok(x), Ok(y)) => J::A(vec![J::B(x == y), J::B(y == x), J::B(x == x.clone())]),
                _ => J::A(vec![]),
            };
            o! {
                t: s("ok"), ab: J::B(f == g), ba: J::B(g == f), ne: J::B(f != g),
                own: J::B(f == c && c == f && !(f != c)), acc: J::B(view(&c) == view(&f)),
                wire: J::B(e1 == e2), read: read, text: J::B(text || !small),
            }
        }
        "payloads" => {
            let p = payload(opt_bytes(st.at("m")), opt_bytes(st.at("d")));
            let q = payload(opt_bytes(st.at("m2")), opt_bytes(st.at("d2")));
            let c = p.clone();
            o! {
                t: s("ok"), ab: J::B(p == q), ba: J::B(q == p), ne: J::B(p != q),
                own: J::B(p == c && c == p && !(p != c)),
            }
        }
        "values" => crate::tables::twins(st),
        x => bad(x),
    })
}
