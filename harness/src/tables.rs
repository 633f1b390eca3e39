//! Lookups without state: mime types, errors, frame types and flags, small integers, versions.
use crate::json::*;
use crate::objects::Machine;
use crate::util::*;
use crate::hooks;
use binate::frame::codec::*;
use binate::frame::{DecodeError, Encode, Flags, Frame, FrameType, Version, U24};
use binate::mimetype::WellKnownMimeType as M;
use binate::{Code, Error};
use bytes::{BufMut, BytesMut};
use std::cmp::Ordering;
use std::io;

#[rustfmt::skip]
const MIMES: [M; 48] = [
    M::UNPARSEABLE, M::APPLICATION_AVRO, M::APPLICATION_CBOR, M::APPLICATION_GRAPHQL,
    M::APPLICATION_GZIP, M::APPLICATION_JAVASCRIPT, M::APPLICATION_JSON,
    M::APPLICATION_OCTET_STREAM, M::APPLICATION_PDF, M::APPLICATION_VND_APACHE_THRIFT_BINARY,
    M::APPLICATION_VND_GOOGLE_PROTOBUF, M::APPLICATION_XML, M::APPLICATION_ZIP, M::AUDIO_AAC,
    M::AUDIO_MP3, M::AUDIO_MP4, M::AUDIO_MPEG3, M::AUDIO_MPEG, M::AUDIO_OGG, M::AUDIO_OPUS,
    M::AUDIO_VORBIS, M::IMAGE_BMP, M::IMAGE_GIF, M::IMAGE_HEIC_SEQUENCE, M::IMAGE_HEIC,
    M::IMAGE_HEIF_SEQUENCE, M::IMAGE_HEIF, M::IMAGE_JPEG, M::IMAGE_PNG, M::IMAGE_TIFF,
    M::MULTIPART_MIXED, M::TEXT_CSS, M::TEXT_CSV, M::TEXT_HTML, M::TEXT_PLAIN, M::TEXT_XML,
    M::VIDEO_H264, M::VIDEO_H265, M::VIDEO_VP8, M::APPLICATION_X_HESSIAN,
    M::APPLICATION_X_JAVA_OBJECT, M::APPLICATION_CLOUDEVENTS_JSON,
    M::MESSAGE_X_RSOCKET_MIME_TYPE_V0, M::MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0,
    M::MESSAGE_X_RSOCKET_AUTHENTICATION_V0, M::MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0,
    M::MESSAGE_X_RSOCKET_ROUTING_V0, M::MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0,
];

const TYPES: [FrameType; 15] = [
    FrameType::SETUP,
    FrameType::LEASE,
    FrameType::KEEPALIVE,
    FrameType::REQUEST_RESPONSE,
    FrameType::REQUEST_FNF,
    FrameType::REQUEST_STREAM,
    FrameType::REQUEST_CHANNEL,
    FrameType::REQUEST_N,
    FrameType::CANCEL,
    FrameType::PAYLOAD,
    FrameType::ERROR,
    FrameType::METADATA_PUSH,
    FrameType::RESUME,
    FrameType::RESUME_OK,
    FrameType::EXT,
];

const IO: [io::ErrorKind; 21] = {
    use io::ErrorKind::*;
    [
        Other, NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, ConnectionAborted,
        NotConnected, AddrInUse, AddrNotAvailable, BrokenPipe, AlreadyExists, WouldBlock,
        InvalidInput, InvalidData, TimedOut, WriteZero, Interrupted, UnexpectedEof, Unsupported,
        OutOfMemory, HostUnreachable,
    ]
};

const CODES: [Code; 10] = [
    Code::InvalidSetup,
    Code::UnsupportedSetup,
    Code::RejectedSetup,
    Code::RejectedResume,
    Code::ConnectionError,
    Code::ConnectionClose,
    Code::ApplicationError,
    Code::Rejected,
    Code::Canceled,
    Code::Invalid,
];

fn name<T: std::fmt::Debug>(v: T) -> J {
    s(&format!("{:?}", v))
}

pub fn queries(e: &Error) -> J {
    let all = [
        ("decode", e.is_decode()),
        ("protocol", e.is_protocol()),
        ("setup", e.is_setup()),
        ("InvalidSetup", e.is_invalid_setup()),
        ("UnsupportedSetup", e.is_unsupported_setup()),
        ("RejectedSetup", e.is_rejected_setup()),
        ("RejectedResume", e.is_rejected_resume()),
        ("ConnectionError", e.is_connection_error()),
        ("ConnectionClose", e.is_connection_close()),
        ("ApplicationError", e.is_application_error()),
        ("Rejected", e.is_rejected()),
        ("Canceled", e.is_cancel()),
        ("Invalid", e.is_invalid()),
    ];
    // The names of the queries that answer yes.
    J::A(all.iter().filter(|x| x.1).map(|x| s(x.0)).collect())
}

/// How an ERROR frame with this code on the given stream is received.
fn on_stream(id: u32, code: u32) -> J {
    let mut b = BytesMut::new();
    b.put_u32(id);
    b.put_u16(0x0B << 10);
    b.put_u32(code);
    let mut b = b.freeze();
    match Frame::decode(&mut b) {
        Ok(Frame::Error(f)) if f.stream_id() == id && f.error_code() == code => s("ok"),
        Ok(_) => s("other"),
        Err(DecodeError::InvalidStreamId { .. }) => s("sid"),
        Err(_) => s("other"),
    }
}

/// The results of f over 0..n as runs of equal results: [[result, count], ...].
fn over(n: u32, f: impl Fn(u32) -> J) -> J {
    let mut v: Vec<(J, i64)> = Vec::new();
    for i in 0..n {
        let x = guard(|| f(i)).unwrap_or_else(|| s("panic"));
        match v.last_mut() {
            Some((y, k)) if *y == x => *k += 1,
            _ => v.push((x, 1)),
        }
    }
    J::A(v.into_iter().map(|(x, k)| J::A(vec![x, J::N(k)])).collect())
}

/// Where f(i) - i is constant: [[difference, count], ...] over lo..hi.
fn shifts(lo: u32, hi: u32, f: impl Fn(u32) -> i64) -> J {
    let mut v: Vec<(i64, i64)> = Vec::new();
    for i in lo..hi {
        let x = guard(|| f(i)).map_or(i64::from(i32::MIN), |y| y - i64::from(i));
        match v.last_mut() {
            Some((y, k)) if *y == x => *k += 1,
            _ => v.push((x, 1)),
        }
        if v.len() > 1000 {
            break;
        }
    }
    J::A(v.into_iter().map(|(x, k)| J::A(vec![J::N(x), J::N(k)])).collect())
}

fn route(r: &str, v: u32) -> i64 {
    let split = || U24::new((v >> 16) as u8, v as u16);
    let enc = |x: U24| {
        let b = x.to_bytes();
        if b.len() == 3 {
            i64::from(b[0]) << 16 | i64::from(b[1]) << 8 | i64::from(b[2])
        } else {
            -1
        }
    };
    match r {
        "u32-u32" => i64::from(U24::from_u32(v).into_u32()),
        "u32-usize" => U24::from_u32(v).into_usize() as i64,
        "usize-u32" => i64::from(U24::from_usize(v as usize).into_u32()),
        "usize-usize" => U24::from_usize(v as usize).into_usize() as i64,
        "parts-u32" => i64::from(split().into_u32()),
        "parts-usize" => split().into_usize() as i64,
        "u32-bytes" => enc(U24::from_u32(v)),
        "usize-bytes" => enc(U24::from_usize(v as usize)),
        "parts-bytes" => enc(split()),
        x => bad(x),
    }
}

/// A decode error by what it is about.
fn fault(j: &J) -> DecodeError {
    match j.at("e").str() {
        "InComplete" => DecodeError::InComplete,
        "UnrecognizedFrameType" => DecodeError::UnrecognizedFrameType(j.at("code").int() as u16),
        _ => DecodeError::InvalidStreamId {
            expected: match j.at("want").str() {
                "0" => "0",
                "non-zero" => "non-zero",
                _ => "> 0",
            },
            found: j.at("got").int() as u32,
        },
    }
}

fn compared<T: PartialEq + Clone + std::fmt::Debug>(f: T, g: T) -> J {
    let c = f.clone();
    let text = format!("{:?}", f) == format!("{:?}", c) && !format!("{:#?}", g).is_empty();
    o! {
        t: s("ok"), ab: J::B(f == g), ba: J::B(g == f), ne: J::B(f != g),
        own: J::B(f == c && c == f && !(f != c) && text),
    }
}

/// Two small values of one kind.
pub fn twins(st: &J) -> J {
    let (a, b) = (st.at("a"), st.at("b"));
    match st.at("k").str() {
        "fault" => compared(fault(a), fault(b)),
        "status" => compared(crate::session::status(a), crate::session::status(b)),
        "version" => compared(version(a), version(b)),
        "u24" => compared(U24::from_u32(a.int() as u32), U24::from_u32(b.int() as u32)),
        "code" => compared(CODES[a.int() as usize], CODES[b.int() as usize]),
        "mime" => compared(MIMES[a.int() as usize], MIMES[b.int() as usize]),
        "type" => compared(TYPES[a.int() as usize], TYPES[b.int() as usize]),
        "flags" => compared(Flags::from_bits_truncate(a.int() as u16), Flags::from_bits_truncate(b.int() as u16)),
        x => bad(x),
    }
}

fn version(j: &J) -> Version {
    let a = j.arr();
    Version::new(a[0].int() as u16, a[1].int() as u16)
}

fn sign(c: Option<Ordering>) -> J {
    J::N(match c {
        Some(Ordering::Less) => -1,
        Some(Ordering::Equal) => 0,
        Some(Ordering::Greater) => 1,
        None => 2,
    })
}

fn look(st: &J) -> J {
    match st.at("o").str() {
        // C23
        "mime" => {
            let m = MIMES[st.at("i").int() as usize];
            let t: &'static str = m.into();
            o! { t: s("ok"), name: name(m), text: s(t), back: name(M::from(t)) }
        }
        "parse" => {
            let m: M = st.at("text").str().into();
            let t: &'static str = m.into();
            o! { t: s("ok"), name: name(m), text: s(t) }
        }
        // C24
        "error" => {
            let src = st.at("src").opt().map(|x| x.str().to_string());
            let mut said = None;
            let decoding = |said: &mut Option<String>, e: DecodeError| {
                *said = Some(e.to_string());
                Error::from(e)
            };
            let mut system = None;
            let e = match st.at("kind").str() {
                "Io" => {
                    let kind = IO[st.at("about").at("io").int() as usize];
                    let e = match &src {
                        Some(x) => io::Error::new(kind, x.clone()),
                        // One of the system, or one of a kind only.
                        None => match st.at("about").at("os").int() {
                            0 => io::Error::from(kind),
                            os => io::Error::from_raw_os_error(os as i32),
                        },
                    };
                    if src.is_none() {
                        said = Some(e.to_string());
                    }
                    system = Some((e.kind(), e.raw_os_error()));
                    Error::from(e)
                }
                "InComplete" | "UnrecognizedFrameType" | "InvalidStreamId" => {
                    let mut about = st.at("about").clone();
                    if let J::O(m) = &mut about {
                        m.push(("e".to_string(), st.at("kind").clone()));
                    }
                    decoding(&mut said, fault(&about))
                }
                k => hooks::error(k, src),
            };
            let source = std::error::Error::source(&e);
            // A fault of the system stays the cause itself, not only its text.
            let same = system.map_or(true, |x| {
                let y = source.and_then(|y| y.downcast_ref::<io::Error>());
                y.map(|y| (y.kind(), y.raw_os_error())) == Some(x)
            });
            let cause = source.map(|x| x.to_string());
            // Printed for debugging, it says something.
            let shown = !format!("{:?}", e).is_empty() && !format!("{:#?}", e).is_empty();
            o! { t: s("ok"), same: J::B(same), shown: J::B(shown), yes: queries(&e), text: s(&e.to_string()),
                 cause: opt(cause.map(|c| s(&c))), said: opt(said.map(|c| s(&c))) }
        }
        // The codes ErrorFrame names itself.
        "own" => {
            let v = [
                ErrorFrame::INVALID_SETUP,
                ErrorFrame::UNSUPPORTED_SETUP,
                ErrorFrame::REJECTED_SETUP,
                ErrorFrame::REJECTED_RESUME,
                ErrorFrame::CONNECTION_ERROR,
                ErrorFrame::CONNECTION_CLOSE,
                ErrorFrame::APPLICATION_ERROR,
                ErrorFrame::REJECTED,
                ErrorFrame::CANCELED,
                ErrorFrame::INVALID,
                ErrorFrame::MIN_APPLICATION_ERROR_CODE,
                ErrorFrame::MAX_APPLICATION_ERROR_CODE,
            ];
            o! { t: s("ok"), nums: J::A(v.iter().map(|x| o32(*x)).collect()) }
        }
        "code" => {
            let c = CODES[st.at("i").int() as usize];
            let v = c as u32;
            o! { t: s("ok"), name: name(c), num: o32(v), zero: on_stream(0, v), one: on_stream(1, v),
                 made: o32(ErrorFrame::new(1, v, None).error_code()) }
        }
        // C25
        "type" => {
            let t = TYPES[st.at("i").int() as usize];
            o! { t: s("ok"), name: name(t), value: J::N(t.value() as i64), bits: J::N(t.bits() as i64),
                 fromv: opt(FrameType::from_value(t.value()).map(name)),
                 fromb: opt(FrameType::from_bits(t.bits()).map(name)) }
        }
        // The types and stream ids the kinds of frames name themselves.
        "own-types" => {
            o! { t: s("ok"), types: J::A([
                    SetupFrame::TYPE, KeepaliveFrame::TYPE, RequestResponseFrame::TYPE,
                    RequestFnfFrame::TYPE, RequestStreamFrame::TYPE, RequestChannelFrame::TYPE,
                    RequestNFrame::TYPE, CancelFrame::TYPE, PayloadFrame::TYPE, ErrorFrame::TYPE,
                    MetadataPushFrame::TYPE,
                 ].iter().map(|t| name(*t)).collect()),
                 ids: J::A([
                    SetupFrame::STREAM_ID, LeaseFrame::STREAM_ID, KeepaliveFrame::STREAM_ID,
                    MetadataPushFrame::STREAM_ID, ResumeFrame::STREAM_ID, ResumeOkFrame::STREAM_ID,
                 ].iter().map(|x| o32(*x)).collect()) }
        }
        "values" => {
            o! { t: s("ok"), runs: over(64, |v| opt(FrameType::from_value(v as u16).map(name))) }
        }
        "words" => {
            o! { t: s("ok"), runs: over(65536, |w| opt(FrameType::from_bits(w as u16).map(name))) }
        }
        "flags" => {
            let f = Flags::from_bits_truncate(st.at("w").int() as u16);
            let is = [
                ("ignore", f.is_ignore()),
                ("metadata", f.is_metadata()),
                ("follows", f.is_follows()),
                ("resume", f.is_resume()),
                ("respond", f.is_respond()),
                ("complete", f.is_complete()),
                ("lease", f.is_lease()),
                ("next", f.is_next()),
            ];
            o! { t: s("ok"), bits: J::N(f.bits() as i64),
                 is: J::A(is.iter().filter(|x| x.1).map(|x| s(x.0)).collect()) }
        }
        // C26
        "u24" => {
            let r = st.at("route").str();
            o! { t: s("ok"), runs: shifts(st.at("lo").int() as u32, st.at("hi").int() as u32, |v| route(r, v)) }
        }
        "u24over" => {
            let v = u64_of(st.at("v"));
            let x = match st.at("route").str() {
                "u32" => U24::from_u32(v as u32),
                _ => U24::from_usize(v as usize),
            };
            o! { t: s("ok"), v: J::N(x.into_u32() as i64) }
        }
        "limits" => {
            let v = Version::default();
            let max = binate::frame::MAX_U63;
            o! { t: s("ok"), maj: J::N(v.major() as i64), min: J::N(v.minor() as i64),
                 u24: J::N(U24::MAX as i64), u31: o32(binate::frame::MAX_U31),
                 u63: J::A(vec![o32((max >> 32) as u32), o32(max as u32)]) }
        }
        "versions" => {
            let (a, b) = (version(st.at("a")), version(st.at("b")));
            o! { t: s("ok"), maj: J::N(a.major() as i64), min: J::N(a.minor() as i64),
                 text: s(&a.to_string()), enc: runs(&a.to_bytes()),
                 cmp: sign(Some(a.cmp(&b))), pcmp: sign(a.partial_cmp(&b)),
                 lt: J::B(a < b), le: J::B(a <= b), gt: J::B(a > b), ge: J::B(a >= b), eq: J::B(a == b),
                 max: J::A(vec![J::N(a.max(b).major() as i64), J::N(a.max(b).minor() as i64)]) }
        }
        x => bad(x),
    }
}

pub fn tables() -> Machine {
    Box::new(|st| guard(|| look(st)).unwrap_or_else(panicked))
}
