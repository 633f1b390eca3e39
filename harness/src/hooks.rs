//! What needs the hooks of the code under test, or stands in for them when it cannot be built with
//! them: what can be checked without still is.  Requests that need more are never made.
#![allow(unused_variables, unused_imports, dead_code, clippy::new_without_default)]

#[cfg(all(binate_verif, not(binate_verif_no_buf)))]
pub use binate::connection::verif::BufQueue;
#[cfg(any(not(binate_verif), binate_verif_no_buf))]
pub use self::queue::BufQueue;

#[cfg(all(binate_verif, not(binate_verif_no_session)))]
pub use binate::connection::verif::Session;
#[cfg(any(not(binate_verif), binate_verif_no_session))]
pub use self::session::Session;

#[cfg(all(binate_verif, not(binate_verif_no_error)))]
pub use binate::connection::verif::error;

/// Errors that can be made without the hooks.
#[cfg(any(not(binate_verif), binate_verif_no_error))]
pub fn error(kind: &str, source: Option<String>) -> binate::Error {
    use std::io;
    match kind {
        "Io" => io::Error::new(io::ErrorKind::Other, source.unwrap_or_default()).into(),
        _ => missing(),
    }
}

#[cfg(all(binate_verif, not(binate_verif_no_ids)))]
pub fn ids_from(init: i32) -> binate::connection::StreamIdProvider {
    binate::connection::StreamIdProvider::verif_starting_at(init)
}
#[cfg(any(not(binate_verif), binate_verif_no_ids))]
pub fn ids_from(init: i32) -> binate::connection::StreamIdProvider {
    missing()
}

#[cfg(all(binate_verif, not(binate_verif_bare), not(binate_verif_no_session)))]
mod fields {
    use super::Session;

    pub fn configure(x: &mut Session, mtu: Option<usize>, next_id: Option<i32>) {
        x.configure(mtu, next_id)
    }

    pub fn occupy(x: &Session, id: u32) {
        x.occupy(id)
    }

    pub fn release(x: &Session, id: u32) {
        x.release(id)
    }
}

#[cfg(any(not(binate_verif), binate_verif_bare, binate_verif_no_session))]
mod fields {
    use super::{missing, Session};

    pub fn configure(_: &mut Session, mtu: Option<usize>, next_id: Option<i32>) {
        if mtu.is_some() || next_id.is_some() {
            missing()
        }
    }

    pub fn occupy(_: &Session, _: u32) {
        missing()
    }

    pub fn release(_: &Session, _: u32) {
        missing()
    }
}

pub use fields::*;

fn missing() -> ! {
    crate::json::bad("hooks")
}

mod queue {
    use super::missing;
    use binate::frame::{DecodeError, Frame};
    use binate::Payload;
    use bytes::{Buf, Bytes, BytesMut};
    use std::collections::VecDeque;

    /// A buffer of several segments.
    pub struct BufQueue<T>(VecDeque<T>);

    impl<T: Buf> BufQueue<T> {
        pub fn new() -> Self {
            BufQueue(VecDeque::new())
        }

        pub fn push(&mut self, buf: T) {
            self.0.push_back(buf)
        }

        /// How a receiver of its own would put a message together.
        pub fn reassemble(self) -> std::result::Result<Payload, DecodeError> {
            let (mut meta, mut data) = (BytesMut::new(), BytesMut::new());
            for mut b in self.0 {
                let part = match Frame::decode(&mut b)? {
                    Frame::RequestFnf(f) => f.payload(),
                    Frame::Payload(f) => f.payload(),
                    _ => missing(),
                };
                let (m, d) = part.split();
                meta.extend_from_slice(&m.unwrap_or_default());
                data.extend_from_slice(&d.unwrap_or_default());
            }
            let part = |b: BytesMut| if b.is_empty() { None } else { Some(b.freeze()) };
            Ok(crate::link::payload(part(meta), part(data)))
        }
    }

    impl<T: Buf> Buf for BufQueue<T> {
        fn remaining(&self) -> usize {
            self.0.iter().map(|b| b.remaining()).sum()
        }

        fn chunk(&self) -> &[u8] {
            self.0.iter().find(|b| b.has_remaining()).map_or(&[], |b| b.chunk())
        }

        fn advance(&mut self, mut cnt: usize) {
            while cnt > 0 {
                let b = self.0.front_mut().expect("advance");
                let k = cnt.min(b.remaining());
                b.advance(k);
                cnt -= k;
                if !b.has_remaining() {
                    self.0.pop_front();
                }
            }
        }

        fn copy_to_bytes(&mut self, len: usize) -> Bytes {
            let mut v = BytesMut::with_capacity(len);
            while v.len() < len {
                let c = self.chunk();
                let k = c.len().min(len - v.len());
                v.extend_from_slice(&c[..k]);
                self.advance(k);
            }
            v.freeze()
        }
    }
}

mod session {
    use super::missing;
    use binate::connection::DuplexConnection;
    use binate::{Metadata, Mono, Payload, Result};
    use std::time::Duration;

    #[derive(Clone)]
    pub struct Session;

    impl Session {
        pub async fn new(
            server: bool,
            connection: impl DuplexConnection + 'static,
            keepalive_timeout: Duration,
        ) -> Session {
            missing()
        }

        pub fn fire_and_forget(&self, payload: Payload) -> Result<()> {
            missing()
        }
        pub fn metadata_push(&self, metadata: Metadata) -> Mono<Result<()>> {
            missing()
        }
        pub fn close(&mut self) {}
    }
}
