//! Byte strings as runs, integers as octets, panics as data.
use crate::json::{bad, n, J};
use bytes::Bytes;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// `[[value, count], ...]` to bytes.
pub fn bytes_of(j: &J) -> Bytes {
    let mut v: Vec<u8> = Vec::new();
    for r in j.arr() {
        let r = r.arr();
        v.resize(v.len() + r[1].int() as usize, r[0].int() as u8);
    }
    Bytes::from(v)
}

pub fn opt_bytes(j: &J) -> Option<Bytes> {
    j.opt().map(bytes_of)
}

/// Bytes to runs in normal form.
pub fn runs(b: &[u8]) -> J {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let x = b[i];
        let mut j = i + 1;
        while j < b.len() && b[j] == x {
            j += 1;
        }
        v.push(J::A(vec![J::N(x as i64), n(j - i)]));
        i = j;
    }
    J::A(v)
}

pub fn opt_runs<B: AsRef<[u8]>>(b: Option<B>) -> J {
    J::A(b.iter().map(|b| runs(b.as_ref())).collect())
}

fn num(j: &J, w: usize) -> u64 {
    let a = j.arr();
    if a.len() != w {
        bad("octet count")
    }
    a.iter().fold(0, |acc, o| acc << 8 | o.int() as u64)
}
pub fn u32_of(j: &J) -> u32 {
    num(j, 4) as u32
}
pub fn u64_of(j: &J) -> u64 {
    num(j, 8)
}
fn octets(b: &[u8]) -> J {
    J::A(b.iter().map(|x| J::N(*x as i64)).collect())
}
pub fn o32(v: u32) -> J {
    octets(&v.to_be_bytes())
}
pub fn o64(v: u64) -> J {
    octets(&v.to_be_bytes())
}
/// A millisecond count, in four octets if it fits.
pub fn millis(d: std::time::Duration) -> J {
    let ms = d.as_millis();
    if d.subsec_nanos() % 1_000_000 == 0 && ms <= u32::MAX as u128 {
        o32(ms as u32)
    } else {
        o64(d.as_nanos() as u64)
    }
}

/// `[high 16 bits, low 16 bits]`.
pub fn pair(v: u32) -> J {
    J::A(vec![J::N((v >> 16) as i64), J::N((v & 0xFFFF) as i64)])
}
pub fn pair_of(j: &J) -> u32 {
    let a = j.arr();
    ((a[0].int() as u32) << 16) | a[1].int() as u32
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

pub fn panicked() -> J {
    o! { t: crate::json::s("panic") }
}
