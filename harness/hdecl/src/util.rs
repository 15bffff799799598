//! Helpers shared by the harnesses.
#![allow(dead_code)]
use crate::sym;

/// Byte equality as one formula (no early exit).
pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn str_eq(a: &str, b: &str) -> bool {
    bytes_eq(a.as_bytes(), b.as_bytes())
}
pub fn opt_eq(a: Option<&str>, b: Option<&str>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => str_eq(a, b),
        (None, None) => true,
        _ => false,
    }
}
/// A string of `n` arbitrary 7-bit characters.
pub fn string(n: usize, tag: &str) -> String {
    let mut v = Vec::with_capacity(n);
    for i in 0..n {
        v.push(sym::u8(&format!("{tag}{i}")) & 0x7f);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
