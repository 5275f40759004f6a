//! A union cannot be decoded.
#![allow(dead_code, unused_imports)]
use scale_decode::DecodeAsType;
#[cfg(not(feature = "control"))]
#[derive(DecodeAsType)]
pub union U {
    pub a: u8,
    pub b: u16,
}
fn main() {}
