//! A field that cannot be decoded.
#![allow(dead_code, unused_imports)]
use scale_decode::DecodeAsType;
#[derive(DecodeAsType)]
pub struct S {
    pub a: u8,
    pub b: No,
}
#[cfg_attr(feature = "control", derive(DecodeAsType))]
pub struct No;
fn main() {}
