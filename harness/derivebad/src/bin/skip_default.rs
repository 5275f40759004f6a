//! A field without a default cannot be skipped.
#![allow(dead_code, unused_imports)]
use scale_decode::DecodeAsType;
#[derive(DecodeAsType)]
pub struct S {
    pub a: u8,
    #[decode_as_type(skip)]
    pub b: No,
}
#[cfg_attr(feature = "control", derive(Default))]
pub struct No;
fn main() {}
