//! A field without a default cannot be skipped.
#![allow(dead_code, unused_imports)]
use scale_decode::DecodeAsType;
#[derive(DecodeAsType)]
pub enum E {
    A(u8, #[codec(skip)] No),
}
#[cfg_attr(feature = "control", derive(Default))]
pub struct No;
fn main() {}
