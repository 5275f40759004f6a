//! A field that cannot be decoded.
#![allow(dead_code, unused_imports)]
use scale_decode::DecodeAsType;
#[derive(DecodeAsType)]
pub enum E {
    A,
    B(No),
}
#[cfg_attr(feature = "control", derive(DecodeAsType))]
pub struct No;
fn main() {}
