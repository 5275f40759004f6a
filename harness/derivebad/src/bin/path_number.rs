//! The path is a number.
#![allow(dead_code, unused_imports)]
use scale_decode::DecodeAsType;
#[derive(DecodeAsType)]
#[cfg_attr(not(feature = "control"), decode_as_type(crate_path = 5))]
pub struct S(pub u8);
fn main() {}
