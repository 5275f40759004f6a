//! The path is none.
#![allow(dead_code, unused_imports)]
use scale_decode::DecodeAsType;
#[derive(DecodeAsType)]
#[cfg_attr(not(feature = "control"), decode_as_type(crate_path = "not a path!"))]
pub struct S(pub u8);
fn main() {}
