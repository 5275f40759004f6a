//! An attribute that says nothing.
#![allow(dead_code, unused_imports)]
use scale_decode::DecodeAsType;
#[derive(DecodeAsType)]
#[cfg_attr(not(feature = "control"), decode_as_type = "crate_path")]
pub struct S(pub u8);
fn main() {}
