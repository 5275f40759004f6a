//! The bound lacks its trait.
#![allow(dead_code, unused_imports)]
use scale_decode::DecodeAsType;
#[derive(DecodeAsType)]
#[cfg_attr(not(feature = "control"), decode_as_type(trait_bounds = "T"))]
pub struct S<T>(pub T);
fn main() {}
