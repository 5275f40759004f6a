//! Which of them?
#![allow(dead_code, unused_imports)]
use scale_decode::DecodeAsType;
#[derive(DecodeAsType)]
#[cfg_attr(not(feature = "control"), decode_as_type(crate_path = "::scale_decode", crate_path = "::scale_decode"))]
pub enum E {
    A(u8),
}
fn main() {}
