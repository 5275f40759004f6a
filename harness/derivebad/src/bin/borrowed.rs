//! Nothing can be borrowed from the input.
#![allow(dead_code, unused_imports)]
use scale_decode::DecodeAsType;
#[derive(DecodeAsType)]
pub struct S<'a> {
    #[cfg(not(feature = "control"))]
    pub a: &'a str,
    #[cfg(feature = "control")]
    pub a: std::borrow::Cow<'a, str>,
}
fn main() {}
