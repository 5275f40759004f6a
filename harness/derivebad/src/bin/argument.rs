//! An argument that cannot be decoded.
#![allow(dead_code, unused_imports)]
use scale_decode::DecodeAsType;
#[derive(DecodeAsType)]
pub struct S<T>(pub T);
#[cfg_attr(feature = "control", derive(DecodeAsType))]
pub struct No;
fn needs<T: DecodeAsType>() {}

fn main() {
    needs::<S<No>>();
}
