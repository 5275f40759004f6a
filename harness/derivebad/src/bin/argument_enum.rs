//! An argument that cannot be decoded.
#![allow(dead_code, unused_imports)]
use scale_decode::DecodeAsType;
#[derive(DecodeAsType)]
pub enum E<T> {
    A(T),
}
#[cfg_attr(feature = "control", derive(DecodeAsType))]
pub struct No;
fn needs<T: DecodeAsType>() {}

fn main() {
    needs::<E<No>>();
}
