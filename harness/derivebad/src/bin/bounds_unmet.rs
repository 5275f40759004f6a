//! The bounds asked for are not met.
#![allow(dead_code, unused_imports)]
use scale_decode::DecodeAsType;
#[derive(DecodeAsType)]
#[decode_as_type(trait_bounds = "T: scale_decode::IntoVisitor + Clone")]
pub struct S<T>(pub T);
#[derive(DecodeAsType)]
#[cfg_attr(feature = "control", derive(Clone))]
pub struct A(pub u8);
fn needs<T: DecodeAsType>() {}

fn main() {
    needs::<S<A>>();
}
