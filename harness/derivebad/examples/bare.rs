//! A crate without the standard library, and without patience for warnings.
#![no_std]
#![deny(warnings, missing_docs)]
#![forbid(unsafe_code)]
extern crate scale_decode as other;
use core::marker::PhantomData;
use other::DecodeAsType;
/// Without fields.
#[derive(DecodeAsType)]
pub struct Unit;
/// Without fields.
#[derive(DecodeAsType)]
pub struct Empty {}
/// Without fields.
#[derive(DecodeAsType)]
pub struct Nil();
/// With names.
#[derive(DecodeAsType)]
pub struct Named<T, const N: usize> {
    /// One.
    pub a: u8,
    /// Many.
    pub b: [T; N],
    /// None.
    #[decode_as_type(skip)]
    pub c: PhantomData<T>,
}
/// Without names.
#[derive(DecodeAsType)]
#[decode_as_type(crate_path = "other")]
pub struct Tuple<T>(pub T, pub Option<u16>);
/// With everything.
#[derive(DecodeAsType)]
pub enum Enum<T> {
    /// Nothing.
    Unit,
    /// Something.
    Tuple(T, #[codec(skip)] u8),
    /// Something.
    Named {
        /// One.
        a: T,
        /// Another.
        b: Unit,
    },
    /// Nothing.
    Empty {},
    /// Nothing.
    Nil(),
}
/// Without variants.
#[derive(DecodeAsType)]
pub enum Never {}
