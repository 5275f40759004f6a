//! Traits in scope that give every type methods by any name derived code may use.
#![allow(dead_code)]
use scale_decode::DecodeAsType;
macro_rules! greedy {
    ($($n:ident)*) => {
        pub trait ByRef { $(fn $n(&self) {})* }
        impl<T: ?Sized> ByRef for T {}
        pub trait ByMut { $(fn $n(&mut self) {})* }
        impl<T: ?Sized> ByMut for T {}
        pub trait ByValue: Sized { $(fn $n(self) {})* }
        impl<T> ByValue for T {}
        pub trait Assoc: Sized { $(fn $n() {})* }
        impl<T> Assoc for T {}
    };
}
greedy! { name remaining has_unnamed_fields as_tuple to_string get fields decode_item visit_tuple visit_composite visit_variant visit_unexpected
next map collect into_visitor unwrap expect ok_or_else ok_or map_err at_field at_idx skip_decoding bytes_from_undecoded decode_as_type
decode_as_fields decode_with_visitor from into is_ok is_err default clone cloned len is_empty iter iter_mut into_iter filter find position count
index eq ne branch as_ref as_mut borrow to_owned into_boxed push insert remove contains contains_key and_then then or_else take replace path peek_name }
#[derive(DecodeAsType)]
pub enum E<T> { A(T), B { a: T, #[codec(skip)] b: u8 }, C }
#[derive(DecodeAsType)]
pub struct Named<T> { a: T, #[codec(skip)] b: u8 }
#[derive(DecodeAsType)]
pub struct Tuple<T>(T, #[codec(skip)] u8);
#[derive(DecodeAsType)]
pub struct Unit;
#[derive(DecodeAsType)]
pub struct Empty {}
fn main() {}
