//! Parameters that cannot be decoded, with bounds that say so. That this compiles is the check; it is also decoded once.
use scale_decode::{DecodeAsType, IntoVisitor};
use std::marker::PhantomData;
#[derive(Debug, PartialEq)]
pub struct No;
pub trait Out {
    type Out;
}
impl Out for No {
    type Out = u16;
}
#[derive(Debug, DecodeAsType, PartialEq)]
#[decode_as_type(trait_bounds = "")]
struct None_<T>(u8, #[decode_as_type(skip)] PhantomData<T>);
#[derive(Debug, DecodeAsType, PartialEq)]
#[decode_as_type(trait_bounds = "U: ::scale_decode::IntoVisitor")]
struct One<T, U> {
    a: U,
    #[codec(skip)]
    p: PhantomData<T>,
}
#[derive(Debug, DecodeAsType, PartialEq)]
#[decode_as_type(trait_bounds = "T: Out, T::Out: IntoVisitor")]
struct Assoc<T: Out>(T::Out);
#[derive(Debug, DecodeAsType, PartialEq)]
#[decode_as_type(trait_bounds = "")]
#[decode_as_type(crate_path = "crate::alias::sd")]
#[allow(dead_code)]
enum Apart<T> {
    A(u8),
    B {
        #[codec(skip)]
        p: PhantomData<T>,
    },
}
#[derive(Debug, DecodeAsType, PartialEq)]
#[decode_as_type(crate_path = "crate::alias::sd")]
#[decode_as_type(trait_bounds = "")]
struct Apart2<'a, T: 'a, const N: usize>([u8; N], #[codec(skip)] PhantomData<&'a T>);
#[allow(dead_code)]
#[derive(Debug, DecodeAsType)]
#[decode_as_type(trait_bounds = "")]
struct Unsized<T: ?Sized>(u8, #[codec(skip)] PhantomData<T>);
#[derive(Debug, DecodeAsType, PartialEq)]
#[decode_as_type(trait_bounds = "T: Clone, Vec<T>: IntoVisitor,")]
struct Where<T>(Vec<T>)
where
    T: PartialEq;
/// What is not as it should be.
pub fn check() -> Vec<String> {
    fn dec<S: scale_info::TypeInfo + 'static, T: DecodeAsType + std::fmt::Debug>(b: &[u8]) -> String {
        let (id, reg) = crate::ty::<S>();
        format!("{:?}", T::decode_as_type(&mut &*b, id, &reg))
    }
    let mut bad = vec![];
    let mut is = |a: String, b: &str| {
        let ok = if b == "Err" { a.starts_with("Err(") } else { a.starts_with(b) };
        if !ok {
            bad.push(format!("{a}, expected {b}"));
        }
    };
    is(dec::<u8, None_<No>>(&[1]), "Err");
    is(dec::<(u8,), None_<No>>(&[1]), "Ok(None_(1, ");
    is(dec::<(u16,), Assoc<No>>(&[1, 1]), "Ok(Assoc(257))");
    is(dec::<(Vec<u8>,), Where<u32>>(&[4, 1]), "Ok(Where([1]))");
    is(dec::<(Vec<u8>,), Apart2<'static, No, 1>>(&[4, 1]), "Ok(Apart2([1], ");
    is(dec::<(u8,), Unsized<str>>(&[7]), "Ok(Unsized(7, ");
    is(dec::<(u8,), One<No, u64>>(&[7]), "Ok(One { a: 7, ");
    is(dec::<Option<u8>, Apart<No>>(&[0]), "Err");
    bad
}
