//! A decode target that accepts everything: what the high-level entry points produce for it is compared with the tree.
use crate::model::*;
use crate::val::{Node, K};
use scale_decode::visitor::{decode_with_visitor, types::*, DecodeAsTypeResult, DecodeError, TypeIdFor, Visitor, VisitorWithCrateError};
use scale_decode::{Error, IntoVisitor, TypeResolver};
use std::marker::PhantomData;

#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
pub enum Any {
    Bool(bool),
    Char(char),
    Str(String),
    U(u8, u128),
    I(u8, i128),
    B32(bool, [u8; 32]),
    Seq(Vec<Any>),
    Arr(Vec<Any>),
    Tuple(Vec<Any>),
    Comp(Vec<String>, Vec<(Option<String>, Any)>),
    Var(String, u8, Vec<(Option<String>, Any)>),
    Bits(Vec<bool>),
}
/// What decoding the node into [`Any`] must give; None if it contains a string that is not UTF-8.
pub fn any_of(m: &Model, n: &Node) -> Option<Any> {
    let all = |v: &Vec<Node>| v.iter().map(|x| any_of(m, x)).collect::<Option<Vec<_>>>();
    let named = |fs: &Vec<FieldDef>, v: &Vec<Node>| -> Option<Vec<(Option<String>, Any)>> {
        fs.iter().zip(v).map(|(f, x)| Some((f.name.clone(), any_of(m, x)?))).collect()
    };
    Some(match (&n.k, m.def(n.ty)?) {
        (K::Bool(b), _) => Any::Bool(*b),
        (K::Char(c), _) => Any::Char(*c),
        (K::Str { s, .. }, _) => Any::Str(s.clone()?),
        (K::U(p, x), _) => Any::U(p.unsigned_bytes()? as u8, *x),
        (K::I(p, x), _) => Any::I(p.signed_bytes()? as u8, *x),
        (K::B32(p, x), _) => Any::B32(*p == Prim::I256, *x),
        (K::Seq { items, .. }, _) => Any::Seq(all(items)?),
        (K::Arr(v), _) => Any::Arr(all(v)?),
        (K::Tuple(v), _) => Any::Tuple(all(v)?),
        (K::Comp(v), Def::Comp { path, fields }) => Any::Comp(path.clone(), named(fields, v)?),
        (K::Var { v, fields }, Def::Var { variants, .. }) => {
            let d = &variants[*v];
            Any::Var(d.name.clone(), d.index, named(&d.fields, fields)?)
        }
        (K::Bits(b), _) => Any::Bits(b.clone()),
        _ => return None,
    })
}
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
pub struct AnyVal(pub Any);
impl From<Any> for AnyVal {
    fn from(a: Any) -> Self {
        AnyVal(a)
    }
}
/// With any error type, into any wrapper of the value.
pub struct AnyVisitor<R, E = Error, W = AnyVal>(PhantomData<fn() -> (R, E, W)>);
impl<R> AnyVisitor<R> {
    pub fn new() -> Self {
        AnyVisitor(PhantomData)
    }
}
impl<R, E, W> AnyVisitor<R, E, W> {
    pub fn of() -> Self {
        AnyVisitor(PhantomData)
    }
}
impl IntoVisitor for AnyVal {
    type AnyVisitor<R: TypeResolver> = AnyVisitor<R>;
    fn into_visitor<R: TypeResolver>() -> AnyVisitor<R> {
        AnyVisitor::new()
    }
}
macro_rules! num {
    ($($f:ident $t:ty => $v:ident $w:expr, $as:ty;)*) => {$(
        fn $f<'s, 'r>(self, v: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
            Ok(Any::$v($w, v as $as).into())
        }
    )*};
}
impl<R: TypeResolver, E: From<DecodeError>, W: From<Any>> Visitor for AnyVisitor<R, E, W> {
    type Value<'s, 'r> = W;
    type Error = E;
    type TypeResolver = R;
    num! {
        visit_u8 u8 => U 1, u128; visit_u16 u16 => U 2, u128; visit_u32 u32 => U 4, u128; visit_u64 u64 => U 8, u128;
        visit_u128 u128 => U 16, u128; visit_i8 i8 => I 1, i128; visit_i16 i16 => I 2, i128; visit_i32 i32 => I 4, i128;
        visit_i64 i64 => I 8, i128; visit_i128 i128 => I 16, i128;
    }
    fn visit_bool<'s, 'r>(self, v: bool, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        Ok(Any::Bool(v).into())
    }
    fn visit_char<'s, 'r>(self, v: char, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        Ok(Any::Char(v).into())
    }
    fn visit_u256<'r>(self, v: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        Ok(Any::B32(false, *v).into())
    }
    fn visit_i256<'r>(self, v: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        Ok(Any::B32(true, *v).into())
    }
    fn visit_str<'s, 'r>(self, v: &mut Str<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        Ok(Any::Str(v.as_str()?.to_string()).into())
    }
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let bits: Result<Vec<bool>, _> = v.decode()?.collect();
        Ok(Any::Bits(bits.map_err(DecodeError::from)?).into())
    }
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let mut out = vec![];
        while let Some(x) = v.decode_item(AnyVisitor::<R, E>::of()) {
            out.push(x?.0);
        }
        Ok(Any::Seq(out).into())
    }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let mut out = vec![];
        while let Some(x) = v.decode_item(AnyVisitor::<R, E>::of()) {
            out.push(x?.0);
        }
        Ok(Any::Arr(out).into())
    }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let mut out = vec![];
        while let Some(x) = v.decode_item(AnyVisitor::<R, E>::of()) {
            out.push(x?.0);
        }
        Ok(Any::Tuple(out).into())
    }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let path = v.path().map(|s| s.to_string()).collect();
        Ok(Any::Comp(path, fields(v)?).into())
    }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let (n, i) = (v.name().to_string(), v.index());
        Ok(Any::Var(n, i, fields(v.fields())?).into())
    }
}
fn fields<'s, 'r, R: TypeResolver, E: From<DecodeError>>(v: &mut Composite<'s, 'r, R>) -> Result<Vec<(Option<String>, Any)>, E> {
    let mut out = vec![];
    loop {
        let name = v.peek_name().map(|s| s.to_string());
        match v.decode_item(AnyVisitor::<R, E>::of()) {
            Some(x) => out.push((name, x?.0)),
            None => return Ok(out),
        }
    }
}

/// An error type of its own, for visitors that need an adaptor.
#[derive(Debug)]
pub struct AErr(pub Error);
impl From<DecodeError> for AErr {
    fn from(e: DecodeError) -> Self {
        AErr(e.into())
    }
}
impl From<AErr> for Error {
    fn from(e: AErr) -> Self {
        e.0
    }
}
macro_rules! like_any {
    ($($n:ident)*) => {$(
        #[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
        pub struct $n(pub Any);
        impl From<Any> for $n {
            fn from(a: Any) -> Self {
                $n(a)
            }
        }
    )*};
}
like_any! { Adapted Adapted2 Hooked }
impl IntoVisitor for Adapted {
    type AnyVisitor<R: TypeResolver> = VisitorWithCrateError<AnyVisitor<R, AErr, Adapted>>;
    fn into_visitor<R: TypeResolver>() -> Self::AnyVisitor<R> {
        VisitorWithCrateError(AnyVisitor::of())
    }
}
impl IntoVisitor for Adapted2 {
    type AnyVisitor<R: TypeResolver> = VisitorWithCrateError<VisitorWithCrateError<AnyVisitor<R, AErr, Adapted2>>>;
    fn into_visitor<R: TypeResolver>() -> Self::AnyVisitor<R> {
        VisitorWithCrateError(VisitorWithCrateError(AnyVisitor::of()))
    }
}
/// Takes over at its hook, and hands the work to another visitor there.
pub struct HookVisitor<R>(PhantomData<fn() -> R>);
impl<R: TypeResolver> Visitor for HookVisitor<R> {
    type Value<'s, 'r> = Hooked;
    type Error = Error;
    type TypeResolver = R;
    fn unchecked_decode_as_type<'s, 'r>(
        self,
        input: &mut &'s [u8],
        id: TypeIdFor<Self>,
        types: &'r R,
    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>> {
        DecodeAsTypeResult::Decoded(decode_with_visitor(input, id, types, AnyVisitor::of()))
    }
}
impl IntoVisitor for Hooked {
    type AnyVisitor<R: TypeResolver> = HookVisitor<R>;
    fn into_visitor<R: TypeResolver>() -> Self::AnyVisitor<R> {
        HookVisitor(PhantomData)
    }
}
