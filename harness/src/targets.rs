//! Decode targets: their shape, and their value in comparable form.
use crate::any::AnyVal;
use crate::conv::{tint, IntKind, ListKind, Shape, TVal};
use codec::Compact;
use primitive_types::{H128, H160, H256, H384, H512, H768};
use scale_decode::{DecodeAsFields, DecodeAsType, Error, Field, IntoVisitor, TypeResolver};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque};
use std::marker::PhantomData;
use std::ops::{Range, RangeInclusive};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

pub trait Target: IntoVisitor + Sized + 'static {
    fn shape() -> Shape;
    fn reify(&self) -> TVal;
}
macro_rules! ints {
    ($($t:ident $bits:expr, $signed:expr;)*) => {$(
        impl Target for $t {
            fn shape() -> Shape {
                Shape::Int(IntKind { bits: $bits, signed: $signed, nonzero: false })
            }
            fn reify(&self) -> TVal {
                if $signed { tint(*self as i128) } else { TVal::U(*self as u128) }
            }
        }
    )*};
}
ints! { u8 8, false; u16 16, false; u32 32, false; u64 64, false; u128 128, false; usize usize::BITS, false;
i8 8, true; i16 16, true; i32 32, true; i64 64, true; i128 128, true; isize isize::BITS, true; }
macro_rules! nz {
    ($($t:ident $bits:expr, $signed:expr;)*) => {$(
        impl Target for std::num::$t {
            fn shape() -> Shape {
                Shape::Int(IntKind { bits: $bits, signed: $signed, nonzero: true })
            }
            fn reify(&self) -> TVal {
                if $signed { tint(self.get() as i128) } else { TVal::U(self.get() as u128) }
            }
        }
    )*};
}
nz! { NonZeroU8 8, false; NonZeroU16 16, false; NonZeroU32 32, false; NonZeroU64 64, false; NonZeroU128 128, false;
NonZeroI8 8, true; NonZeroI16 16, true; NonZeroI32 32, true; NonZeroI64 64, true; NonZeroI128 128, true; }
impl Target for bool {
    fn shape() -> Shape {
        Shape::Bool
    }
    fn reify(&self) -> TVal {
        TVal::Bool(*self)
    }
}
impl Target for char {
    fn shape() -> Shape {
        Shape::Char
    }
    fn reify(&self) -> TVal {
        TVal::Char(*self)
    }
}
impl Target for String {
    fn shape() -> Shape {
        Shape::Str
    }
    fn reify(&self) -> TVal {
        TVal::Str(self.clone())
    }
}
impl Target for scale_bits::Bits {
    fn shape() -> Shape {
        Shape::Bits
    }
    fn reify(&self) -> TVal {
        TVal::Bits(self.iter().collect())
    }
}
impl<T: 'static> Target for PhantomData<T> {
    fn shape() -> Shape {
        Shape::Phantom
    }
    fn reify(&self) -> TVal {
        TVal::Unit
    }
}
macro_rules! any_targets {
    ($($t:ty)*) => {$(
        impl Target for $t {
            fn shape() -> Shape {
                Shape::Any
            }
            fn reify(&self) -> TVal {
                TVal::Any(self.0.clone())
            }
        }
    )*};
}
any_targets! { AnyVal crate::any::Adapted crate::any::Adapted2 crate::any::Hooked }
impl Target for Duration {
    fn shape() -> Shape {
        Shape::Duration
    }
    fn reify(&self) -> TVal {
        TVal::Dur(self.as_secs(), self.subsec_nanos())
    }
}
macro_rules! ptr {
    ($($t:ident)*) => {$(
        impl<T: Target> Target for $t<T> {
            fn shape() -> Shape {
                Shape::Ptr(Box::new(T::shape()))
            }
            fn reify(&self) -> TVal {
                (**self).reify()
            }
        }
    )*};
}
ptr!(Box Rc Arc);
impl<T: Target> Target for Compact<T> {
    fn shape() -> Shape {
        Shape::Ptr(Box::new(T::shape()))
    }
    fn reify(&self) -> TVal {
        self.0.reify()
    }
}
impl<T: Target + Clone> Target for Cow<'static, T> {
    fn shape() -> Shape {
        Shape::Ptr(Box::new(T::shape()))
    }
    fn reify(&self) -> TVal {
        (**self).reify()
    }
}
impl Target for Cow<'static, str> {
    fn shape() -> Shape {
        Shape::Str
    }
    fn reify(&self) -> TVal {
        TVal::Str(self.to_string())
    }
}
impl<T: Target + Clone> Target for Cow<'static, [T]> {
    fn shape() -> Shape {
        Vec::<T>::shape()
    }
    fn reify(&self) -> TVal {
        self.to_vec().reify()
    }
}
macro_rules! lists {
    ($($t:ident $k:ident $(: $b:path)?;)*) => {$(
        impl<T: Target $(+ $b)?> Target for $t<T> {
            fn shape() -> Shape {
                Shape::List(ListKind::$k, Box::new(T::shape()))
            }
            fn reify(&self) -> TVal {
                let mut v: Vec<TVal> = self.iter().map(|x| x.reify()).collect();
                if ListKind::$k != ListKind::List {
                    v.sort();
                }
                TVal::List(v)
            }
        }
    )*};
}
lists! { Vec List; VecDeque List; LinkedList List; BinaryHeap Bag: Ord; BTreeSet Set: Ord; }
impl<T: Target, const N: usize> Target for [T; N] {
    fn shape() -> Shape {
        Shape::Arr(N, Box::new(T::shape()))
    }
    fn reify(&self) -> TVal {
        TVal::List(self.iter().map(|x| x.reify()).collect())
    }
}
macro_rules! hashes {
    ($($t:ident $n:expr;)*) => {$(
        impl Target for $t {
            fn shape() -> Shape {
                Shape::H($n)
            }
            fn reify(&self) -> TVal {
                TVal::List(self.0.iter().map(|x| TVal::U(*x as u128)).collect())
            }
        }
    )*};
}
hashes! { H128 16; H160 20; H256 32; H384 48; H512 64; H768 96; }
impl<T: Target> Target for BTreeMap<String, T> {
    fn shape() -> Shape {
        Shape::Map(Box::new(T::shape()))
    }
    fn reify(&self) -> TVal {
        TVal::Map(self.iter().map(|(k, v)| (k.clone(), v.reify())).collect())
    }
}
impl<T: Target> Target for Option<T> {
    fn shape() -> Shape {
        Shape::Opt(Box::new(T::shape()))
    }
    fn reify(&self) -> TVal {
        TVal::Opt(self.as_ref().map(|x| Box::new(x.reify())))
    }
}
impl<T: Target, E: Target> Target for Result<T, E> {
    fn shape() -> Shape {
        Shape::Res(Box::new(T::shape()), Box::new(E::shape()))
    }
    fn reify(&self) -> TVal {
        TVal::Res(match self {
            Ok(x) => Ok(Box::new(x.reify())),
            Err(x) => Err(Box::new(x.reify())),
        })
    }
}
impl<T: Target + PartialOrd> Target for Range<T> {
    fn shape() -> Shape {
        Shape::Range(Box::new(T::shape()))
    }
    fn reify(&self) -> TVal {
        TVal::List(vec![self.start.reify(), self.end.reify()])
    }
}
impl<T: Target + PartialOrd> Target for RangeInclusive<T> {
    fn shape() -> Shape {
        Shape::Range(Box::new(T::shape()))
    }
    fn reify(&self) -> TVal {
        TVal::List(vec![self.start().reify(), self.end().reify()])
    }
}
macro_rules! tuples {
    ($(($($t:ident)*))*) => {$(
        impl<$($t: Target),*> Target for ($($t,)*) {
            fn shape() -> Shape {
                Shape::Tuple(vec![$($t::shape()),*])
            }
            #[allow(non_snake_case)]
            fn reify(&self) -> TVal {
                let ($($t,)*) = self;
                TVal::List(vec![$($t.reify()),*])
            }
        }
    )*};
}
tuples! { () (A) (A B) (A B C) (A B C D) (A B C D E) (A B C D E F) (A B C D E F G) (A B C D E F G H) (A B C D E F G H I)
(A B C D E F G H I J) (A B C D E F G H I J K) (A B C D E F G H I J K L) (A B C D E F G H I J K L M) (A B C D E F G H I J K L M N)
(A B C D E F G H I J K L M N O) (A B C D E F G H I J K L M N O P) (A B C D E F G H I J K L M N O P Q) (A B C D E F G H I J K L M N O P Q S)
(A B C D E F G H I J K L M N O P Q S T) (A B C D E F G H I J K L M N O P Q S T U) }

/// A target with its type erased, for one resolver type.
pub struct Entry<R: TypeResolver> {
    pub name: &'static str,
    pub shape: fn() -> Shape,
    pub decode: fn(&mut &[u8], R::TypeId, &R) -> Result<TVal, Error>,
}
impl<R: TypeResolver> Clone for Entry<R> {
    fn clone(&self) -> Self {
        Entry { name: self.name, shape: self.shape, decode: self.decode }
    }
}
pub fn decode_reify<T: Target, R: TypeResolver>(b: &mut &[u8], id: R::TypeId, types: &R) -> Result<TVal, Error> {
    T::decode_as_type(b, id, types).map(|x| x.reify())
}
pub fn entry<T: Target, R: TypeResolver>() -> Entry<R> {
    Entry { name: std::any::type_name::<T>(), shape: T::shape, decode: decode_reify::<T, R> }
}
#[macro_export]
macro_rules! entries {
    ($r:ty; $($t:ty),* $(,)?) => { vec![$($crate::targets::entry::<$t, $r>()),*] };
}
/// A struct target: also decodable from a list of fields.
pub struct SEntry<R: TypeResolver> {
    pub e: Entry<R>,
    pub fields: fn(&mut &[u8], &[(Option<String>, R::TypeId)], &R) -> Result<TVal, Error>,
}
pub fn fields_reify<T: Target + DecodeAsFields, R: TypeResolver>(
    b: &mut &[u8],
    fields: &[(Option<String>, R::TypeId)],
    types: &R,
) -> Result<TVal, Error> {
    let mut it = fields.iter().map(|(n, id)| Field { name: n.as_deref(), id: id.clone() });
    T::decode_as_fields(b, &mut it, types).map(|x| x.reify())
}
pub fn sentry<T: Target + DecodeAsFields, R: TypeResolver>() -> SEntry<R> {
    SEntry { e: entry::<T, R>(), fields: fields_reify::<T, R> }
}
pub fn int_entries<R: TypeResolver>() -> Vec<Entry<R>> {
    use std::num::*;
    crate::entries!(R; u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, NonZeroU8, NonZeroU16, NonZeroU32,
        NonZeroU64, NonZeroU128, NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128)
}
pub fn scalar_entries<R: TypeResolver>() -> Vec<Entry<R>> {
    crate::entries!(R; bool, char, String, Cow<'static, str>, scale_bits::Bits, Duration, PhantomData<u8>, PhantomData<String>,
        Range<u8>, Range<i64>, RangeInclusive<u32>, Range<String>, AnyVal)
}
pub fn list_entries<R: TypeResolver>() -> Vec<Entry<R>> {
    crate::entries!(R; Vec<u8>, Vec<i32>, Vec<u128>, Vec<bool>, Vec<String>, Vec<Vec<u16>>, Vec<(u8, bool)>, Vec<Option<i8>>, Vec<()>,
        Vec<scale_bits::Bits>, Vec<AnyVal>, VecDeque<u16>, VecDeque<String>, LinkedList<i64>, LinkedList<Vec<bool>>, BinaryHeap<u32>,
        BinaryHeap<String>, BTreeSet<u8>, BTreeSet<String>, BTreeSet<(i16, bool)>, BTreeSet<Vec<u8>>, Cow<'static, [u8]>,
        Cow<'static, [String]>, [u8; 0], [u16; 1], [bool; 2], [i32; 3], [String; 4], [[u8; 2]; 2], [Vec<u8>; 3], [u8; 32], [u64; 17],
        [(u8, u8); 2], [Option<bool>; 3], H128, H160, H256, H384, H512, H768, Vec<H160>, [H128; 2], Vec<[u8; 4]>, Vec<BTreeSet<u8>>,
        VecDeque<LinkedList<u8>>, Vec<Box<[u16; 2]>>, [(); 5], Vec<BTreeMap<String, u8>>)
}
pub fn tuple_entries<R: TypeResolver>() -> Vec<Entry<R>> {
    type A = u8;
    crate::entries!(R; (), (u32,), (String,), (u8, bool), (i64, String), (u8, u8, u8), (bool, u16, String, i8), (A, A, A, A, A),
        (A, bool, A, bool, A, bool), (A, A, A, A, A, A, i64), (A, A, A, A, A, A, A, String), (A, A, A, A, A, A, A, A, bool),
        (A, A, A, A, A, A, A, A, A, u128), (A, A, A, A, A, A, A, A, A, A, i8), (A, A, A, A, A, A, A, A, A, A, A, u16),
        (A, A, A, A, A, A, A, A, A, A, A, A, bool), (A, A, A, A, A, A, A, A, A, A, A, A, A, i32),
        (A, A, A, A, A, A, A, A, A, A, A, A, A, A, u64), (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, String),
        (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, bool), (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, i16),
        (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, u32), (u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, bool, char, String, u8, u16, u32, u64, bool, u8, i8),
        ((u8, bool), u16), (u8, (bool, (u16, String))), ((u8,),), (((),),), ((), ()), (Vec<u8>, [bool; 2]), (Option<u8>, Result<u8, bool>),
        (AnyVal, AnyVal), (Box<(u8, u8)>, Rc<u32>))
}
pub fn map_entries<R: TypeResolver>() -> Vec<Entry<R>> {
    crate::entries!(R; BTreeMap<String, u8>, BTreeMap<String, i128>, BTreeMap<String, AnyVal>, BTreeMap<String, String>,
        BTreeMap<String, Vec<u16>>, BTreeMap<String, (u8, bool)>, BTreeMap<String, BTreeMap<String, u32>>, BTreeMap<String, Option<u16>>,
        BTreeMap<String, Box<u64>>)
}
pub fn choice_entries<R: TypeResolver>() -> Vec<Entry<R>> {
    crate::entries!(R; Option<u8>, Option<bool>, Option<String>, Option<Option<u16>>, Option<()>, Option<Vec<i8>>, Option<(u8, bool)>,
        Result<u8, String>, Result<(), ()>, Result<bool, Vec<u8>>, Result<Option<u8>, Result<i8, char>>, Option<Result<u8, u8>>,
        Vec<Option<i64>>, Vec<Result<u8, bool>>, [Option<u32>; 2], (Option<u8>, Option<i16>), Option<scale_bits::Bits>, Option<AnyVal>,
        Option<Box<u16>>, Option<BTreeMap<String, u8>>, Option<Duration>)
}
pub fn ptr_entries<R: TypeResolver>() -> Vec<Entry<R>> {
    crate::entries!(R; Box<u8>, Rc<i64>, Arc<String>, Cow<'static, u128>, Compact<u32>, Compact<u128>, Box<Box<bool>>, Box<Vec<u8>>,
        Arc<[u16; 3]>, Rc<Option<u8>>, Box<(u8, bool)>, Compact<(u8,)>, Box<BTreeMap<String, u16>>, Cow<'static, Vec<i8>>,
        Cow<'static, Option<u32>>, Box<Rc<Arc<Compact<u64>>>>, Vec<Compact<u16>>, (Compact<u8>, Box<char>), Box<Duration>, Rc<H256>,
        Cow<'static, (u8, String)>, Box<AnyVal>, Compact<Option<u8>>, Compact<String>, (Cow<'static, u128>,), ((Rc<u16>,),), (Arc<u64>,), (Box<u32>,),
        (Compact<u64>,), BTreeMap<String, Cow<'static, u64>>, BTreeMap<String, Rc<u16>>, BTreeMap<String, Compact<u32>>,
        Vec<(Cow<'static, u32>,)>, Cow<'static, (Cow<'static, u8>,)>, Arc<(Box<u64>,)>, BTreeMap<String, (Box<u16>,)>,
        (H256,), (Vec<u8>,), ([u8; 4],), (scale_bits::Bits,), (bool,), (char,), (Duration,), (BTreeSet<u8>,), (Option<bool>,), (Cow<'static, str>,),
        (Range<u8>,), (AnyVal,), ((H160,),), (Result<u8, bool>,), (BTreeMap<String, u8>,), (Box<[u8; 2]>,), BTreeMap<String, H256>, BTreeMap<String, bool>, BTreeMap<String, scale_bits::Bits>,
        BTreeMap<String, Duration>, BTreeMap<String, [u8; 2]>, BTreeMap<String, Result<u8, bool>>, BTreeMap<String, Cow<'static, [u8]>>)
}
pub fn builtin_entries<R: TypeResolver>() -> Vec<Entry<R>> {
    let mut v = int_entries();
    v.extend(scalar_entries());
    v.extend(list_entries());
    v.extend(tuple_entries());
    v.extend(map_entries());
    v.extend(choice_entries());
    v.extend(ptr_entries());
    v
}
