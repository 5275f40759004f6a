//! The inputs of the known findings, one per run: `findings KEY`. Prints what happened; may die, which is the finding.
use mon::any::AnyVal;
use mon::model::*;
use mon::resolvers::*;
use scale_decode::visitor::{decode_with_visitor, IgnoreVisitor};
use scale_decode::DecodeAsType;
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::marker::PhantomData;
fn against_static<T: codec::Encode + codec::Decode + scale_info::TypeInfo + 'static + DecodeAsType + PartialEq + std::fmt::Debug>(v: &T) {
    let mut r = scale_info::Registry::new();
    let id = r.register_type(&scale_info::meta_type::<T>()).id;
    let reg: scale_info::PortableRegistry = r.into();
    let b = v.encode();
    assert_eq!(T::decode(&mut &*b).as_ref(), Ok(v));
    match T::decode_as_type(&mut &*b, id, &reg) {
        Ok(x) if x == *v => println!("SAME {v:?}"),
        Ok(x) => println!("DIFFERS: {v:?} comes back as {x:?}"),
        Err(e) => println!("DIFFERS: {v:?} comes back as the error {e}"),
    }
}
fn main() {
    let key = std::env::args().nth(1).unwrap_or_default();
    let mut m = Model::new();
    let var = |name: &str, index, ty: Option<Id>| VariantDef { name: name.into(), index, fields: ty.into_iter().map(|ty| FieldDef { name: None, ty }).collect() };
    match key.as_str() {
        // a value nested as deeply as the input is long
        "deep-input" => {
            m.add(Def::Var { path: vec![], variants: vec![var("A", 0, Some(0)), var("B", 1, None)] });
            let b = vec![0u8; 4_000_000];
            let r = decode_with_visitor(&mut &*b, 0, &m.portable(), IgnoreVisitor::new());
            println!("RETURNED {}", r.is_ok());
        }
        // a type that contains itself
        "endless-type" => {
            m.add(Def::Comp { path: vec![], fields: vec![FieldDef { name: None, ty: 0 }] });
            let r = decode_with_visitor(&mut &[1u8, 2, 3][..], 0, &m.portable(), IgnoreVisitor::new());
            println!("RETURNED {}", r.is_ok());
        }
        // items that take no bytes, as many as a few bytes can declare
        "zero-size-items" => {
            let unit = m.add(Def::Tuple(vec![]));
            let list = m.add(Def::Seq(unit));
            let mut b = vec![];
            mon::val::enc_compact(1 << 22, &mut b);
            let w = Wrap::new(m.portable());
            let _ = decode_with_visitor(&mut &*b, list as u32, &w, IgnoreVisitor::new());
            let skip = w.lookups.get();
            w.reset();
            let (_, a) = mon::run::measure(|| AnyVal::decode_as_type(&mut &*b, list as u32, &w).is_ok());
            println!("COST {skip} lookups to skip, {} lookups and {} bytes to read, {} bytes of input", w.lookups.get(), a.total, b.len());
        }
        // the static codec's own bytes, through the type's own type information
        "cow-of-struct" => {
            #[derive(Clone, Debug, PartialEq, codec::Encode, codec::Decode, scale_info::TypeInfo, DecodeAsType)]
            struct Two {
                a: u8,
                b: u16,
            }
            against_static(&Cow::<'static, Two>::Owned(Two { a: 1, b: 2 }));
        }
        "phantom-field" => {
            #[derive(Clone, Debug, PartialEq, codec::Encode, codec::Decode, scale_info::TypeInfo, DecodeAsType)]
            struct Marked {
                a: u8,
                p: PhantomData<u16>,
            }
            against_static(&Marked { a: 7, p: PhantomData });
            against_static(&(1u8, PhantomData::<u8>, 2u8));
        }
        "string-map" => against_static(&BTreeMap::from([("a".to_string(), 1u8), ("b".to_string(), 2)])),
        "compact-unit" => against_static(&codec::Compact(())),
        _ => std::process::exit(3),
    }
}
#[global_allocator]
static A: mon::run::Counting = mon::run::Counting;
