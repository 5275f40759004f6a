//! A list of fields against the struct type that has them.
use mon::conv::*;
use mon::convrun::*;
use mon::model::*;
use mon::resolvers::*;
use mon::run::{self, cut, hex, Case};
use mon::targets::*;
use mon::val::*;
use scale_decode::Error;
use scale_info::PortableRegistry as P;
#[global_allocator]
static A: run::Counting = run::Counting;
mod gen {
    include!(concat!(env!("GEN_DIR"), "/types.rs"));
}
struct T {
    d: Vec<SEntry<P>>,
    t: Vec<SEntry<P>>,
    tp: Vec<SEntry<Perm>>,
}
macro_rules! sentries {
    ($r:ty; $($t:ty),* $(,)?) => { vec![$(sentry::<$t, $r>()),*] };
}
fn tuples<R: scale_decode::TypeResolver>() -> Vec<SEntry<R>> {
    type A = u8;
    sentries!(R; (), (u32,), (String,), (mon::any::AnyVal,), (u8, bool), (i64, String), (u8, u8, u8), (bool, u16, String, i8), (A, A, A, A, A),
        (A, bool, A, bool, A, bool), (A, A, A, A, A, A, i64), (A, A, A, A, A, A, A, String), (A, A, A, A, A, A, A, A, bool),
        (A, A, A, A, A, A, A, A, A, u128), (A, A, A, A, A, A, A, A, A, A, A, A, bool), (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, String),
        (A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, A, u32), ((u8, bool), u16), (Option<u8>, Result<u8, bool>), ((u8,),), (Vec<u8>, scale_bits::Bits, char),
        (mon::any::AnyVal, mon::any::AnyVal, mon::any::AnyVal))
}
fn kind(e: &Error) -> (std::mem::Discriminant<scale_decode::error::ErrorKind>, String) {
    (std::mem::discriminant(e.kind()), format!("{:?}", e.context().path().locations().collect::<Vec<_>>()))
}
fn pair<R: MapId>(c: &mut Case, s: &SEntry<R>, types: &R, m: &Model, id: Id, b: &[u8]) {
    let want = refdec(m, id, b);
    if want == Err(RErr::Budget) {
        return;
    }
    let list: Vec<(Option<String>, R::TypeId)> = match m.def(id) {
        Some(Def::Comp { fields, .. }) => fields.iter().map(|f| (f.name.clone(), types.make_id(f.ty))).collect(),
        Some(Def::Tuple(ts)) => ts.iter().map(|t| (None, types.make_id(*t))).collect(),
        _ => return,
    };
    c.context(|| {
        let r = match &want {
            Ok(n) => n.show(),
            Err(e) => format!("{e:?}"),
        };
        format!("target {} type {} input {} reference {}", s.e.name, m.show(id), hex(b), r)
    });
    let (p, q) = (&mut &*b, &mut &*b);
    let a = (s.e.decode)(p, types.make_id(id), types);
    let f = (s.fields)(q, &list, types);
    match (&a, &f) {
        (Ok(x), Ok(y)) => {
            if x != y {
                c.viol(format!("from fields {}, from the type {}", cut(&format!("{y:?}"), 500), cut(&format!("{x:?}"), 500)));
            }
            if p.len() != q.len() {
                c.viol(format!("from fields {} bytes are left, from the type {}", q.len(), p.len()));
            }
            c.count("decoded", 1);
        }
        (Err(x), Err(y)) => {
            if kind(x) != kind(y) {
                c.viol(format!("from fields it fails with {y}, from the type with {x}"));
            }
            c.count("failed", 1);
            if want.is_ok() && p.len() != q.len() {
                c.viol(format!("failing from fields {} bytes are left, from the type {}", q.len(), p.len()));
            }
        }
        (Ok(x), Err(y)) => c.viol(format!("from fields it fails with {y}, from the type it is {}", cut(&format!("{x:?}"), 500))),
        (Err(x), Ok(y)) => c.viol(format!("from fields it is {}, from the type it fails with {x}", cut(&format!("{y:?}"), 500))),
    }
    if !mon::common::is_tail(b, q) {
        c.viol("what is left is not a tail of the input".into());
    }
    if let Ok(n) = &want {
        let w = conv(m, &(s.e.shape)(), n);
        // a one-element tuple over a struct of several fields has no struct type to compare with, but fails alike
        judge_result(c, s.e.name, &w, &f, true);
        if f.is_ok() && b.len() - q.len() != n.end {
            c.viol(format!("from fields {} bytes were consumed, the listed fields have {}", b.len() - q.len(), n.end));
        }
    } else {
        c.count("malformed_lists", 1);
    }
    c.eval();
    c.count(if list.iter().any(|f| f.0.is_some()) { "named_lists" } else { "unnamed_lists" }, 1);
    let w = f.map_err(|_| vec![CErr { class: CClass::Unexpected(scale_decode::visitor::Unexpected::Bool), path: vec![] }]);
    if !list.is_empty() {
        seen(c, s.e.name, m, id, b, &w);
    }
}
fn go<R: MapId>(c: &mut Case, s: &SEntry<R>, mk: impl Fn(&mut Case, &Model) -> R) {
    let bend = match c.rng.below(4) {
        0 => Bend { wrong: 0, missing: 0, ..Default::default() },
        1 => Bend { missing: 150, extra: 700, ..Default::default() },
        2 => Bend { wrong: 80, compact: 500, ..Default::default() },
        _ => Bend::default(),
    };
    let (mut m, id, hints) = if c.rng.chance(1, 6) {
        // a list unrelated to the target
        let mut m = mon::common::model(c, false);
        let n = c.rng.below(5);
        let names = field_names(&mut c.rng, n);
        let fields = names.into_iter().map(|name| FieldDef { name, ty: c.rng.below(m.defs.len()) }).collect();
        let id = m.add(Def::Comp { path: vec![], fields });
        (m, id, Hints::default())
    } else {
        let mut src = Src::new(&mut c.rng, bend);
        let id = src.source(&(s.e.shape)());
        (src.m.clone(), id, src.hints.clone())
    };
    // the list may repeat a type, and end in fields the target has no use for
    if let (Some(Def::Comp { fields, .. }), true) = (m.def(id).cloned(), c.rng.chance(1, 10)) {
        let mut fields = fields;
        if let Some(f) = fields.first().cloned() {
            if fields.iter().all(|f| f.name.is_some()) {
                fields.push(FieldDef { name: Some("zzz_last".into()), ty: f.ty });
                m.defs[id] = Def::Comp { path: vec![], fields };
            }
        }
    }
    // a list is a struct's fields: compare a tuple's elements with the struct type having them
    if let Some(Def::Tuple(ts)) = m.def(id).cloned() {
        let fields = ts.into_iter().map(|ty| FieldDef { name: None, ty }).collect();
        m.defs[id] = Def::Comp { path: vec![], fields };
    }
    let types = mk(c, &m);
    for _ in 0..2 {
        let Some(x) = value(c, m.clone(), id, hints.clone(), 40) else { return };
        let mut b = x.bytes.clone();
        let t = c.rng.below(8);
        b.extend(c.rng.bytes(t));
        pair(c, s, &types, &m, id, &b);
        for _ in 0..2 {
            let mut b = x.bytes.clone();
            mutate(&mut c.rng, &mut b);
            pair(c, s, &types, &m, id, &b);
        }
    }
}
fn case(t: &T, c: &mut Case) {
    match c.rng.below(8) {
        0..=4 => go(c, c.rng.clone().pick(&t.d), |_, m| m.portable()),
        5 | 6 => go(c, c.rng.clone().pick(&t.t), |_, m| m.portable()),
        _ => go(c, c.rng.clone().pick(&t.tp), |c, m| Perm::new(m, &mut c.rng)),
    }
}
fn main() {
    let t = T { d: gen::decls::structs(), t: tuples(), tp: tuples() };
    run::run("C13", run::Opts { quick: 120_000, thorough: 3_000_000, ..Default::default() }, |c| case(&t, c))
}
