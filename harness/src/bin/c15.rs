//! Everything borrowed that a decode hands out is carried out of it and judged afterwards.
use mon::common::*;
use mon::explore::*;
use mon::model::*;
use mon::resolvers::*;
use mon::run::{self, Case};
use mon::val::*;
use scale_decode::visitor::{decode_with_visitor, types::*, DecodeError, TypeIdFor, Unexpected, Visitor};
use scale_decode::TypeResolver;
use std::marker::PhantomData;
#[global_allocator]
static A: run::Counting = run::Counting;

#[derive(Clone, Debug)]
enum B<'s, 'r> {
    Bytes(&'static str, &'s [u8]),
    Text(&'s str),
    Name(Option<&'r str>),
}
#[derive(Clone, Debug)]
enum W {
    Bytes(&'static str, usize, usize),
    Text(usize, usize),
    Name(Option<String>),
}
/// Handles for list and tuple items, in-place decoding for fields.
struct Keep<R>(PhantomData<fn() -> R>);
type Out<'s, 'r> = Vec<B<'s, 'r>>;
fn keep<R>() -> Keep<R> {
    Keep(PhantomData)
}
fn list<'s, 'r, R: TypeResolver + 'r, C: Cont<'s, 'r, R>>(v: &mut C) -> Result<Out<'s, 'r>, DecodeError> {
    let mut o = vec![B::Bytes("from start", v.from_start()), B::Bytes("from undecoded", v.undecoded())];
    while let Some(h) = v.handle() {
        let h = h?;
        o.push(B::Bytes("item", h.bytes()));
        o.extend(h.visit(keep::<R>())?);
    }
    o.push(B::Bytes("after", v.undecoded()));
    Ok(o)
}
fn comp<'s, 'r, R: TypeResolver>(v: &mut Composite<'s, 'r, R>) -> Result<Out<'s, 'r>, DecodeError> {
    let mut o: Out = v.path().map(|p| B::Name(Some(p))).collect();
    o.push(B::Name(v.name()));
    o.push(B::Bytes("from start", v.bytes_from_start()));
    loop {
        o.push(B::Bytes("from undecoded", v.bytes_from_undecoded()));
        o.push(B::Name(v.peek_name()));
        match v.decode_item(keep::<R>()) {
            Some(x) => o.extend(x?),
            None => break,
        }
    }
    for f in v.fields() {
        o.push(B::Name(f.name));
    }
    Ok(o)
}
impl<R: TypeResolver> Visitor for Keep<R> {
    type Value<'s, 'r> = Out<'s, 'r>;
    type Error = DecodeError;
    type TypeResolver = R;
    fn visit_unexpected<'s, 'r>(self, _: Unexpected) -> Result<Self::Value<'s, 'r>, Self::Error> {
        Ok(vec![])
    }
    fn visit_u256<'r>(self, v: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        Ok(vec![B::Bytes("u256", v)])
    }
    fn visit_i256<'r>(self, v: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        Ok(vec![B::Bytes("i256", v)])
    }
    fn visit_str<'s, 'r>(self, v: &mut Str<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        Ok(vec![B::Bytes("str start", v.bytes_from_start()), B::Bytes("str after", v.bytes_after()?), B::Text(v.as_str()?)])
    }
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        Ok(vec![B::Bytes("bits start", v.bytes_from_start()), B::Bytes("bits after", v.bytes_after()?)])
    }
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        list(v)
    }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        list(v)
    }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        list(v)
    }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        comp(v)
    }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let mut o = vec![B::Bytes("variant start", v.bytes_from_start()), B::Name(Some(v.name()))];
        o.extend(comp(v.fields())?);
        Ok(o)
    }
}
fn want(m: &Model, n: &Node, lim: usize, o: &mut Vec<W>) {
    fn list(m: &Model, n: &Node, body: usize, items: &[Node], lim: usize, o: &mut Vec<W>) {
        o.push(W::Bytes("from start", n.start, lim));
        o.push(W::Bytes("from undecoded", body, lim));
        for x in items {
            o.push(W::Bytes("item", x.start, x.end));
            want(m, x, x.end, o);
        }
        o.push(W::Bytes("after", n.end, lim));
    }
    fn comp(m: &Model, path: &[String], fs: &[FieldDef], at: usize, end: usize, items: &[Node], lim: usize, o: &mut Vec<W>) {
        for p in path {
            o.push(W::Name(Some(p.clone())));
        }
        o.push(W::Name(path.last().cloned()));
        o.push(W::Bytes("from start", at, lim));
        for (x, f) in items.iter().zip(fs) {
            o.push(W::Bytes("from undecoded", x.start, lim));
            o.push(W::Name(f.name.clone()));
            want(m, x, lim, o);
        }
        o.push(W::Bytes("from undecoded", end, lim));
        o.push(W::Name(None));
        for f in fs {
            o.push(W::Name(f.name.clone()));
        }
    }
    match (&n.k, m.def(n.ty).unwrap()) {
        (K::B32(Prim::U256, _), _) => o.push(W::Bytes("u256", n.start, n.end)),
        (K::B32(..), _) => o.push(W::Bytes("i256", n.start, n.end)),
        (K::Str { off, .. }, _) => {
            o.push(W::Bytes("str start", n.start, lim));
            o.push(W::Bytes("str after", n.end, lim));
            o.push(W::Text(*off, n.end));
        }
        (K::Bits(_), _) => {
            o.push(W::Bytes("bits start", n.start, lim));
            o.push(W::Bytes("bits after", n.end, lim));
        }
        (K::Seq { body, items }, _) => list(m, n, *body, items, lim, o),
        (K::Arr(items), _) | (K::Tuple(items), _) => list(m, n, n.start, items, lim, o),
        (K::Comp(items), Def::Comp { path, fields }) => comp(m, path, fields, n.start, n.end, items, lim, o),
        (K::Var { v, fields }, Def::Var { variants, .. }) => {
            let d = &variants[*v];
            o.push(W::Bytes("variant start", n.start, lim));
            o.push(W::Name(Some(d.name.clone())));
            comp(m, &[d.name.clone()], &d.fields, n.start + 1, n.end, fields, lim, o)
        }
        _ => {}
    }
}
fn keepers<R: MapId>(c: &mut Case, j: &Job, types: &R) {
    let pristine = j.input.clone();
    let cur = &mut &*j.input;
    let got = match decode_with_visitor(cur, types.make_id(j.id), types, keep::<R>()) {
        Ok(g) => g,
        Err(e) => return c.viol(format!("decoding failed: {e}")),
    };
    // other decodes of the same and of other bytes in between
    for _ in 0..2 {
        let mut other = j.input.clone();
        mutate(&mut c.rng, &mut other);
        if refdec(&j.m, j.id, &other) == Err(RErr::Budget) {
            continue;
        }
        let _ = decode_with_visitor(&mut &*other, types.make_id(j.id), types, keep::<R>()).map(|x| x.len());
        let _ = decode_any(&j.input, types.make_id(j.id), types);
    }
    let mut w = vec![];
    want(&j.m, &j.node, j.input.len(), &mut w);
    if got.len() != w.len() {
        return c.viol(format!("{} borrowed pieces, expected {}", got.len(), w.len()));
    }
    let base = j.input.as_ptr() as usize;
    for (i, (g, w)) in got.iter().zip(&w).enumerate() {
        let bad = match (g, w) {
            (B::Name(g), W::Name(w)) => g.map(|s| s.to_string()) != *w,
            (B::Bytes(k, g), W::Bytes(l, a, b)) => {
                c.count(k, 1);
                k != l || *g != &pristine[*a..*b] || (!g.is_empty() && g.as_ptr() as usize != base + a)
            }
            (B::Text(g), W::Text(a, b)) => {
                c.count("text", 1);
                g.as_bytes() != &pristine[*a..*b] || (!g.is_empty() && g.as_ptr() as usize != base + a)
            }
            _ => true,
        };
        if bad {
            c.viol(format!("borrowed piece {i} is {g:?}, expected {w:?} (input at {base:#x})"));
            break;
        }
    }
    c.count("pieces", got.len() as u64);
}
fn case(c: &mut Case) {
    let m = model(c, false);
    let reg = m.portable();
    for _ in 0..3 {
        let Some(j) = job(c, &m, false) else { continue };
        explore_any(c, &j, Mode::Full, &[Tag::Addr]);
        explore_any(c, &j, Mode::Partial, &[Tag::Addr]);
        if j.node.count() < 3000 {
            keepers(c, &j, &reg);
            keepers(c, &j, &ModelResolver(&m));
        }
        record(c, &j);
    }
}
fn main() {
    run::run("C15", run::Opts { quick: 40_000, thorough: 2_000_000, ..Default::default() }, case)
}
