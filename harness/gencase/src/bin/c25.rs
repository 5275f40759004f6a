//! What the errors of failing decodes say is wrong.
use mon::any::{AErr, Adapted, Adapted2, AnyVal};
use mon::conv::*;
use mon::convrun::*;
use mon::faults::{faults, Cause};
use mon::model::*;
use mon::resolvers::*;
use mon::run::{self, cut, hex, Case};
use mon::targets::*;
use mon::val::*;
use scale_decode::error::{ErrorKind, Location};
use scale_decode::visitor::types::{Array, BitSequence, Composite, Sequence, Str, Tuple, Variant};
use scale_decode::visitor::{decode_with_visitor, DecodeError, DecodeItemIterator, IgnoreVisitor, TypeIdFor, Unexpected};
use scale_decode::{DecodeAsType, Error, TypeResolver, Visitor};
use scale_info::PortableRegistry as P;
use std::cell::RefCell;
use std::marker::PhantomData;
#[global_allocator]
static A: run::Counting = run::Counting;
mod gen {
    include!(concat!(env!("GEN_DIR"), "/types.rs"));
}
type W = Wrap<ModelResolver<Model>>;
struct T {
    p: Vec<Entry<P>>,
    w: Vec<Entry<W>>,
}
fn entries<R: TypeResolver>() -> Vec<Entry<R>> {
    let mut v: Vec<Entry<R>> = gen::decls::structs().into_iter().map(|s| s.e).collect();
    v.extend(gen::decls::enums());
    v.extend(gen::decls::others());
    for _ in 0..4 {
        v.extend(mon::entries!(R; PhantomData<u8>, (PhantomData<u8>, u8), Option<PhantomData<bool>>, Vec<PhantomData<u8>>, (), Vec<()>,
            Result<(), PhantomData<u8>>, Box<PhantomData<u8>>, [PhantomData<u8>; 2], (u8,), ((u8,),), Option<(u8, u8)>, std::ops::Range<u8>));
    }
    for _ in 0..2 {
        v.extend(int_entries());
        v.extend(scalar_entries());
        v.extend(list_entries());
        v.extend(tuple_entries());
        v.extend(map_entries());
        v.extend(choice_entries());
        v.extend(ptr_entries());
    }
    v
}

/// What the text of an error has to contain.
fn words_d(d: &DecodeError) -> Vec<String> {
    match d {
        DecodeError::TypeIdNotFound(s) | DecodeError::TypeResolvingError(s) => vec![s.clone()],
        DecodeError::InvalidChar(n) => vec![n.to_string()],
        DecodeError::VariantNotFound(n) => vec![n.to_string()],
        DecodeError::Unexpected(k) => vec![format!("{k:?}").to_lowercase()],
        DecodeError::InvalidStr(e) => vec![e.to_string()],
        DecodeError::CodecError(e) => vec![e.to_string()],
        _ => vec![],
    }
}
fn words(e: &ErrorKind) -> Vec<String> {
    match e {
        ErrorKind::VisitorDecodeError(d) => words_d(d),
        ErrorKind::NumberOutOfRange { value } => vec![value.clone()],
        ErrorKind::CannotFindVariant { got, expected } => {
            std::iter::once(got.clone()).chain(expected.iter().map(|s| s.to_string())).collect()
        }
        ErrorKind::WrongLength { actual_len, expected_len } => vec![actual_len.to_string(), expected_len.to_string()],
        ErrorKind::CannotFindField { name } => vec![name.clone()],
        ErrorKind::Custom(e) => vec![e.to_string()],
    }
}
/// Text says what the parts say.
fn text(c: &mut Case, e: &Error) {
    let (whole, kind, path) = (e.to_string(), e.kind().to_string(), e.context().path().to_string());
    for w in words(e.kind()) {
        // names with characters that are escaped in lists
        let esc = format!("{w:?}");
        let esc = &esc[1..esc.len() - 1];
        for t in [&whole, &kind] {
            if !t.contains(&w) && !t.contains(esc) {
                c.viol(format!("the error {:?} reads {t:?}, which does not say {w:?}", e.kind()));
            }
        }
    }
    if let ErrorKind::VisitorDecodeError(d) = e.kind() {
        let t = d.to_string();
        if !words_d(d).iter().all(|w| t.contains(w.as_str())) {
            c.viol(format!("the error {d:?} reads {t:?}"));
        }
    }
    if kind.is_empty() || !whole.contains(&path) {
        c.viol(format!("the error {:?} at {path:?} reads {whole:?}", e.kind()));
    }
}

// ---- targets that do not fit

fn unfit(t: &T, c: &mut Case) {
    let e = c.rng.pick(&t.p);
    let bend = match c.rng.below(4) {
        0 => Bend { wrong: 120, missing: 0, ..Default::default() },
        1 => Bend { wrong: 40, missing: 120, wrap: 200, ..Default::default() },
        2 => Bend { wrong: 10, missing: 60, extra: 600, ..Default::default() },
        _ => Bend { wrong: 1000, wrap: 400, compact: 600, ..Default::default() },
    };
    let shape = (e.shape)();
    let Some(mut x) = make(c, &shape, bend, 40) else { return };
    let reg = x.m.portable();
    for k in 0..3 {
        if k > 0 {
            let hints = if c.rng.chance(1, 2) { Default::default() } else { x.hints.clone() };
            let Some(y) = value(c, x.m.clone(), x.id, hints, 40) else { return };
            x = y;
        }
        let want = conv(&x.m, &shape, &x.node);
        let (m, id, node, input) = (&x.m, x.id, &x.node, &x.bytes);
        c.context(|| {
            format!("target {} type {} input {} value {} reference {}", e.name, m.show(id), hex(input), node.show(), cut(&format!("{want:?}"), 800))
        });
        let got = (e.decode)(&mut &**input, id as u32, &reg);
        c.eval();
        if let (Err(es), Err(g)) = (&want, &got) {
            text(c, g);
            match es.iter().find(|w| cause_matches(&w.class, g)) {
                Some(w) => {
                    c.count(class_name(&w.class), 1);
                    seen(c, e.name, m, id, input, &want);
                }
                None => c.viol(format!("{} failed with {:?}, what is wrong is one of {}", e.name, g.kind(), cut(&format!("{es:?}"), 600))),
            }
        }
    }
}

// ---- one fault in otherwise good bytes

fn wrong(c: &mut Case, what: &str, cause: &Cause, got: &Result<String, DecodeError>, may_pass: bool) {
    c.eval();
    match got {
        Err(d) if cause.is(d) => c.count(cause.name(), 1),
        Ok(_) if may_pass => {}
        g => c.viol(format!("{what}: what is wrong is {cause:?}, what it gave is {}", cut(&format!("{g:?}"), 500))),
    }
}
fn plain(c: &mut Case, r: Result<impl std::fmt::Debug, Error>) -> Result<String, DecodeError> {
    match r {
        Ok(v) => Ok(cut(&format!("{v:?}"), 200)),
        Err(e) => {
            text(c, &e);
            match e.kind() {
                ErrorKind::VisitorDecodeError(d) => Err(d.clone()),
                k => Ok(format!("no decode error but {k:?}")),
            }
        }
    }
}
/// The same fault met by a full read, adapted ones, and skipping.
fn readers<R: MapId>(c: &mut Case, b: &[u8], id: Id, types: &R, cause: &Cause) {
    let at = || types.make_id(id);
    let r = AnyVal::decode_as_type(&mut &*b, at(), types);
    let r = plain(c, r);
    wrong(c, "a full read", cause, &r, false);
    let r = Adapted::decode_as_type(&mut &*b, at(), types);
    let r = plain(c, r);
    wrong(c, "an adapted full read", cause, &r, false);
    let r = Adapted2::decode_as_type(&mut &*b, at(), types);
    let r = plain(c, r);
    wrong(c, "a twice adapted full read", cause, &r, false);
    let r = decode_with_visitor(&mut &*b, at(), types, IgnoreVisitor::<R>::new()).map(|_| String::new());
    wrong(c, "skipping", cause, &r, *cause == Cause::Utf8);
}
fn spoiled(t: &T, c: &mut Case) {
    let e = c.rng.pick(&t.p);
    let shape = (e.shape)();
    let bend = Bend { wrong: 0, missing: 0, ..Default::default() };
    let Some(x) = make(c, &shape, bend, 50) else { return };
    let reg = x.m.portable();
    let fits = conv(&x.m, &shape, &x.node).is_ok();
    for (mut b, cause, _) in faults(c, &x.m, &x.node, &x.bytes) {
        if cause != Cause::Eof && c.rng.chance(1, 3) {
            let t = c.rng.below(9);
            b.extend(c.rng.bytes(t));
        }
        c.context(|| format!("target {} type {} good {} spoiled {} ({cause:?})", e.name, x.m.show(x.id), hex(&x.bytes), hex(&b)));
        readers(c, &b, x.id, &reg, &cause);
        if fits {
            let r = (e.decode)(&mut &*b, x.id as u32, &reg);
            let r = plain(c, r);
            // a string nobody reads may be anything
            wrong(c, e.name, &cause, &r, cause == Cause::Utf8);
        }
        c.distinct(&[e.name.as_bytes(), x.m.show(x.id).as_bytes(), &b]);
        c.sample(|| format!("{} <- {} {}: {cause:?}", cut(e.name, 80), cut(&x.m.show(x.id), 300), hex(&b)));
    }
}

// ---- types that cannot be had

fn types(t: &T, c: &mut Case) {
    let e = c.rng.pick(&t.w);
    let shape = (e.shape)();
    let bend = Bend { wrong: 0, missing: 0, ..Default::default() };
    let Some(x) = make(c, &shape, bend, 40) else { return };
    let fits = conv(&x.m, &shape, &x.node).is_ok();
    let mut ids: Vec<Id> = vec![];
    x.node.walk(&mut |n| {
        ids.push(n.ty);
        ids.extend(n.via);
    });
    for _ in 0..3 {
        let hole = *c.rng.pick(&ids);
        let types = Wrap::new(ModelResolver(x.m.clone()));
        let cause = if c.rng.chance(1, 2) {
            types.unknown.set(Some(hole));
            Cause::NotFound(sid(hole).0)
        } else {
            types.fail_type.set(Some(hole));
            Cause::Resolver
        };
        c.context(|| format!("target {} type {} input {} without {} ({cause:?})", e.name, x.m.show(x.id), hex(&x.bytes), x.m.show(hole)));
        readers(c, &x.bytes, x.id, &types, &cause);
        if fits {
            let r = (e.decode)(&mut &*x.bytes, types.make_id(x.id), &types);
            let r = plain(c, r);
            wrong(c, e.name, &cause, &r, false);
        }
        // the portable registry just does not have it
        let n = c.rng.below(1 << 20) as u32 + (1 << 20);
        let r = decode_with_visitor(&mut &*x.bytes, n, &x.m.portable(), IgnoreVisitor::<P>::new()).map(|_| String::new());
        wrong(c, "an id the registry lacks", &Cause::NotFound(n.to_string()), &r, false);
        c.distinct(&[e.name.as_bytes(), x.m.show(x.id).as_bytes(), &hole.to_le_bytes(), cause.name().as_bytes()]);
    }
    // something said to be compact that cannot be
    let mut m = x.m.clone();
    let mut ok: Vec<Id> = vec![];
    x.node.walk(&mut |n| {
        if !compactable(&x.m, n.ty) && !hollow(&x.m, n.ty) {
            ok.push(n.ty)
        }
    });
    if ok.is_empty() {
        return;
    }
    let bad = *c.rng.pick(&ok);
    let moved = m.add(x.m.defs[bad].clone());
    m.defs[bad] = Def::Compact(moved);
    c.context(|| format!("target {} type {} input {} where {} is said to be compact", e.name, m.show(x.id), hex(&x.bytes), x.m.show(bad)));
    let types = Wrap::new(ModelResolver(m.clone()));
    readers(c, &x.bytes, x.id, &types, &Cause::Compact);
    readers(c, &x.bytes, x.id, &m.portable(), &Cause::Compact);
    // (a one-element tuple stands for its element where the type is a compact one, which may then be unfit as well)
    let mut n = x.node.clone();
    said_compact(&mut n, bad, moved);
    if conv(&m, &shape, &n).is_ok() {
        let r = (e.decode)(&mut &*x.bytes, types.make_id(x.id), &types);
        let r = plain(c, r);
        wrong(c, e.name, &Cause::Compact, &r, false);
    }
    c.distinct(&[e.name.as_bytes(), m.show(x.id).as_bytes(), b"compact"]);
}
fn said_compact(n: &mut Node, bad: Id, moved: Id) {
    if n.ty == bad {
        n.ty = moved;
        n.via = Some(bad);
    }
    match &mut n.k {
        K::Seq { items, .. } => items.iter_mut().for_each(|k| said_compact(k, bad, moved)),
        K::Arr(x) | K::Tuple(x) | K::Comp(x) => x.iter_mut().for_each(|k| said_compact(k, bad, moved)),
        K::Var { fields, .. } => fields.iter_mut().for_each(|k| said_compact(k, bad, moved)),
        _ => {}
    }
}
/// Nothing but nothing inside: takes no bytes, compact or not.
fn hollow(m: &Model, id: Id) -> bool {
    let mut id = id;
    for _ in 0..64 {
        match m.def(id) {
            Some(Def::Comp { fields, .. }) if fields.len() == 1 => id = fields[0].ty,
            Some(Def::Tuple(ts)) if ts.len() == 1 => id = ts[0],
            Some(Def::Compact(t)) => id = *t,
            Some(Def::Comp { fields, .. }) => return fields.is_empty(),
            Some(Def::Tuple(ts)) => return ts.is_empty(),
            _ => return false,
        }
    }
    false
}

// ---- visitors that handle nothing, or only containers

/// Handles nothing.
struct Blank<R>(PhantomData<R>);
impl<R: TypeResolver> Visitor for Blank<R> {
    type Value<'s, 'r> = ();
    type Error = DecodeError;
    type TypeResolver = R;
}
/// Handles nothing, but wants to know.
struct Tell<'c, R>(&'c RefCell<Vec<Unexpected>>, u8, PhantomData<R>);
#[derive(Debug)]
enum TErr {
    Own(u8, Unexpected),
    Dec(DecodeError),
}
impl From<DecodeError> for TErr {
    fn from(d: DecodeError) -> Self {
        TErr::Dec(d)
    }
}
impl<'c, R: TypeResolver> Visitor for Tell<'c, R> {
    type Value<'s, 'r> = (u8, Unexpected);
    type Error = TErr;
    type TypeResolver = R;
    fn visit_unexpected<'s, 'r>(self, k: Unexpected) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.0.borrow_mut().push(k);
        if self.1 & 1 == 0 {
            Ok((self.1, k))
        } else {
            Err(TErr::Own(self.1, k))
        }
    }
}
/// Handles containers, whose items nobody handles.
struct Parts<'c, R>(&'c RefCell<Vec<Result<(), DecodeError>>>, PhantomData<R>);
impl<'c, R: TypeResolver> Parts<'c, R> {
    fn all<'s, 'r>(&self, v: &mut impl DecodeItemIterator<'s, 'r, R>) {
        while let Some(r) = v.decode_item(Blank(PhantomData)) {
            self.0.borrow_mut().push(r);
            if self.0.borrow().len() > 3000 {
                return;
            }
        }
    }
}
impl<'c, R: TypeResolver> Visitor for Parts<'c, R> {
    type Value<'s, 'r> = ();
    type Error = DecodeError;
    type TypeResolver = R;
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.all(v);
        Ok(())
    }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.all(v);
        Ok(())
    }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.all(v);
        Ok(())
    }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.all(v);
        Ok(())
    }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.all(v.fields());
        Ok(())
    }
}
fn blank<R: MapId>(c: &mut Case, m: &Model, id: Id, n: &Node, b: &[u8], types: &R) {
    let at = || types.make_id(id);
    let kind = kind_of(n);
    c.eval();
    match decode_with_visitor(&mut &*b, at(), types, Blank::<R>(PhantomData)) {
        Err(DecodeError::Unexpected(k)) if k == kind => c.count(KINDS[kind as usize], 1),
        r => c.viol(format!("a visitor that handles nothing gave {r:?} for {kind:?}")),
    }
    let (told, tag) = (RefCell::new(vec![]), c.rng.below(256) as u8);
    let r = decode_with_visitor(&mut &*b, at(), types, Tell::<R>(&told, tag, PhantomData));
    c.eval();
    let fine = match &r {
        Ok(x) => tag & 1 == 0 && *x == (tag, kind),
        Err(TErr::Own(t, k)) => tag & 1 == 1 && (*t, *k) == (tag, kind),
        Err(TErr::Dec(_)) => false,
    };
    if !fine || *told.borrow() != [kind] {
        c.viol(format!("a visitor that handles nothing was told {:?} of {kind:?}, and gave {r:?}", told.borrow()));
    }
    let parts = RefCell::new(vec![]);
    let r = decode_with_visitor(&mut &*b, at(), types, Parts::<R>(&parts, PhantomData));
    c.eval();
    let kids: Vec<_> = n.kids().iter().map(|k| Err(DecodeError::Unexpected(kind_of(k)))).collect();
    let parts = parts.into_inner();
    match (&n.k, r) {
        (K::Seq { .. } | K::Arr(_) | K::Tuple(_) | K::Comp(_) | K::Var { .. }, Ok(())) => {
            // after an item that failed there need not be more
            if parts.iter().zip(&kids).any(|(a, b)| a != b) || parts.len() > kids.len() || (parts.is_empty() && !kids.is_empty()) {
                c.viol(format!("items nobody handles gave {}, expected {}", cut(&format!("{parts:?}"), 500), cut(&format!("{kids:?}"), 500)));
            }
            c.count("items_judged", parts.len() as u64);
        }
        (K::Seq { .. } | K::Arr(_) | K::Tuple(_) | K::Comp(_) | K::Var { .. }, r) => c.viol(format!("a container read through gave {r:?}")),
        (_, Err(DecodeError::Unexpected(k))) if k == kind => {}
        (_, r) => c.viol(format!("a visitor for containers gave {r:?} for {kind:?}")),
    }
    c.distinct(&[b"blank", m.show(id).as_bytes(), b]);
}
const KINDS: [&str; 21] = [
    "kind_bool", "kind_char", "kind_u8", "kind_u16", "kind_u32", "kind_u64", "kind_u128", "kind_u256", "kind_i8", "kind_i16", "kind_i32",
    "kind_i64", "kind_i128", "kind_i256", "kind_sequence", "kind_composite", "kind_tuple", "kind_str", "kind_variant", "kind_array",
    "kind_bitsequence",
];
fn kinds(c: &mut Case) {
    let m = mon::common::model(c, false);
    let (reg, own) = (m.portable(), ModelResolver(m.clone()));
    for _ in 0..6 {
        let Some(j) = mon::common::job(c, &m, true) else { continue };
        blank(c, &j.m, j.id, &j.node, &j.input, &reg);
        blank(c, &j.m, j.id, &j.node, &j.input, &own);
        // what strings and bit sequences say when they are cut short
        short(c, &j);
    }
}
/// Asks strings and bit sequences for what the input no longer has.
struct Short<'c, R>(&'c RefCell<Vec<DecodeError>>, PhantomData<R>);
impl<'c, R: TypeResolver> Visitor for Short<'c, R> {
    type Value<'s, 'r> = ();
    type Error = DecodeError;
    type TypeResolver = R;
    fn visit_str<'s, 'r>(self, v: &mut Str<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let mut e = self.0.borrow_mut();
        e.extend(v.bytes_after().err());
        e.extend(v.as_str().err());
        Ok(())
    }
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let mut e = self.0.borrow_mut();
        e.extend(v.bytes_after().err());
        e.extend(v.decode().err());
        Ok(())
    }
}
fn short(c: &mut Case, j: &mon::common::Job) {
    let (mut m, mut r) = (j.m.clone(), c.rng.fork());
    let id = if r.chance(1, 2) { m.prim(Prim::Str) } else { m.add(Def::Bits(*r.pick(&BIT_FMTS))) };
    let Some((_, b)) = gen_value(&mut r, &m, id, &ValOpts::default()) else { return };
    if b.is_empty() {
        return;
    }
    let b = &b[..r.below(b.len())];
    let errs = RefCell::new(vec![]);
    c.context(|| format!("type {} cut to {}", m.show(id), hex(b)));
    let r = decode_with_visitor(&mut &*b, id as u32, &m.portable(), Short::<P>(&errs, PhantomData)).map(|_| String::new());
    wrong(c, "a value cut short", &Cause::Eof, &r, false);
    for d in errs.into_inner() {
        wrong(c, "an accessor of a value cut short", &Cause::Eof, &Err(d), false);
    }
}

// ---- errors handed about

#[derive(Debug, PartialEq)]
struct Mine(u64);
impl std::fmt::Display for Mine {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "mine {}", self.0)
    }
}
impl std::error::Error for Mine {}
/// An error that comes from a visitor of the user's own.
struct Fails<R>(DecodeError, PhantomData<R>);
impl<R: TypeResolver> Visitor for Fails<R> {
    type Value<'s, 'r> = ();
    type Error = AErr;
    type TypeResolver = R;
    fn visit_unexpected<'s, 'r>(self, _: Unexpected) -> Result<Self::Value<'s, 'r>, Self::Error> {
        Err(self.0.into())
    }
}
fn any_decode_error(c: &mut Case) -> DecodeError {
    let word = |c: &mut Case| gen_string(&mut c.rng);
    match c.rng.below(9) {
        0 => DecodeError::TypeIdNotFound(word(c)),
        1 => DecodeError::TypeResolvingError(word(c)),
        2 => DecodeError::CannotDecodeCompactIntoType,
        3 => DecodeError::InvalidStr(String::from_utf8(vec![b'a', 0xff]).unwrap_err().utf8_error()),
        4 => DecodeError::InvalidChar(c.rng.next() as u32),
        5 => DecodeError::NotEnoughInput,
        6 => DecodeError::VariantNotFound(c.rng.next() as u8),
        7 => DecodeError::CodecError("out of tune".into()),
        _ => DecodeError::Unexpected(*c.rng.pick(&ALL_KINDS)),
    }
}
const ALL_KINDS: [Unexpected; 21] = {
    use Unexpected::*;
    [
        Bool, Char, U8, U16, U32, U64, U128, U256, I8, I16, I32, I64, I128, I256, Sequence, Composite, Tuple, Str, Variant, Array,
        Bitsequence,
    ]
};
fn handed(c: &mut Case) {
    let word = |c: &mut Case| gen_string(&mut c.rng);
    let n = c.rng.next();
    let static_words = ["", "went wrong", "número fuera de rango", "a\nb"];
    let w: &'static str = *c.rng.pick(&static_words);
    // (the error, does its kind still say it, in words)
    let mk: (Error, String, Box<dyn Fn(&ErrorKind) -> bool>) = match c.rng.below(9) {
        0 => {
            let d = any_decode_error(c);
            let e = match c.rng.below(3) {
                0 => Error::from(d.clone()),
                1 => Error::new(d.clone().into()),
                _ => Error::new(ErrorKind::VisitorDecodeError(d.clone())),
            };
            (e, format!("{d:?}"), Box::new(move |k| matches!(k, ErrorKind::VisitorDecodeError(x) if *x == d)))
        }
        1 => {
            let x: codec::Error = w.into();
            (x.clone().into(), format!("{x:?}"), Box::new(move |k| matches!(k, ErrorKind::VisitorDecodeError(DecodeError::CodecError(y)) if x == *y)))
        }
        2 => (Error::custom(Mine(n)), format!("mine {n}"), Box::new(move |k| matches!(k, ErrorKind::Custom(x) if x.downcast_ref() == Some(&Mine(n))))),
        3 => (Error::custom_str(w), w.into(), Box::new(move |k| matches!(k, ErrorKind::Custom(x) if x.to_string().contains(w)))),
        4 => {
            let s = word(c);
            (Error::custom_string(s.clone()), s.clone(), Box::new(move |k| matches!(k, ErrorKind::Custom(x) if x.to_string().contains(s.as_str()))))
        }
        5 => {
            let s = word(c);
            let k = if c.rng.chance(1, 2) {
                ErrorKind::NumberOutOfRange { value: s.clone() }
            } else {
                ErrorKind::CannotFindField { name: s.clone() }
            };
            let number = matches!(k, ErrorKind::NumberOutOfRange { .. });
            (Error::new(k), s.clone(), Box::new(move |k| match k {
                ErrorKind::NumberOutOfRange { value } => number && *value == s,
                ErrorKind::CannotFindField { name } => !number && *name == s,
                _ => false,
            }))
        }
        6 => {
            let (got, names) = (word(c), ["a", "Bee", w]);
            let g = got.clone();
            (Error::new(ErrorKind::CannotFindVariant { got: got.clone(), expected: names.to_vec() }), got, Box::new(move |k| {
                matches!(k, ErrorKind::CannotFindVariant { got, expected } if *got == g && expected[..] == names)
            }))
        }
        7 => {
            let (a, b) = (c.rng.below(1000), c.rng.next() as usize);
            (Error::new(ErrorKind::WrongLength { actual_len: a, expected_len: b }), format!("{a} {b}"), Box::new(move |k| {
                matches!(k, ErrorKind::WrongLength { actual_len, expected_len } if *actual_len == a && *expected_len == b)
            }))
        }
        _ => {
            // through a visitor, a container's item and adaptors
            let d = any_decode_error(c);
            let mut m = Model::new();
            let u = m.prim(Prim::U8);
            let reg = m.portable();
            let v = Fails::<P>(d.clone(), PhantomData);
            let e = match c.rng.below(2) {
                0 => decode_with_visitor(&mut &[1u8][..], u as u32, &reg, scale_decode::visitor::VisitorWithCrateError(v)),
                _ => decode_with_visitor(
                    &mut &[1u8][..],
                    u as u32,
                    &reg,
                    scale_decode::visitor::VisitorWithCrateError(scale_decode::visitor::VisitorWithCrateError(v)),
                ),
            }
            .expect_err("it always fails");
            (e, format!("{d:?}"), Box::new(move |k| matches!(k, ErrorKind::VisitorDecodeError(x) if *x == d)))
        }
    };
    let (mut e, what, says) = mk;
    let mut steps: Vec<Location> = vec![];
    let how = c.rng.below(5);
    for _ in 0..how {
        if !says(e.kind()) {
            break;
        }
        let (i, s) = (c.rng.below(100), word(c));
        let l;
        (e, l) = match c.rng.below(4) {
            0 => (e.at_idx(i), Location::idx(i)),
            1 => (e.at_field(s.clone()), Location::field(s)),
            2 => (e.at_variant(s.clone()), Location::variant(s)),
            _ => (e.at(Location::idx(i)), Location::idx(i)),
        };
        steps.insert(0, l);
    }
    c.context(|| format!("an error about {what:?}, located {how} times"));
    c.eval();
    c.count("errors_handed_about", 1);
    if !says(e.kind()) {
        c.viol(format!("it became {:?}", e.kind()));
    }
    if e.context().path().locations().cloned().collect::<Vec<_>>() != steps {
        c.viol(format!("it is at {}", e.context().path()));
    }
    text(c, &e);
    c.distinct(&[b"handed", e.to_string().as_bytes()]);
}

fn case(t: &T, c: &mut Case) {
    match c.rng.below(10) {
        0..=3 => unfit(t, c),
        4..=5 => spoiled(t, c),
        6..=7 => types(t, c),
        8 => kinds(c),
        _ => handed(c),
    }
}
fn main() {
    let t = T { p: entries(), w: entries() };
    run::run("C25", run::Opts { quick: 150_000, thorough: 2_000_000, ..Default::default() }, |c| case(&t, c))
}
