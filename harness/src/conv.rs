//! Target shapes, the reference conversion from an encoded value to a target, and sources made to fit a target.
use crate::any::{any_of, Any};
use crate::model::*;
use crate::rng::Rng;
use crate::val::{Hints, Node, NumHint, K};
use scale_decode::error::{Error, ErrorKind, Location};
use scale_decode::visitor::{DecodeError, Unexpected};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct IntKind {
    pub bits: u32,
    pub signed: bool,
    pub nonzero: bool,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ListKind {
    /// keeps order
    List,
    /// keeps elements, order unspecified
    Bag,
    /// keeps distinct elements
    Set,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FKind {
    Named,
    Unnamed,
    Unit,
}
#[derive(Clone, Debug)]
pub struct TF {
    pub name: String,
    pub shape: Shape,
    /// the default value if the field is skipped
    pub skip: Option<TVal>,
}
#[derive(Clone, Debug)]
pub struct SDef {
    pub name: &'static str,
    pub kind: FKind,
    pub fields: Vec<TF>,
}
#[derive(Clone, Debug)]
pub struct EDef {
    pub name: &'static str,
    pub variants: Vec<(String, FKind, Vec<TF>)>,
}
#[derive(Clone, Debug)]
pub enum Shape {
    Int(IntKind),
    Bool,
    Char,
    Str,
    Bits,
    Phantom,
    List(ListKind, Box<Shape>),
    Arr(usize, Box<Shape>),
    H(usize),
    Map(Box<Shape>),
    Opt(Box<Shape>),
    Res(Box<Shape>, Box<Shape>),
    Tuple(Vec<Shape>),
    /// Box, Rc, Arc, Cow, Compact
    Ptr(Box<Shape>),
    Duration,
    Range(Box<Shape>),
    Struct(Arc<SDef>),
    Enum(Arc<EDef>),
    Any,
    Lazy(fn() -> Shape),
}
#[derive(Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
pub enum TVal {
    U(u128),
    Neg(i128),
    Bool(bool),
    Char(char),
    Str(String),
    Bits(Vec<bool>),
    Unit,
    List(Vec<TVal>),
    Map(Vec<(String, TVal)>),
    Opt(Option<Box<TVal>>),
    Res(Result<Box<TVal>, Box<TVal>>),
    Dur(u64, u32),
    Enum(String, Vec<TVal>),
    Any(Any),
}
pub fn tint(n: i128) -> TVal {
    if n < 0 {
        TVal::Neg(n)
    } else {
        TVal::U(n as u128)
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum CClass {
    OutOfRange(String),
    /// what is lacking, and the names there are
    NoVariant(String, Vec<String>),
    Length { actual: usize, expected: usize },
    NoField(String),
    /// the encoded kind does not fit the target's
    Unexpected(Unexpected),
    /// malformed bytes
    Decode,
    /// a value the target cannot hold although its parts can
    Overflow,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Field(String),
    Idx(usize),
    Variant(&'static str),
}
#[derive(Clone, Debug, PartialEq)]
pub struct CErr {
    pub class: CClass,
    pub path: Vec<Step>,
}
pub type CRes = Result<TVal, Vec<CErr>>;
fn err(c: CClass) -> CRes {
    Err(vec![CErr { class: c, path: vec![] }])
}
fn under(s: Step, r: CRes) -> CRes {
    r.map_err(|mut es| {
        for e in es.iter_mut() {
            e.path.insert(0, s.clone());
        }
        es
    })
}
/// All values, or all the errors.
fn all(rs: Vec<CRes>) -> Result<Vec<TVal>, Vec<CErr>> {
    let mut vs = vec![];
    let mut es: Vec<CErr> = vec![];
    for r in rs {
        match r {
            Ok(v) => vs.push(v),
            Err(e) => {
                if es.len() < 200 {
                    es.extend(e)
                }
            }
        }
    }
    if es.is_empty() {
        Ok(vs)
    } else {
        Err(es)
    }
}
/// The one item of a single-field struct or tuple.
fn single(n: &Node) -> Option<&Node> {
    match &n.k {
        K::Comp(v) | K::Tuple(v) if v.len() == 1 => Some(&v[0]),
        _ => None,
    }
}
pub fn struct_like(n: &Node) -> bool {
    matches!(n.k, K::Comp(_) | K::Tuple(_))
}
fn fields(m: &Model, names: Option<&[FieldDef]>, items: &[Node], kind: FKind, fs: &[TF], variant: bool) -> Result<Vec<TVal>, Vec<CErr>> {
    let want = fs.iter().filter(|f| f.skip.is_none()).count();
    let by_name = kind == FKind::Named && names.is_some_and(|n| n.iter().all(|f| f.name.is_some()));
    if kind == FKind::Unit {
        // a unit variant takes no interest in the source's fields; a unit struct insists there are none
        if !variant && !items.is_empty() {
            return Err(vec![CErr { class: CClass::Length { actual: items.len(), expected: 0 }, path: vec![] }]);
        }
        return Ok(vec![]);
    }
    if !by_name && items.len() != want {
        return Err(vec![CErr { class: CClass::Length { actual: items.len(), expected: want }, path: vec![] }]);
    }
    let mut pos = 0;
    let mut out = vec![];
    for (i, f) in fs.iter().enumerate() {
        if let Some(d) = &f.skip {
            out.push(Ok(d.clone()));
            continue;
        }
        let item = if by_name {
            // names are unique in our sources
            match names.unwrap().iter().position(|x| x.name.as_deref() == Some(&f.name)) {
                Some(k) => &items[k],
                None => {
                    out.push(err(CClass::NoField(f.name.clone())));
                    continue;
                }
            }
        } else {
            pos += 1;
            &items[pos - 1]
        };
        let step = if kind == FKind::Named { Step::Field(f.name.clone()) } else { Step::Idx(i) };
        out.push(under(step, conv(m, &f.shape, item)));
    }
    all(out)
}
/// What decoding `n` into a target of shape `s` must give.
pub fn conv(m: &Model, s: &Shape, n: &Node) -> CRes {
    let through = |s: &Shape| match single(n) {
        Some(i) => conv(m, s, i),
        None => err(CClass::Unexpected(kind_of(n))),
    };
    match s {
        Shape::Lazy(f) => conv(m, &f(), n),
        Shape::Any => match any_of(m, n) {
            Some(a) => Ok(TVal::Any(a)),
            None => err(CClass::Decode),
        },
        Shape::Ptr(i) => conv(m, i, n),
        Shape::Int(k) => {
            let (mag, neg) = match &n.k {
                K::U(_, x) => (*x, false),
                K::I(_, x) => (x.unsigned_abs(), *x < 0),
                _ => return through(s),
            };
            let fits = if k.signed {
                let lim = 1u128 << (k.bits - 1);
                if neg { mag <= lim } else { mag < lim }
            } else {
                !neg && (k.bits == 128 || mag >> k.bits == 0)
            } && !(k.nonzero && mag == 0);
            if fits {
                Ok(if neg { TVal::Neg((mag as i128).wrapping_neg()) } else { TVal::U(mag) })
            } else {
                err(CClass::OutOfRange(if neg { format!("-{mag}") } else { format!("{mag}") }))
            }
        }
        Shape::Bool => match &n.k {
            K::Bool(b) => Ok(TVal::Bool(*b)),
            _ => through(s),
        },
        Shape::Char => match &n.k {
            K::Char(b) => Ok(TVal::Char(*b)),
            _ => through(s),
        },
        Shape::Str => match &n.k {
            K::Str { s: Some(b), .. } => Ok(TVal::Str(b.clone())),
            K::Str { s: None, .. } => err(CClass::Decode),
            _ => through(s),
        },
        Shape::Bits => match &n.k {
            K::Bits(b) => Ok(TVal::Bits(b.clone())),
            _ => through(s),
        },
        Shape::Phantom => match &n.k {
            K::Comp(v) | K::Tuple(v) if v.is_empty() => Ok(TVal::Unit),
            _ => err(CClass::Unexpected(kind_of(n))),
        },
        Shape::List(k, i) => match &n.k {
            K::Seq { items, .. } | K::Arr(items) => {
                let mut v = all(items.iter().enumerate().map(|(j, x)| under(Step::Idx(j), conv(m, i, x))).collect())?;
                if *k != ListKind::List {
                    v.sort();
                }
                if *k == ListKind::Set {
                    v.dedup();
                }
                Ok(TVal::List(v))
            }
            _ => through(s),
        },
        Shape::Arr(len, i) => match &n.k {
            K::Seq { items, .. } | K::Arr(items) => {
                let r = all(items.iter().enumerate().map(|(j, x)| under(Step::Idx(j), conv(m, i, x))).collect());
                if items.len() != *len {
                    let mut es = r.err().unwrap_or_default();
                    es.push(CErr { class: CClass::Length { actual: items.len(), expected: *len }, path: vec![] });
                    return Err(es);
                }
                Ok(TVal::List(r?))
            }
            _ => through(s),
        },
        Shape::H(len) => conv(
            m,
            &Shape::Arr(*len, Box::new(Shape::Int(IntKind { bits: 8, signed: false, nonzero: false }))),
            n,
        ),
        Shape::Map(i) => match (&n.k, m.def(n.ty)) {
            (K::Comp(items), Some(Def::Comp { fields, .. })) => {
                let mut keys = vec![];
                let mut rs = vec![];
                for (f, x) in fields.iter().zip(items) {
                    if let Some(name) = &f.name {
                        keys.push(name.clone());
                        rs.push(under(Step::Field(name.clone()), conv(m, i, x)));
                    }
                }
                let vs = all(rs)?;
                let mut kv: Vec<_> = keys.into_iter().zip(vs).collect();
                kv.sort();
                Ok(TVal::Map(kv))
            }
            _ => err(CClass::Unexpected(kind_of(n))),
        },
        Shape::Opt(i) => match (&n.k, m.def(n.ty)) {
            (K::Var { v, fields }, Some(Def::Var { variants, .. })) => match (variants[*v].name.as_str(), fields.len()) {
                ("Some", 1) => Ok(TVal::Opt(Some(Box::new(under(Step::Variant("Some"), conv(m, i, &fields[0]))?)))),
                ("None", 0) => Ok(TVal::Opt(None)),
                (g, _) => err(CClass::NoVariant(g.to_string(), vec!["Some".into(), "None".into()])),
            },
            _ => through(s),
        },
        Shape::Res(a, b) => match (&n.k, m.def(n.ty)) {
            (K::Var { v, fields }, Some(Def::Var { variants, .. })) => match (variants[*v].name.as_str(), fields.len()) {
                ("Ok", 1) => Ok(TVal::Res(Ok(Box::new(under(Step::Variant("Ok"), conv(m, a, &fields[0]))?)))),
                ("Err", 1) => Ok(TVal::Res(Err(Box::new(under(Step::Variant("Err"), conv(m, b, &fields[0]))?)))),
                (g, _) => err(CClass::NoVariant(g.to_string(), vec!["Ok".into(), "Err".into()])),
            },
            _ => through(s),
        },
        Shape::Tuple(ss) => {
            if ss.len() == 1 && (n.via.is_some() || !struct_like(n)) {
                // a one-element tuple over anything else stands for its element
                return conv(m, &ss[0], n).map(|v| TVal::List(vec![v]));
            }
            match &n.k {
                K::Comp(v) | K::Tuple(v) => {
                    if v.len() != ss.len() {
                        return err(CClass::Length { actual: v.len(), expected: ss.len() });
                    }
                    let v = all(ss.iter().zip(v).enumerate().map(|(i, (s, x))| under(Step::Idx(i), conv(m, s, x))).collect())?;
                    Ok(TVal::List(v))
                }
                _ => err(CClass::Unexpected(kind_of(n))),
            }
        }
        Shape::Duration => {
            let u = |bits| Shape::Int(IntKind { bits, signed: false, nonzero: false });
            match conv(m, &Shape::Tuple(vec![u(64), u(32)]), n)? {
                TVal::List(v) => match (&v[0], &v[1]) {
                    (TVal::U(a), TVal::U(b)) => {
                        let secs = a + b / 1_000_000_000;
                        if secs > u64::MAX as u128 {
                            return err(CClass::Overflow);
                        }
                        Ok(TVal::Dur(secs as u64, (b % 1_000_000_000) as u32))
                    }
                    _ => unreachable!(),
                },
                _ => unreachable!(),
            }
        }
        Shape::Range(i) => conv(m, &Shape::Tuple(vec![(**i).clone(), (**i).clone()]), n),
        Shape::Struct(d) => match (&n.k, m.def(n.ty)) {
            (K::Comp(items), Some(Def::Comp { fields: names, .. })) => {
                Ok(TVal::List(fields(m, Some(names), items, d.kind, &d.fields, false)?))
            }
            (K::Tuple(items), _) => Ok(TVal::List(fields(m, None, items, d.kind, &d.fields, false)?)),
            _ => err(CClass::Unexpected(kind_of(n))),
        },
        Shape::Enum(d) => match (&n.k, m.def(n.ty)) {
            (K::Var { v, fields: items }, Some(Def::Var { variants, .. })) => {
                let src = &variants[*v];
                match d.variants.iter().find(|t| t.0 == src.name) {
                    None => err(CClass::NoVariant(src.name.clone(), d.variants.iter().map(|v| v.0.clone()).collect())),
                    Some((name, kind, fs)) => {
                        Ok(TVal::Enum(name.clone(), fields(m, Some(&src.fields), items, *kind, fs, true)?))
                    }
                }
            }
            _ => through(s),
        },
    }
}

/// What a visitor that handles nothing is told this value is.
pub fn kind_of(n: &Node) -> Unexpected {
    match &n.k {
        K::Bool(_) => Unexpected::Bool,
        K::Char(_) => Unexpected::Char,
        K::Str { .. } => Unexpected::Str,
        K::U(p, _) | K::I(p, _) | K::B32(p, _) => match p {
            Prim::U8 => Unexpected::U8,
            Prim::U16 => Unexpected::U16,
            Prim::U32 => Unexpected::U32,
            Prim::U64 => Unexpected::U64,
            Prim::U128 => Unexpected::U128,
            Prim::U256 => Unexpected::U256,
            Prim::I8 => Unexpected::I8,
            Prim::I16 => Unexpected::I16,
            Prim::I32 => Unexpected::I32,
            Prim::I64 => Unexpected::I64,
            Prim::I128 => Unexpected::I128,
            Prim::I256 => Unexpected::I256,
            Prim::Bool | Prim::Char | Prim::Str => unreachable!(),
        },
        K::Seq { .. } => Unexpected::Sequence,
        K::Arr(_) => Unexpected::Array,
        K::Tuple(_) => Unexpected::Tuple,
        K::Comp(_) => Unexpected::Composite,
        K::Var { .. } => Unexpected::Variant,
        K::Bits(_) => Unexpected::Bitsequence,
    }
}
/// Does the error name the very cause?
pub fn cause_matches(c: &CClass, e: &Error) -> bool {
    class_matches(c, e)
        && match (c, e.kind()) {
            (CClass::Unexpected(k), ErrorKind::VisitorDecodeError(d)) => *d == DecodeError::Unexpected(*k),
            (CClass::NoVariant(_, names), ErrorKind::CannotFindVariant { expected, .. }) => {
                let mut a: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
                let mut b: Vec<&str> = expected.to_vec();
                a.sort();
                b.sort();
                a == b
            }
            // strings are the only values whose malformation is the target's to find
            (CClass::Decode, ErrorKind::VisitorDecodeError(d)) => matches!(d, DecodeError::InvalidStr(_)),
            _ => true,
        }
}
/// Does the error reported belong to the class expected?
pub fn class_matches(c: &CClass, e: &Error) -> bool {
    match (c, e.kind()) {
        (CClass::OutOfRange(v), ErrorKind::NumberOutOfRange { value }) => v == value,
        (CClass::NoVariant(g, _), ErrorKind::CannotFindVariant { got, .. }) => g == got,
        (CClass::Length { actual, expected }, ErrorKind::WrongLength { actual_len, expected_len }) => {
            actual == actual_len && expected == expected_len
        }
        (CClass::NoField(n), ErrorKind::CannotFindField { name }) => n == name,
        (CClass::Unexpected(_) | CClass::Decode, ErrorKind::VisitorDecodeError(_)) => true,
        (CClass::Overflow, _) => true,
        _ => false,
    }
}
pub fn locations(p: &[Step]) -> Vec<Location> {
    p.iter()
        .map(|s| match s {
            Step::Field(f) => Location::field(f.clone()),
            Step::Idx(i) => Location::idx(*i),
            Step::Variant(v) => Location::variant(*v),
        })
        .collect()
}
pub fn path_string(p: &[Step]) -> String {
    let mut s = String::new();
    for (i, x) in p.iter().enumerate() {
        if i > 0 {
            s.push('.');
        }
        match x {
            Step::Field(f) => s.push_str(f),
            Step::Idx(i) => s.push_str(&format!("[{i}]")),
            Step::Variant(v) => s.push_str(&format!("({v})")),
        }
    }
    s
}
/// The lists of steps a shape's errors can take apart from the expected one: used to judge paths.
pub fn err_matches(es: &[CErr], e: &Error, paths: bool) -> bool {
    let locs: Vec<Location> = e.context().path().locations().cloned().collect();
    es.iter().any(|c| class_matches(&c.class, e) && (!paths || locations(&c.path) == locs))
}

/// A name that is almost this one.
fn near(r: &mut Rng, n: &str) -> String {
    match r.below(14) {
        0 => format!("{n}_"),
        1 => n.to_uppercase(),
        2 => n.to_lowercase(),
        3 => String::new(),
        4 => format!("r#{n}"),
        5 => n.trim_start_matches("r#").to_string(),
        6 => format!("{n} "),
        7 => format!(" {n}"),
        8 => format!("{n}\0"),
        9 => n.chars().skip(1).collect(),
        10 => n.chars().take(n.chars().count().saturating_sub(1)).collect(),
        11 => format!("{n}{n}"),
        12 => n.replace('_', ""),
        _ => format!("{n}X"),
    }
}

/// How sources are bent away from the target they are made for.
#[derive(Clone, Debug)]
pub struct Bend {
    /// in 1000: something incompatible
    pub wrong: usize,
    /// in 1000: wrapped in a single-field struct or tuple
    pub wrap: usize,
    /// in 1000: compact, where possible
    pub compact: usize,
    /// in 1000: extra fields or variants
    pub extra: usize,
    /// in 1000: fields or variants removed
    pub missing: usize,
    /// in 1000: a positional rather than a named source
    pub positional: usize,
    /// how many levels more than usual before it ends in something incompatible
    pub deeper: usize,
}
impl Default for Bend {
    fn default() -> Self {
        Bend { wrong: 6, wrap: 120, compact: 300, extra: 300, missing: 20, positional: 250, deeper: 0 }
    }
}
pub struct Src<'r> {
    pub m: Model,
    pub hints: Hints,
    pub r: &'r mut Rng,
    pub b: Bend,
    pub depth: usize,
}
impl<'r> Src<'r> {
    pub fn new(r: &'r mut Rng, b: Bend) -> Src<'r> {
        Src { m: Model::new(), hints: Hints::default(), r, b, depth: 0 }
    }
    fn p(&mut self, n: usize) -> bool {
        self.r.chance(n, 1000)
    }
    /// A small type unrelated to anything.
    pub fn junk(&mut self) -> Id {
        match self.r.below(16) {
            0..=4 => {
                let p = *self.r.pick(&PRIMS);
                self.m.add(Def::Prim(p))
            }
            5 => {
                let t = self.m.add(Def::Prim(Prim::U16));
                self.m.add(Def::Seq(t))
            }
            6 => self.m.add(Def::Tuple(vec![])),
            7 => {
                let f = *self.r.pick(&BIT_FMTS);
                self.m.add(Def::Bits(f))
            }
            8 | 9 => {
                let a = self.m.add(Def::Prim(*self.r.pick(&PRIMS)));
                let b = self.m.add(Def::Prim(Prim::Bool));
                let n = self.r.range(1, 3);
                self.m.add(Def::Tuple([a, b, a][..n].to_vec()))
            }
            10 => self.m.comp(&["Hollow"], vec![]),
            11 => {
                let a = self.m.add(Def::Prim(*self.r.pick(&PRIMS)));
                let n = self.r.below(4) as u32;
                self.m.add(Def::Array(a, n))
            }
            12 => {
                let a = self.m.add(Def::Prim(*self.r.pick(&UNSIGNED)));
                self.m.add(Def::Compact(a))
            }
            13 => {
                let a = self.m.add(Def::Prim(*self.r.pick(&PRIMS)));
                let variants = vec![
                    VariantDef { name: "Some".into(), index: 1, fields: vec![FieldDef { name: None, ty: a }] },
                    VariantDef { name: "Ok".into(), index: 7, fields: vec![] },
                    VariantDef { name: "Junk".into(), index: 3, fields: vec![FieldDef { name: Some("a".into()), ty: a }] },
                ];
                self.m.add(Def::Var { path: vec!["J".into()], variants })
            }
            14 => {
                let a = self.m.add(Def::Prim(*self.r.pick(&PRIMS)));
                let one = self.m.comp(&["One"], vec![(Some("a"), a)]);
                let two = self.m.add(Def::Tuple(vec![one]));
                *self.r.pick(&[one, two])
            }
            _ => {
                let a = self.m.add(Def::Prim(Prim::U8));
                let b = self.m.add(Def::Prim(Prim::Str));
                self.m.comp(&["Junk"], vec![(Some("a"), a), (Some("zz"), b)])
            }
        }
    }
    pub fn wrap1(&mut self, t: Id) -> Id {
        if self.r.chance(1, 3) {
            self.m.add(Def::Tuple(vec![t]))
        } else {
            let name = if self.r.chance(1, 2) { Some(crate::model::name(self.r)) } else { None };
            self.m.add(Def::Comp { path: vec!["W".into()], fields: vec![FieldDef { name, ty: t }] })
        }
    }
    pub fn wraps(&mut self, mut t: Id) -> Id {
        let w = self.b.wrap;
        for _ in 0..6 {
            if !self.p(w) {
                break;
            }
            t = self.wrap1(t);
        }
        t
    }
    /// Field types for a target's fields (skipped ones left out).
    fn field_types(&mut self, fs: &[TF]) -> Vec<FieldDef> {
        fs.iter()
            .filter(|f| f.skip.is_none())
            .map(|f| FieldDef { name: Some(f.name.clone()), ty: self.source(&f.shape) })
            .collect()
    }
    fn field_list(&mut self, kind: FKind, fs: &[TF], variant: bool) -> Vec<FieldDef> {
        let mut v = self.field_types(fs);
        let (extra, missing, positional) = (self.b.extra, self.b.missing, self.b.positional);
        let named = match kind {
            FKind::Named => !self.p(positional),
            FKind::Unnamed => self.p(positional),
            FKind::Unit => self.r.chance(1, 2),
        };
        if kind == FKind::Unit && variant && self.p(extra) {
            for i in 0..self.r.range(1, 3) {
                let t = self.junk();
                v.push(FieldDef { name: Some(format!("u{i}")), ty: t });
            }
        }
        if named && kind == FKind::Named {
            if self.r.chance(2, 3) {
                self.r.shuffle(&mut v);
            }
            // a source field called like a skipped target field: must be ignored
            for f in fs.iter().filter(|f| f.skip.is_some()) {
                if self.r.chance(1, 2) {
                    let t = if self.r.chance(1, 2) { self.source(&f.shape) } else { self.junk() };
                    let at = self.r.below(v.len() + 1);
                    v.insert(at, FieldDef { name: Some(f.name.clone()), ty: t });
                }
            }
            if self.p(extra) {
                for _ in 0..self.r.range(1, 3) {
                    let t = self.junk();
                    let at = self.r.below(v.len() + 1);
                    // names that are near misses included
                    let n = match self.r.below(4) {
                        0 if !fs.is_empty() => {
                            let i = self.r.below(fs.len());
                            let n = &fs[i].name;
                            near(self.r, n)
                        }
                        _ => format!("extra{}", self.r.below(100)),
                    };
                    if v.iter().all(|f| f.name.as_deref() != Some(&n)) && fs.iter().all(|f| f.name != n) {
                        v.insert(at, FieldDef { name: Some(n), ty: t });
                    }
                }
            }
            if self.p(missing) && !v.is_empty() {
                let i = self.r.below(v.len());
                let n = near(self.r, v[i].name.as_deref().unwrap_or(""));
                if self.r.chance(1, 2) || v.iter().any(|f| f.name.as_deref() == Some(&n)) || fs.iter().any(|f| f.name == n) {
                    v.remove(i);
                } else {
                    v[i].name = Some(n);
                }
            }
        } else {
            if self.p(missing) {
                if self.r.chance(1, 2) && !v.is_empty() {
                    let i = self.r.below(v.len());
                    v.remove(i);
                } else {
                    let t = self.junk();
                    v.push(FieldDef { name: None, ty: t });
                }
            }
            // a count that matches only if skipped fields were counted
            if fs.iter().any(|f| f.skip.is_some()) && self.r.chance(1, 8) {
                for f in fs.iter().filter(|f| f.skip.is_some()) {
                    let t = self.source(&f.shape);
                    v.push(FieldDef { name: None, ty: t });
                }
            }
            // positional sources: unnamed, named differently (for positional targets), or mixed
            let style = self.r.below(6);
            // a mixed source has at least one unnamed field, wherever
            let (hole, fill) = (self.r.below(v.len().max(1)), self.r.next());
            for (i, f) in v.iter_mut().enumerate() {
                f.name = match (kind, style) {
                    (FKind::Named, 0) if i != hole && (fill >> (i % 64)) & 1 == 1 => f.name.take(),
                    (FKind::Named, _) => None,
                    (_, 0..=2) if named => Some(format!("n{i}")),
                    (_, 3) if i != hole && (fill >> (i % 64)) & 1 == 1 => Some(format!("n{i}")),
                    _ => None,
                };
            }
        }
        v
    }
    /// A type that (mostly) decodes into the shape.
    pub fn source(&mut self, s: &Shape) -> Id {
        if let Shape::Lazy(f) = s {
            return self.source(&f());
        }
        self.depth += 1;
        let t = self.source2(s);
        self.depth -= 1;
        t
    }
    fn source2(&mut self, s: &Shape) -> Id {
        let wrong = self.b.wrong;
        if self.depth > 9 + self.b.deeper || self.p(wrong) {
            return self.junk();
        }
        match s {
            Shape::Lazy(f) => self.source(&f()),
            Shape::Any => self.junk(),
            Shape::Ptr(i) => self.source(i),
            Shape::Int(k) => {
                let signed = if k.signed { self.r.chance(2, 3) } else { self.r.chance(1, 4) };
                let p = if signed { *self.r.pick(&SIGNED) } else { *self.r.pick(&UNSIGNED) };
                let t = self.m.add(Def::Prim(p));
                self.hints.num.insert(t, NumHint { bits: k.bits, signed: k.signed, nonzero: k.nonzero });
                let c = self.b.compact;
                if !signed && self.p(c) {
                    let w = self.wraps(t);
                    let w = self.m.add(Def::Compact(w));
                    return self.wraps(w);
                }
                self.wraps(t)
            }
            Shape::Bool => {
                let t = self.m.add(Def::Prim(Prim::Bool));
                self.wraps(t)
            }
            Shape::Char => {
                let t = self.m.add(Def::Prim(Prim::Char));
                self.wraps(t)
            }
            Shape::Str => {
                let t = self.m.add(Def::Prim(Prim::Str));
                self.wraps(t)
            }
            Shape::Bits => {
                let f = *self.r.pick(&BIT_FMTS);
                let t = self.m.add(Def::Bits(f));
                self.wraps(t)
            }
            Shape::Phantom => {
                if self.r.chance(1, 2) {
                    self.m.add(Def::Tuple(vec![]))
                } else {
                    self.m.comp(&["P"], vec![])
                }
            }
            Shape::List(_, i) => {
                let t = self.source(i);
                let l = if self.r.chance(2, 3) {
                    self.m.add(Def::Seq(t))
                } else {
                    let n = self.r.below(6) as u32;
                    self.m.add(Def::Array(t, n))
                };
                self.wraps(l)
            }
            Shape::H(n) => {
                let u8s = Shape::Arr(*n, Box::new(Shape::Int(IntKind { bits: 8, signed: false, nonzero: false })));
                self.source2(&u8s)
            }
            Shape::Arr(n, i) => {
                let t = self.source(i);
                let missing = self.b.missing;
                let n = if self.p(missing) {
                    let k = self.r.below(3);
                    (n + k).saturating_sub(1)
                } else {
                    *n
                };
                let l = if self.r.chance(1, 2) {
                    let l = self.m.add(Def::Seq(t));
                    self.hints.len.insert(l, n);
                    l
                } else {
                    self.m.add(Def::Array(t, n as u32))
                };
                self.wraps(l)
            }
            Shape::Map(i) => {
                let n = self.r.below(5);
                let names = field_names(self.r, n);
                let fs = names.into_iter().map(|name| FieldDef { name, ty: self.source(i) }).collect();
                self.m.add(Def::Comp { path: vec!["M".into()], fields: fs })
            }
            Shape::Opt(i) => {
                let t = self.source(i);
                let mut vs = vec![("None", vec![]), ("Some", vec![FieldDef { name: None, ty: t }])];
                self.variants_of(&mut vs)
            }
            Shape::Res(a, b) => {
                let (t, e) = (self.source(a), self.source(b));
                let mut vs = vec![("Ok", vec![FieldDef { name: None, ty: t }]), ("Err", vec![FieldDef { name: None, ty: e }])];
                self.variants_of(&mut vs)
            }
            Shape::Tuple(ss) => {
                if ss.len() == 1 && self.r.chance(1, 2) {
                    return self.source(&ss[0]);
                }
                let mut ts: Vec<Id> = ss.iter().map(|s| self.source(s)).collect();
                let missing = self.b.missing;
                if self.p(missing) {
                    if self.r.chance(1, 2) && !ts.is_empty() {
                        ts.pop();
                    } else {
                        let t = self.junk();
                        ts.push(t);
                    }
                }
                if self.r.chance(1, 2) {
                    self.m.add(Def::Tuple(ts))
                } else {
                    let n = ts.len();
                    let names = field_names(self.r, n);
                    let fields = names.into_iter().zip(ts).map(|(name, ty)| FieldDef { name, ty }).collect();
                    self.m.add(Def::Comp { path: vec!["T".into()], fields })
                }
            }
            Shape::Duration => {
                let u = |bits| Shape::Int(IntKind { bits, signed: false, nonzero: false });
                self.source2(&Shape::Tuple(vec![u(64), u(32)]))
            }
            Shape::Range(i) => {
                let t = Shape::Tuple(vec![(**i).clone(), (**i).clone()]);
                self.source2(&t)
            }
            Shape::Struct(d) => {
                let fields = self.field_list(d.kind, &d.fields, false);
                if fields.iter().all(|f| f.name.is_none()) && self.r.chance(1, 2) {
                    let ts = fields.iter().map(|f| f.ty).collect();
                    let compact = fields.len() == 1 && compactable(&self.m, fields[0].ty);
                    let t = self.m.add(Def::Tuple(ts));
                    return if compact && self.r.chance(1, 2) { self.m.add(Def::Compact(t)) } else { t };
                }
                let compact = fields.len() == 1 && compactable(&self.m, fields[0].ty);
                let t = self.m.add(Def::Comp { path: vec![d.name.to_string()], fields });
                if compact && self.r.chance(1, 2) {
                    self.m.add(Def::Compact(t))
                } else {
                    t
                }
            }
            Shape::Enum(d) => {
                let mut idx: Vec<u8> = (0..=255).collect();
                if self.r.chance(3, 4) {
                    self.r.shuffle(&mut idx);
                }
                let (extra, missing) = (self.b.extra, self.b.missing);
                let mut vs: Vec<(String, Vec<FieldDef>)> = vec![];
                for (name, kind, fs) in &d.variants {
                    // shallow values for recursive declarations
                    if self.depth > 5 && !fs.is_empty() && !vs.is_empty() {
                        continue;
                    }
                    if self.p(missing) {
                        continue;
                    }
                    let f = self.field_list(*kind, fs, true);
                    vs.push((name.clone(), f));
                }
                if self.p(extra) {
                    for i in 0..self.r.range(1, 2) {
                        let n = match self.r.below(3) {
                            0 | 1 if !d.variants.is_empty() => {
                                let k = self.r.below(d.variants.len());
                                near(self.r, &d.variants[k].0)
                            }
                            _ => format!("Extra{i}"),
                        };
                        if d.variants.iter().all(|v| v.0 != n) && vs.iter().all(|v| v.0 != n) {
                            let fields = match self.r.below(3) {
                                0 => vec![],
                                // like the fields of one the target has
                                1 if !d.variants.is_empty() => {
                                    let k = self.r.below(d.variants.len());
                                    self.field_list(d.variants[k].1, &d.variants[k].2, true)
                                }
                                _ => vec![FieldDef { name: None, ty: self.junk() }],
                            };
                            vs.push((n, fields));
                        }
                    }
                }
                self.r.shuffle(&mut vs);
                let variants = vs
                    .into_iter()
                    .enumerate()
                    .map(|(i, (name, fields))| VariantDef { name, index: idx[i], fields })
                    .collect();
                let t = self.m.add(Def::Var { path: vec![d.name.to_string()], variants });
                self.wraps(t)
            }
        }
    }
    fn variants_of(&mut self, vs: &mut Vec<(&'static str, Vec<FieldDef>)>) -> Id {
        let mut idx: Vec<u8> = (0..=255).collect();
        if self.r.chance(1, 2) {
            self.r.shuffle(&mut idx);
            self.r.shuffle(vs);
        }
        let (extra, missing) = (self.b.extra / 3, self.b.missing);
        if self.p(missing) {
            // right name, wrong number of fields
            let i = self.r.below(vs.len());
            let t = self.junk();
            vs[i].1.push(FieldDef { name: None, ty: t });
        }
        if self.p(extra) {
            let t = self.junk();
            let n = *self.r.pick(&["some", "none", "Other", "OK", "err"]);
            vs.push((n, vec![FieldDef { name: None, ty: t }]));
        }
        let variants = vs
            .drain(..)
            .enumerate()
            .map(|(i, (n, fields))| VariantDef { name: n.to_string(), index: idx[i], fields })
            .collect();
        let t = self.m.add(Def::Var { path: vec!["E".into()], variants });
        self.wraps(t)
    }
}
