//! Visitors that fail: on purpose, at chosen places; and enclosing ones that pass the error on, or tolerate it.
use mon::common::*;
use mon::conv::{Bend, IntKind, ListKind, Shape, Src};
use mon::explore::{Cont, Handle, XErr};
use mon::model::*;
use mon::resolvers::*;
use mon::rng::Rng;
use mon::run::{self, hex, Case};
use mon::val::*;
use scale_decode::error::ErrorKind;
use scale_decode::visitor::{
    decode_with_visitor, types::*, DecodeError, IgnoreVisitor, TypeIdFor, Unexpected, Visitor, VisitorWithCrateError,
};
use scale_decode::{DecodeAsType, Error, IntoVisitor, TypeResolver};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
#[global_allocator]
static A: run::Counting = run::Counting;

struct Ctx<'m> {
    model: &'m Model,
    rng: RefCell<Rng>,
    calls: Cell<u64>,
    /// this callback fails
    fail_at: u64,
    /// or each does, one in so many
    fail_in: usize,
    tolerate: bool,
    fired: Cell<u64>,
    tolerated: Cell<u64>,
    after: Cell<u64>,
    viols: RefCell<Vec<String>>,
}
impl<'m> Ctx<'m> {
    fn viol(&self, s: String) {
        if self.viols.borrow().len() < 10 {
            self.viols.borrow_mut().push(s);
        }
    }
    fn chance(&self, a: usize, b: usize) -> bool {
        self.rng.borrow_mut().chance(a, b)
    }
    fn below(&self, n: usize) -> usize {
        self.rng.borrow_mut().below(n)
    }
    /// Is it this callback's turn to fail?
    fn turn(&self) -> Option<XErr> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        (n == self.fail_at || (self.fail_in > 0 && self.chance(1, self.fail_in))).then_some(XErr::Token(n))
    }
    fn fire(&self, e: XErr) -> XErr {
        self.fired.set(self.fired.get() + 1);
        e
    }
}
struct Faulty<'c, R> {
    ctx: &'c Ctx<'c>,
    exp: Option<&'c Node>,
    r: std::marker::PhantomData<fn() -> R>,
}
impl<'c, R> Clone for Faulty<'c, R> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'c, R> Copy for Faulty<'c, R> {}
impl<'c, R: TypeResolver> Faulty<'c, R> {
    fn at(&self, n: Option<&'c Node>) -> Self {
        Faulty { exp: n, ..*self }
    }
    fn scalar(&self, what: &str, ok: impl Fn(&K) -> bool) -> Result<(), XErr> {
        if let Some(e) = self.ctx.turn() {
            return Err(self.ctx.fire(e));
        }
        if let Some(n) = self.exp {
            if self.ctx.tolerated.get() > 0 {
                self.ctx.after.set(self.ctx.after.get() + 1);
            }
            if !ok(&n.k) {
                self.ctx.viol(format!("{what} does not fit {}", n.show()));
            }
        }
        Ok(())
    }
    /// One item into some target that it may well not fit.
    fn misfit<'s, 'r, C: Cont<'s, 'r, R>>(&self, v: &mut C) -> Option<Result<(), Error>>
    where
        R: 'r,
    {
        macro_rules! into {
            ($t:ty) => {
                v.item(<$t>::into_visitor::<R>()).map(|r| r.map(|_| ()))
            };
        }
        match self.ctx.below(12) {
            0 => into!(u8),
            1 => into!(String),
            2 => into!(Vec<u16>),
            3 => into!((u8, u8)),
            4 => into!((u8,)),
            5 => into!(Option<u8>),
            6 => into!([bool; 2]),
            7 => into!(Box<i8>),
            8 => into!(BTreeMap<String, u8>),
            9 => into!(Result<u8, String>),
            10 => into!(Vec<(u8, bool)>),
            _ => into!(std::time::Duration),
        }
    }
    fn items<'s, 'r, C: Cont<'s, 'r, R>>(&self, v: &mut C, items: Option<&'c [Node]>, list: bool) -> Result<(), XErr>
    where
        R: 'r,
    {
        let ctx = self.ctx;
        let total = v.remaining();
        // fail at once, or somewhere in between
        let mut fail = ctx.turn();
        let at = if fail.is_some() && total > 0 && ctx.chance(1, 2) { ctx.below(total) } else { 0 };
        let mut i = 0;
        loop {
            if i == at {
                if let Some(e) = fail.take() {
                    return Err(ctx.fire(e));
                }
            }
            let item = items.and_then(|x| x.get(i));
            let by_handle = ctx.chance(1, 5);
            let r = if ctx.tolerate && ctx.chance(1, 8) {
                match self.misfit(v) {
                    None => None,
                    Some(Ok(())) => Some(Ok(())),
                    Some(Err(_)) => Some(Err(XErr::Token(u64::MAX))),
                }
            } else if by_handle {
                match v.handle() {
                    None => None,
                    // decoding the handle leaves the cursor alone
                    Some(Ok(h)) => match h.visit(self.at(item)) {
                        Ok(()) => Some(Ok(())),
                        Err(e) if ctx.tolerate && e_token(&e) && ctx.chance(3, 4) => {
                            ctx.tolerated.set(ctx.tolerated.get() + 1);
                            Some(Ok(()))
                        }
                        Err(e) => return Err(e),
                    },
                    Some(Err(e)) => Some(Err(e.into())),
                }
            } else {
                v.item(self.at(item))
            };
            match r {
                None => {
                    if let Some(x) = items {
                        if i != x.len() {
                            ctx.viol(format!("the items end after {i} of {}", x.len()));
                        }
                    }
                    return Ok(());
                }
                Some(Ok(())) => {}
                Some(Err(e)) if ctx.tolerate && e_token(&e) && ctx.chance(5, 6) => {
                    ctx.tolerated.set(ctx.tolerated.get() + 1);
                    if !list {
                        // no more items
                        for _ in 0..ctx.below(3) {
                            if ctx.chance(1, 2) {
                                if v.item(self.at(None)).is_some() {
                                    ctx.viol("a struct or tuple yields an item after a failed one".into());
                                }
                            } else if v.handle().is_some() {
                                ctx.viol("a struct or tuple yields an item handle after a failed one".into());
                            }
                        }
                        if ctx.chance(1, 3) {
                            v.skip()?;
                        }
                        return Ok(());
                    }
                }
                Some(Err(e)) => return Err(e),
            }
            i += 1;
            if list && ctx.tolerate && ctx.chance(1, 20) {
                // stop early; perhaps skip by hand
                if ctx.chance(1, 2) {
                    v.skip()?;
                }
                return Ok(());
            }
        }
    }
}
fn e_token(e: &XErr) -> bool {
    matches!(e, XErr::Token(_))
}
macro_rules! ints {
    ($($f:ident $t:ty, $k:ident $p:ident as $w:ty;)*) => {$(
        fn $f<'s, 'r>(self, v: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
            self.scalar(stringify!($f), |k| matches!(k, K::$k(Prim::$p, x) if *x == v as $w))
        }
    )*};
}
impl<'c, R: TypeResolver> Visitor for Faulty<'c, R> {
    type Value<'s, 'r> = ();
    type Error = XErr;
    type TypeResolver = R;
    ints! {
        visit_u8 u8, U U8 as u128; visit_u16 u16, U U16 as u128; visit_u32 u32, U U32 as u128;
        visit_u64 u64, U U64 as u128; visit_u128 u128, U U128 as u128;
        visit_i8 i8, I I8 as i128; visit_i16 i16, I I16 as i128; visit_i32 i32, I I32 as i128;
        visit_i64 i64, I I64 as i128; visit_i128 i128, I I128 as i128;
    }
    fn visit_bool<'s, 'r>(self, v: bool, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.scalar("bool", |k| matches!(k, K::Bool(x) if *x == v))
    }
    fn visit_char<'s, 'r>(self, v: char, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.scalar("char", |k| matches!(k, K::Char(x) if *x == v))
    }
    fn visit_u256<'r>(self, v: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        self.scalar("u256", |k| matches!(k, K::B32(Prim::U256, x) if x == v))
    }
    fn visit_i256<'r>(self, v: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        self.scalar("i256", |k| matches!(k, K::B32(Prim::I256, x) if x == v))
    }
    fn visit_str<'s, 'r>(self, v: &mut Str<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        if let Some(e) = self.ctx.turn() {
            return Err(self.ctx.fire(e));
        }
        let s = v.as_str()?;
        if let Some(n) = self.exp {
            if !matches!(&n.k, K::Str { s: Some(x), .. } if x == s) {
                self.ctx.viol(format!("string {s:?} does not fit {}", n.show()));
            }
        }
        Ok(())
    }
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        if let Some(e) = self.ctx.turn() {
            if self.ctx.chance(1, 2) {
                let _ = v.decode().map(|d| d.count());
            }
            return Err(self.ctx.fire(e));
        }
        let b: Vec<bool> = v.decode()?.collect::<Result<_, _>>().map_err(DecodeError::from)?;
        if let Some(n) = self.exp {
            if !matches!(&n.k, K::Bits(x) if *x == b) {
                self.ctx.viol(format!("bits {b:?} do not fit {}", n.show()));
            }
        }
        Ok(())
    }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.items(v, self.exp.map(|e| e.kids()), false)
    }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.items(v, self.exp.map(|e| e.kids()), false)
    }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        if let Some(n) = self.exp {
            match (&n.k, self.ctx.model.def(n.ty)) {
                (K::Var { v: x, .. }, Some(Def::Var { variants, .. })) if variants[*x].name == v.name() => {}
                _ => self.ctx.viol(format!("variant {:?} does not fit {}", v.name(), n.show())),
            }
        }
        self.items(v.fields(), self.exp.map(|e| e.kids()), false)
    }
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.items(v, self.exp.map(|e| e.kids()), true)
    }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.items(v, self.exp.map(|e| e.kids()), true)
    }
}
fn ctx<'m>(c: &mut Case, m: &'m Model, fail_at: u64, fail_in: usize, tolerate: bool) -> Ctx<'m> {
    Ctx {
        model: m,
        rng: RefCell::new(c.rng.fork()),
        calls: Cell::new(0),
        fail_at,
        fail_in,
        tolerate,
        fired: Cell::new(0),
        tolerated: Cell::new(0),
        after: Cell::new(0),
        viols: Default::default(),
    }
}
fn propagate<R: MapId>(c: &mut Case, m: &Model, id: Id, types: &R, input: &[u8], k: u64, what: &str) -> bool {
    let x = ctx(c, m, k, 0, false);
    let v = Faulty { ctx: &x, exp: None, r: Default::default() };
    let adapted = c.rng.chance(1, 4);
    let r: Result<(), Result<XErr, Error>> = if adapted {
        decode_with_visitor(&mut &*input, types.make_id(id), types, VisitorWithCrateError(v)).map_err(Err)
    } else {
        decode_with_visitor(&mut &*input, types.make_id(id), types, v).map_err(Ok)
    };
    if x.fired.get() == 0 {
        return false;
    }
    c.count(&format!("passed on: {what}"), 1);
    let good = match &r {
        Err(Ok(e)) => *e == XErr::Token(k),
        Err(Err(e)) => matches!(e.kind(), ErrorKind::Custom(_)) && e.to_string().contains(&format!("token-{k}")),
        Ok(()) => false,
    };
    if !good {
        c.viol(format!("{what} input: the visitor failed with Token({k}) and the caller received {r:?}"));
    }
    true
}
fn tolerate<R: MapId>(c: &mut Case, j: &Job, types: &R) {
    let n = j.node.count();
    let p = match c.rng.below(3) {
        0 => 4,
        1 => 12,
        _ => n.max(2),
    };
    let x = ctx(c, &j.m, u64::MAX, p, true);
    let v = Faulty { ctx: &x, exp: Some(&j.node), r: Default::default() };
    let cur = &mut &*j.input;
    let r = decode_with_visitor(cur, types.make_id(j.id), types, v);
    for v in x.viols.take() {
        c.viol(v);
    }
    c.count("tolerated", x.tolerated.get());
    c.count("values_seen_after_a_tolerated_failure", x.after.get());
    match r {
        Ok(()) => {
            if x.tolerated.get() > 0 {
                c.count("decodes_completed_after_failures", 1);
            }
            if cur.len() != j.input.len() - j.len {
                c.viol(format!(
                    "after {} tolerated failures {} bytes are left, expected {}",
                    x.tolerated.get(),
                    cur.len(),
                    j.input.len() - j.len
                ));
            }
        }
        Err(XErr::Token(_)) => {}
        Err(e) => c.viol(format!("well-formed input, yet the decode failed with {e:?}")),
    }
}

// A target whose visitor fails when its turn comes, inside the built-in containers.
thread_local! {
    static LEFT: Cell<i64> = const { Cell::new(-1) };
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct Bomb;
struct BombVisitor<R>(std::marker::PhantomData<fn() -> R>);
impl IntoVisitor for Bomb {
    type AnyVisitor<R: TypeResolver> = BombVisitor<R>;
    fn into_visitor<R: TypeResolver>() -> BombVisitor<R> {
        BombVisitor(Default::default())
    }
}
impl<R: TypeResolver> Visitor for BombVisitor<R> {
    type Value<'s, 'r> = Bomb;
    type Error = Error;
    type TypeResolver = R;
    fn visit_unexpected<'s, 'r>(self, _: Unexpected) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let n = LEFT.get();
        LEFT.set(n - 1);
        if n == 0 {
            return Err(Error::custom_str("boom-4711"));
        }
        Ok(Bomb)
    }
}
#[derive(DecodeAsType)]
#[allow(dead_code)]
struct Holder {
    a: Bomb,
    b: Vec<Bomb>,
    c: Option<Bomb>,
    d: u8,
}
#[derive(DecodeAsType)]
#[allow(dead_code)]
enum EHolder {
    One(Bomb, u16),
    Two { x: Bomb, y: bool },
}
fn bombs(c: &mut Case) {
    let any = || Box::new(Shape::Any);
    let list = |s: Box<Shape>| Shape::List(ListKind::List, s);
    let int = Shape::Int(IntKind { bits: 8, signed: false, nonzero: false });
    let tf = |n: &str, s: Shape| mon::conv::TF { name: n.into(), shape: s, skip: None };
    let holder = std::sync::Arc::new(mon::conv::SDef {
        name: "Holder",
        kind: mon::conv::FKind::Named,
        fields: vec![tf("a", Shape::Any), tf("b", list(any())), tf("c", Shape::Opt(any())), tf("d", int.clone())],
    });
    let eholder = std::sync::Arc::new(mon::conv::EDef {
        name: "EHolder",
        variants: vec![
            (
                "One".into(),
                mon::conv::FKind::Unnamed,
                vec![tf("0", Shape::Any), tf("1", Shape::Int(IntKind { bits: 16, signed: false, nonzero: false }))],
            ),
            ("Two".into(), mon::conv::FKind::Named, vec![tf("x", Shape::Any), tf("y", Shape::Bool)]),
        ],
    });
    type D = fn(&mut &[u8], u32, &scale_info::PortableRegistry) -> Result<(), Error>;
    fn d<T: IntoVisitor>() -> D {
        |b, id, r| T::decode_as_type(b, id, r).map(|_| ())
    }
    let (shape, dec, name): (Shape, D, &str) = match c.rng.below(14) {
        0 => (list(any()), d::<Vec<Bomb>>(), "Vec"),
        1 => (Shape::Opt(any()), d::<Option<Bomb>>(), "Option"),
        2 => (Shape::Tuple(vec![Shape::Any, int.clone()]), d::<(Bomb, u8)>(), "tuple"),
        3 => (Shape::Tuple(vec![int.clone(), Shape::Any]), d::<(u8, Bomb)>(), "tuple"),
        4 => (list(Box::new(Shape::Ptr(any()))), d::<Vec<Box<Bomb>>>(), "Box"),
        5 => (Shape::Map(any()), d::<BTreeMap<String, Bomb>>(), "BTreeMap"),
        6 => (Shape::Arr(3, any()), d::<[Bomb; 3]>(), "array"),
        7 => (Shape::Res(any(), any()), d::<Result<Bomb, Bomb>>(), "Result"),
        8 => (list(Box::new(Shape::Tuple(vec![Shape::Any]))), d::<Vec<(Bomb,)>>(), "one-tuple"),
        9 => (Shape::Range(any()), d::<std::ops::Range<Bomb>>(), "Range"),
        10 => (Shape::Struct(holder.clone()), d::<Holder>(), "struct"),
        11 => (list(Box::new(Shape::Struct(holder))), d::<Vec<Rc<Holder>>>(), "structs"),
        12 => (list(Box::new(Shape::Enum(eholder))), d::<Vec<EHolder>>(), "enums"),
        _ => (list(Box::new(list(any()))), d::<std::collections::LinkedList<std::collections::BTreeSet<Bomb>>>(), "sets"),
    };
    let mut src = Src::new(&mut c.rng, Bend { wrong: 0, missing: 0, ..Default::default() });
    let id = src.source(&shape);
    let (m, hints) = (src.m.clone(), src.hints.clone());
    let reg = m.portable();
    let Some((_, bytes)) = gen_value_hinted(&mut c.rng, &m, id, &ValOpts { budget: 30, long_lists: false }, &hints) else { return };
    for _ in 0..3 {
        let mut b = bytes.clone();
        if c.rng.chance(2, 3) {
            mutate(&mut c.rng, &mut b);
        }
        if refdec(&m, id, &b) == Err(RErr::Budget) {
            continue;
        }
        let k = c.rng.below(6) as i64;
        c.context(|| format!("target {name} of bombs, bomb {k}, type {} input {}", m.show(id), hex(&b)));
        LEFT.set(k);
        let r = dec(&mut &*b, id as u32, &reg);
        let fired = LEFT.get() < 0;
        if fired {
            c.count(&format!("in target: {name}"), 1);
            c.eval();
            c.distinct(&[m.show(id).as_bytes(), &b, &[k as u8]]);
            match &r {
                Err(e) if matches!(e.kind(), ErrorKind::Custom(_)) && e.to_string().contains("boom-4711") => {}
                Err(e) => c.viol(format!("a custom error inside {name} was replaced by: {e}")),
                Ok(()) => c.viol(format!("a custom error inside {name} was lost")),
            }
        }
    }
}
fn case(c: &mut Case) {
    let m = model(c, false);
    let reg = m.portable();
    for _ in 0..2 {
        let Some(j) = job(c, &m, false) else { continue };
        if j.node.count() > 2000 {
            continue;
        }
        // how many callbacks are there?
        let x = ctx(c, &m, u64::MAX, 0, false);
        let v = Faulty::<scale_info::PortableRegistry> { ctx: &x, exp: Some(&j.node), r: Default::default() };
        let r = decode_with_visitor(&mut &*j.input, j.id as u32, &reg, v);
        if r.is_err() || !x.viols.take().is_empty() {
            c.viol(format!("without failures the decode gave {r:?}"));
        }
        let n = x.calls.get().max(1);
        for _ in 0..3 {
            let k = c.rng.below(n as usize) as u64;
            if propagate(c, &m, j.id, &reg, &j.input, k, "well-formed") {
                c.eval();
            }
            let mut b = j.input[..j.len].to_vec();
            mutate(&mut c.rng, &mut b);
            if refdec(&m, j.id, &b) == Err(RErr::Budget) {
                continue;
            }
            if propagate(c, &m, j.id, &reg, &b, k, if refdec(&m, j.id, &b).is_err() { "malformed" } else { "well-formed" }) {
                c.eval();
                c.distinct(&[m.show(j.id).as_bytes(), &b, &k.to_le_bytes()]);
                c.sample(|| format!("{} {} failing at callback {k}", m.show(j.id), hex(&b)));
            }
        }
        for _ in 0..3 {
            if c.rng.chance(1, 3) {
                tolerate(c, &j, &ModelResolver(&m));
            } else {
                tolerate(c, &j, &reg);
            }
            c.eval();
        }
        // a visitor that fails without looking at anything, at the top
        let _: Option<IgnoreVisitor<scale_info::PortableRegistry>> = None;
    }
    bombs(c);
}
fn main() {
    run::run("C16", run::Opts { quick: 60_000, thorough: 3_000_000, ..Default::default() }, case)
}
