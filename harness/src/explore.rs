//! The recording visitor: walks a value through the crate's public cursors, in random ways, and checks every
//! observation against the expected tree while it does so.
use crate::any::{any_of, AnyVal};
use crate::model::*;
use crate::resolvers::MapId;
use crate::rng::Rng;
use crate::val::{Node, K};
use scale_decode::visitor::{
    types::*, DecodeAsTypeResult, DecodeError, DecodeItemIterator, IgnoreVisitor, TypeIdFor, Visitor,
};
use scale_decode::TypeResolver;
use std::cell::{Cell, RefCell};

/// What an observation is about; each property's check listens to its own kinds.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Tag {
    /// wrong value, name, path or type id
    Val,
    /// wrong position of the cursor after a value
    Cur,
    /// wrong item accounting
    Item,
    /// not the caller's memory
    Addr,
    /// error where there should be none, or the wrong one
    Err,
    /// hook arguments
    Hook,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    /// read everything
    Full,
    /// read some of it
    Partial,
}
pub const EVENTS: [&str; 17] = [
    "scalar", "str", "bits", "composite", "tuple", "variant", "sequence", "array", "decode_item", "handle", "handle_redecode",
    "handle_as_type", "skip_decoding", "as_tuple", "left_unread", "hook",
    "failed_item",
];
pub struct Ctx<'m> {
    pub model: &'m Model,
    pub base: usize,
    pub ilen: usize,
    pub rng: RefCell<Rng>,
    pub viols: RefCell<Vec<(Tag, String)>>,
    pub ev: [Cell<u64>; 17],
    pub mode: Mode,
    /// how many costly double decodes are left
    pub fuel: Cell<i64>,
}
impl<'m> Ctx<'m> {
    pub fn new(model: &'m Model, input: &[u8], rng: Rng, mode: Mode) -> Ctx<'m> {
        Ctx {
            model,
            base: input.as_ptr() as usize,
            ilen: input.len(),
            rng: RefCell::new(rng),
            viols: RefCell::new(vec![]),
            ev: Default::default(),
            mode,
            fuel: Cell::new(3000),
        }
    }
    pub fn viol(&self, t: Tag, s: String) {
        let mut v = self.viols.borrow_mut();
        if v.len() < 20 {
            v.push((t, s));
        }
    }
    pub fn count(&self, e: usize) {
        crate::tick::tick();
        self.ev[e].set(self.ev[e].get() + 1);
    }
    pub fn below(&self, n: usize) -> usize {
        self.rng.borrow_mut().below(n)
    }
    pub fn chance(&self, a: usize, b: usize) -> bool {
        self.rng.borrow_mut().chance(a, b)
    }
    /// The slice must be the input from `off` up to `lim`.
    pub fn view(&self, tag: Tag, what: &str, s: &[u8], off: usize, lim: usize) {
        let want = lim.wrapping_sub(off);
        if s.len() != want {
            self.viol(tag, format!("{what}: {} bytes, expected {} (input offset {off}..{lim})", s.len(), want));
        } else if !s.is_empty() && s.as_ptr() as usize != self.base + off {
            self.viol(
                Tag::Addr,
                format!("{what}: points at input offset {}, expected {off}", (s.as_ptr() as usize).wrapping_sub(self.base) as isize),
            );
        }
    }
    /// The slice must lie within the input.
    pub fn inside(&self, what: &str, s: &[u8]) {
        let p = s.as_ptr() as usize;
        if !s.is_empty() && (p < self.base || p + s.len() > self.base + self.ilen) {
            self.viol(Tag::Addr, format!("{what}: lies outside the input"));
        }
    }
}
/// Errors seen by our visitors.
#[derive(Clone, Debug, PartialEq)]
pub enum XErr {
    Dec(DecodeError),
    Token(u64),
}
impl From<DecodeError> for XErr {
    fn from(e: DecodeError) -> XErr {
        XErr::Dec(e)
    }
}
impl From<XErr> for scale_decode::Error {
    fn from(e: XErr) -> Self {
        match e {
            XErr::Dec(d) => d.into(),
            XErr::Token(t) => scale_decode::Error::custom_string(format!("token-{t}")),
        }
    }
}
/// Identifies the value a visitor call returned for.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Seen {
    pub ty: usize,
    pub start: usize,
}
pub struct Explorer<'c, R> {
    pub ctx: &'c Ctx<'c>,
    pub types: &'c R,
    pub exp: Option<&'c Node>,
    /// end of the slice the decode was given
    pub lim: usize,
    /// inside a compact encoded struct or tuple
    pub compact: bool,
}
impl<'c, R> Clone for Explorer<'c, R> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'c, R> Copy for Explorer<'c, R> {}

pub trait Handle<'s, 'r, R: TypeResolver>: Clone {
    fn bytes(&self) -> &'s [u8];
    fn type_id(&self) -> &R::TypeId;
    fn name(&self) -> Option<Option<&'r str>>;
    /// is_compact(), if there is such a thing
    fn compact(&self) -> Option<bool>;
    fn visit<V: Visitor<TypeResolver = R>>(&self, v: V) -> Result<V::Value<'s, 'r>, V::Error>;
    fn any(&self) -> Result<AnyVal, scale_decode::Error>;
}
/// The item types cannot be named from outside the crate, only reached through the iterators.
pub trait OkOf {
    type T;
}
impl<T, E> OkOf for Result<T, E> {
    type T = T;
}
pub type ItemOf<I> = <<I as Iterator>::Item as OkOf>::T;
macro_rules! handle {
    ($w:ident, $c:ident, $inner:ty, |$x:ident| $clone:expr, |$h:ident| $n:expr, |$k:ident| $kc:expr) => {
        pub struct $w<'s, 'r, R: TypeResolver>(pub $inner);
        impl<'s, 'r, R: TypeResolver> Clone for $w<'s, 'r, R> {
            fn clone(&self) -> Self {
                let $x = &self.0;
                $w($clone)
            }
        }
        impl<'s, 'r, R: TypeResolver> Handle<'s, 'r, R> for $w<'s, 'r, R> {
            fn bytes(&self) -> &'s [u8] {
                self.0.bytes()
            }
            fn type_id(&self) -> &R::TypeId {
                self.0.type_id()
            }
            fn name(&self) -> Option<Option<&'r str>> {
                let $h = &self.0;
                $n
            }
            fn compact(&self) -> Option<bool> {
                let $k = &self.0;
                $kc
            }
            fn visit<V: Visitor<TypeResolver = R>>(&self, v: V) -> Result<V::Value<'s, 'r>, V::Error> {
                self.0.decode_with_visitor(v)
            }
            fn any(&self) -> Result<AnyVal, scale_decode::Error> {
                self.0.decode_as_type::<AnyVal>()
            }
        }
    };
}
handle!(AH, Array, ItemOf<Array<'s, 'r, R>>, |x| x.clone(), |_h| None, |_h| None);
handle!(SH, Sequence, ItemOf<Sequence<'s, 'r, R>>, |x| x.clone(), |_h| None, |_h| None);
handle!(CH, Composite, ItemOf<Composite<'s, 'r, R>>, |x| x.clone(), |h| Some(h.name()), |h| Some(h.is_compact()));
// a tuple field is only Clone if the resolver is
handle!(TH, Tuple, std::rc::Rc<ItemOf<Tuple<'s, 'r, R>>>, |x| x.clone(), |_h| None, |h| Some(h.is_compact()));
pub trait Cont<'s, 'r, R: TypeResolver> {
    type H: Handle<'s, 'r, R>;
    /// goes on behind an item that failed
    const LIST: bool = false;
    fn remaining(&self) -> usize;
    fn from_start(&self) -> &'s [u8];
    fn undecoded(&self) -> &'s [u8];
    fn item<V: Visitor<TypeResolver = R>>(&mut self, v: V) -> Option<Result<V::Value<'s, 'r>, V::Error>>;
    fn item_dyn<V: Visitor<TypeResolver = R>>(&mut self, v: V) -> Option<Result<V::Value<'s, 'r>, V::Error>>;
    fn handle(&mut self) -> Option<Result<Self::H, DecodeError>>;
    fn skip(&mut self) -> Result<(), DecodeError>;
    fn empty(&self) -> Option<bool> {
        None
    }
    /// peek_name, if there is such a thing
    fn peek(&self) -> Option<Option<&'r str>> {
        None
    }
    fn names(&self) -> Option<Vec<Option<&'r str>>> {
        None
    }
    fn tuple(&self) -> Option<Tuple<'s, 'r, R>> {
        None
    }
}
macro_rules! cont {
    ($t:ident, $h:ident, |$x:ident| $wrap:expr, { $($extra:tt)* }) => {
        impl<'s, 'r, R: TypeResolver> Cont<'s, 'r, R> for $t<'s, 'r, R> {
            type H = $h<'s, 'r, R>;
            fn remaining(&self) -> usize {
                $t::remaining(self)
            }
            fn from_start(&self) -> &'s [u8] {
                self.bytes_from_start()
            }
            fn undecoded(&self) -> &'s [u8] {
                self.bytes_from_undecoded()
            }
            fn item<V: Visitor<TypeResolver = R>>(&mut self, v: V) -> Option<Result<V::Value<'s, 'r>, V::Error>> {
                self.decode_item(v)
            }
            fn item_dyn<V: Visitor<TypeResolver = R>>(&mut self, v: V) -> Option<Result<V::Value<'s, 'r>, V::Error>> {
                <Self as DecodeItemIterator<'s, 'r, R>>::decode_item(self, v)
            }
            fn handle(&mut self) -> Option<Result<Self::H, DecodeError>> {
                Some(match self.next()? {
                    Ok($x) => Ok($wrap),
                    Err(e) => Err(e),
                })
            }
            fn skip(&mut self) -> Result<(), DecodeError> {
                self.skip_decoding()
            }
            $($extra)*
        }
    };
}
cont!(Array, AH, |x| AH(x), {
    const LIST: bool = true;
    fn empty(&self) -> Option<bool> {
        Some(self.is_empty())
    }
});
cont!(Sequence, SH, |x| SH(x), {
    const LIST: bool = true;
});
cont!(Tuple, TH, |x| TH(std::rc::Rc::new(x)), {});
cont!(Composite, CH, |x| CH(x), {
    fn peek(&self) -> Option<Option<&'r str>> {
        Some(self.peek_name())
    }
    fn names(&self) -> Option<Vec<Option<&'r str>>> {
        Some(self.fields().iter().map(|f| f.name).collect())
    }
    fn tuple(&self) -> Option<Tuple<'s, 'r, R>> {
        Some(self.as_tuple())
    }
});

/// Refuses whatever it visits.
pub struct Refuse<R>(pub std::marker::PhantomData<R>);
impl<R: TypeResolver> Visitor for Refuse<R> {
    type Value<'s, 'r> = ();
    type Error = XErr;
    type TypeResolver = R;
    fn visit_unexpected<'s, 'r>(self, _: scale_decode::visitor::Unexpected) -> Result<Self::Value<'s, 'r>, Self::Error> {
        Err(XErr::Token(7))
    }
}

/// A container walk in progress.
struct Walk<'c> {
    what: &'static str,
    items: &'c [Node],
    fields: Option<&'c [FieldDef]>,
    i: usize,
    start: usize,
    body: usize,
    end: usize,
    lim: usize,
}
impl<'c> Walk<'c> {
    fn at(&self) -> usize {
        if self.i < self.items.len() {
            self.items[self.i].start
        } else if self.items.is_empty() {
            self.body
        } else {
            self.end
        }
    }
    fn look<'s, 'r, R: TypeResolver, C: Cont<'s, 'r, R>>(&self, ctx: &Ctx, c: &C) {
        let w = self.what;
        let left = self.items.len() - self.i;
        if c.remaining() != left {
            ctx.viol(
                Tag::Item,
                format!("{w}: remaining() is {} after {} of {} items", c.remaining(), self.i, self.items.len()),
            );
        }
        if let Some(e) = c.empty() {
            if e != (left == 0) {
                ctx.viol(Tag::Item, format!("{w}: is_empty() is {e} with {left} items left"));
            }
        }
        ctx.view(Tag::Item, &format!("{w}: bytes_from_start"), c.from_start(), self.start, self.lim);
        ctx.view(
            Tag::Item,
            &format!("{w}: bytes_from_undecoded after {} of {}", self.i, self.items.len()),
            c.undecoded(),
            self.at(),
            self.lim,
        );
        if let (Some(p), Some(fs)) = (c.peek(), self.fields) {
            let want = fs.get(self.i).and_then(|f| f.name.as_deref());
            if p != want {
                ctx.viol(Tag::Item, format!("{w}: peek_name() is {p:?}, expected {want:?} (item {})", self.i));
            }
        }
        if let (Some(n), Some(fs)) = (c.names(), self.fields) {
            let want: Vec<Option<&str>> = fs.iter().map(|f| f.name.as_deref()).collect();
            if n != want {
                ctx.viol(Tag::Val, format!("{w}: fields() names {n:?}, expected {want:?}"));
            }
        }
    }
}

impl<'c, R: MapId> Explorer<'c, R> {
    fn at(&self, n: &'c Node, lim: usize) -> Explorer<'c, R> {
        Explorer { exp: Some(n), lim, compact: self.compact_inside(), ..*self }
    }
    /// Are the items of this value compact encoded because it is?
    fn compact_inside(&self) -> bool {
        self.exp.is_some_and(|e| (self.compact || e.via.is_some()) && matches!(e.k, K::Comp(_) | K::Tuple(_)))
    }
    fn free(&self) -> Explorer<'c, R> {
        Explorer { exp: None, compact: false, ..*self }
    }
    fn ty(&self, id: &R::TypeId, what: &str) {
        if let Some(e) = self.exp {
            let got = self.types.model_id(id);
            if got != Some(e.ty) {
                self.ctx.viol(Tag::Val, format!("{what}: type id {id:?} (type {got:?}), expected type {}", e.ty));
            }
        }
    }
    fn seen(&self) -> Result<Seen, XErr> {
        Ok(match self.exp {
            Some(e) => Seen { ty: e.ty, start: e.start },
            None => Seen { ty: usize::MAX, start: usize::MAX },
        })
    }
    fn scalar<T: PartialEq + std::fmt::Debug>(
        &self,
        what: &'static str,
        got: T,
        id: R::TypeId,
        want: impl Fn(&K) -> Option<T>,
    ) -> Result<Seen, XErr> {
        self.ctx.count(0);
        self.ty(&id, what);
        if let Some(e) = self.exp {
            match want(&e.k) {
                Some(w) if w == got => {}
                _ => self.ctx.viol(Tag::Val, format!("{what} reported {got:?}, expected {}", e.show())),
            }
        }
        self.seen()
    }
    /// Read everything, expecting nothing.
    fn drain<'s, 'r, C: Cont<'s, 'r, R>>(&self, c: &mut C) -> Result<(), XErr> {
        loop {
            self.ctx.inside("undecoded view", c.undecoded());
            match c.item(self.free()) {
                None => return Ok(()),
                Some(r) => {
                    r?;
                }
            }
        }
    }
    fn check_seen(&self, what: &str, got: Seen, n: &Node) {
        if got != (Seen { ty: n.ty, start: n.start }) {
            self.ctx.viol(Tag::Val, format!("{what}: the value handed back is not the visitor's: {got:?}"));
        }
    }
    /// Walk a container with a known value.
    fn walk<'s, 'r, C: Cont<'s, 'r, R>>(&self, c: &mut C, mut w: Walk<'c>) -> Result<(), XErr>
    where
        R: 'r,
    {
        let ctx = self.ctx;
        let full = ctx.mode == Mode::Full;
        w.look(ctx, c);
        let style = ctx.below(4);
        let mut handles: Vec<(C::H, &'c Node)> = vec![];
        loop {
            if !full && ctx.chance(1, 6) {
                if w.i < w.items.len() {
                    ctx.count(14);
                }
                break;
            }
            if let (true, Some(mut t)) = (!full && ctx.chance(1, 12) || full && ctx.chance(1, 40), c.tuple()) {
                ctx.count(13);
                let sub = Walk {
                    what: "as_tuple",
                    items: &w.items[w.i..],
                    fields: None,
                    i: 0,
                    start: w.at(),
                    body: w.at(),
                    end: w.end,
                    lim: w.lim,
                };
                self.walk(&mut t, sub)?;
                w.look(ctx, c);
            }
            if w.i >= w.items.len() {
                break;
            }
            let n = &w.items[w.i];
            let act = match (full, style) {
                (true, 0) | (true, 1) => 0,
                (true, 2) => 2,
                (true, _) => ctx.below(3),
                (false, _) => ctx.below(7),
            };
            match act {
                0 | 1 => {
                    ctx.count(8);
                    let v = self.at(n, w.lim);
                    let r = if act == 0 { c.item(v) } else { c.item_dyn(v) };
                    match r {
                        None => {
                            ctx.viol(Tag::Item, format!("{}: no item {} of {}", w.what, w.i, w.items.len()));
                            break;
                        }
                        Some(r) => self.check_seen(w.what, r?, n),
                    }
                    w.i += 1;
                }
                2 | 3 => {
                    ctx.count(9);
                    match c.handle() {
                        None => {
                            ctx.viol(Tag::Item, format!("{}: no item {} of {}", w.what, w.i, w.items.len()));
                            break;
                        }
                        Some(h) => {
                            let h = h?;
                            ctx.view(
                                Tag::Item,
                                &format!("{}: bytes() of item {}", w.what, w.i),
                                h.bytes(),
                                n.start,
                                n.end,
                            );
                            let id = self.types.model_id(h.type_id());
                            let want = n.via.unwrap_or(n.ty);
                            if id != Some(want) {
                                ctx.viol(
                                    Tag::Item,
                                    format!("{}: type_id() of item {} is {id:?}, expected {want}", w.what, w.i),
                                );
                            }
                            if let Some(k) = h.compact() {
                                if k != self.compact_inside() {
                                    ctx.viol(Tag::Item, format!("{}: is_compact() of item {} is {k}", w.what, w.i));
                                }
                            }
                            if let (Some(name), Some(fs)) = (h.name(), w.fields) {
                                if name != fs[w.i].name.as_deref() {
                                    ctx.viol(Tag::Item, format!("{}: name() of item {} is {name:?}", w.what, w.i));
                                }
                            }
                            handles.push((h, n));
                        }
                    }
                    w.i += 1;
                    // decode some handles now, some later
                    if full || ctx.chance(1, 2) {
                        let (h, n) = handles.pop().unwrap();
                        self.use_handle(w.what, &h, n)?;
                        if ctx.chance(1, 4) {
                            handles.push((h, n));
                        }
                    }
                }
                4 => {
                    ctx.count(8);
                    match c.item(IgnoreVisitor::<R>::new()) {
                        None => {
                            ctx.viol(Tag::Item, format!("{}: no item {} of {}", w.what, w.i, w.items.len()));
                            break;
                        }
                        Some(r) => r?,
                    }
                    w.i += 1;
                }
                5 if C::LIST => {
                    // fails at the value's top: it is stepped over all the same
                    ctx.count(16);
                    match c.item(Refuse(std::marker::PhantomData::<R>)) {
                        None => {
                            ctx.viol(Tag::Item, format!("{}: no item {} of {}", w.what, w.i, w.items.len()));
                            break;
                        }
                        Some(Ok(())) => ctx.viol(Tag::Item, format!("{}: item {} succeeds although its visitor failed", w.what, w.i)),
                        Some(Err(XErr::Token(7))) => {}
                        Some(Err(e)) => return Err(e),
                    }
                    w.i += 1;
                }
                _ => {
                    if ctx.chance(1, 2) {
                        ctx.count(12);
                        c.skip()?;
                        w.i = w.items.len();
                    }
                }
            }
            w.look(ctx, c);
        }
        for (h, n) in handles {
            if ctx.chance(1, 2) {
                self.use_handle(w.what, &h, n)?;
            }
        }
        if w.i == w.items.len() {
            // nothing comes after the last item
            if c.handle().is_some() {
                ctx.viol(Tag::Item, format!("{}: an item after the last", w.what));
            }
            if c.item(self.free()).is_some() {
                ctx.viol(Tag::Item, format!("{}: an item after the last", w.what));
            }
            if ctx.chance(1, 4) {
                c.skip()?;
            }
            w.look(ctx, c);
        }
        Ok(())
    }
    fn use_handle<'s, 'r, H: Handle<'s, 'r, R>>(&self, what: &str, h: &H, n: &'c Node) -> Result<(), XErr> {
        let ctx = self.ctx;
        ctx.fuel.set(ctx.fuel.get() - 1);
        ctx.count(10);
        let v = self.at(n, n.end);
        self.check_seen(what, h.visit(v)?, n);
        if ctx.fuel.get() > 0 && ctx.chance(1, 6) {
            // once more, from a copy
            ctx.fuel.set(ctx.fuel.get() - n.count() as i64);
            let g = h.clone();
            self.check_seen(what, g.visit(v)?, n);
            ctx.view(Tag::Item, "handle bytes after use", h.bytes(), n.start, n.end);
        }
        if ctx.fuel.get() > 0 && ctx.chance(1, 4) {
            ctx.fuel.set(ctx.fuel.get() - n.count() as i64);
            ctx.count(11);
            if let Some(want) = any_of(ctx.model, n) {
                match h.any() {
                    Ok(a) if a.0 == want => {}
                    Ok(a) => ctx.viol(Tag::Item, format!("{what}: decode_as_type of an item gave {a:?}, expected {want:?}")),
                    Err(e) => ctx.viol(Tag::Item, format!("{what}: decode_as_type of an item failed: {e}")),
                }
            }
        }
        Ok(())
    }
    fn wrong_kind(&self, what: &str) {
        if let Some(e) = self.exp {
            self.ctx.viol(Tag::Val, format!("visited as {what}, expected {}", e.show()));
        }
    }
}
macro_rules! ints {
    ($($f:ident $t:ty, $k:ident $p:ident as $w:ty;)*) => {$(
        fn $f<'s, 'r>(self, v: $t, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
            self.scalar(stringify!($f), v as $w, id, |k| match k { K::$k(Prim::$p, x) => Some(*x), _ => None })
        }
    )*};
}
impl<'c, R: MapId> Visitor for Explorer<'c, R> {
    type Value<'s, 'r> = Seen;
    type Error = XErr;
    type TypeResolver = R;

    fn unchecked_decode_as_type<'s, 'r>(
        self,
        input: &mut &'s [u8],
        id: TypeIdFor<Self>,
        types: &'r R,
    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>> {
        self.ctx.count(15);
        if let Some(e) = self.exp {
            self.ctx.view(Tag::Hook, "hook input", input, e.start, self.lim);
            let mut t = self.types.model_id(&id);
            let first = t;
            while let Some(Def::Compact(u)) = t.and_then(|t| self.ctx.model.def(t)) {
                if t == Some(e.ty) {
                    break;
                }
                t = Some(*u);
            }
            if t != Some(e.ty) {
                self.ctx.viol(Tag::Hook, format!("hook called for type {first:?}, expected {:?} or {}", e.via, e.ty));
            }
            if types as *const R as *const u8 != self.types as *const R as *const u8 {
                self.ctx.viol(Tag::Hook, "hook was given a different registry".into());
            }
        }
        DecodeAsTypeResult::Skipped(self)
    }
    ints! {
        visit_u8 u8, U U8 as u128; visit_u16 u16, U U16 as u128; visit_u32 u32, U U32 as u128;
        visit_u64 u64, U U64 as u128; visit_u128 u128, U U128 as u128;
        visit_i8 i8, I I8 as i128; visit_i16 i16, I I16 as i128; visit_i32 i32, I I32 as i128;
        visit_i64 i64, I I64 as i128; visit_i128 i128, I I128 as i128;
    }
    fn visit_bool<'s, 'r>(self, v: bool, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.scalar("visit_bool", v, id, |k| if let K::Bool(b) = k { Some(*b) } else { None })
    }
    fn visit_char<'s, 'r>(self, v: char, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.scalar("visit_char", v, id, |k| if let K::Char(b) = k { Some(*b) } else { None })
    }
    fn visit_u256<'r>(self, v: &[u8; 32], id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        match self.exp {
            Some(e) => self.ctx.view(Tag::Addr, "visit_u256 bytes", v, e.start, e.start + 32),
            None => self.ctx.inside("visit_u256 bytes", v),
        }
        self.scalar("visit_u256", *v, id, |k| if let K::B32(Prim::U256, b) = k { Some(*b) } else { None })
    }
    fn visit_i256<'r>(self, v: &[u8; 32], id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        match self.exp {
            Some(e) => self.ctx.view(Tag::Addr, "visit_i256 bytes", v, e.start, e.start + 32),
            None => self.ctx.inside("visit_i256 bytes", v),
        }
        self.scalar("visit_i256", *v, id, |k| if let K::B32(Prim::I256, b) = k { Some(*b) } else { None })
    }
    fn visit_str<'s, 'r>(self, v: &mut Str<'s>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let ctx = self.ctx;
        ctx.count(1);
        self.ty(&id, "visit_str");
        match self.exp.map(|e| (e, &e.k)) {
            Some((e, K::Str { off, s })) => {
                let read = ctx.mode == Mode::Full || ctx.chance(1, 2);
                ctx.view(Tag::Item, "Str::bytes_from_start", v.bytes_from_start(), e.start, self.lim);
                match v.bytes_after() {
                    Ok(b) => ctx.view(Tag::Item, "Str::bytes_after", b, e.end, self.lim),
                    Err(x) => ctx.viol(Tag::Err, format!("Str::bytes_after failed: {x}")),
                }
                if v.len() != e.end - off || v.is_empty() != (e.end == *off) {
                    ctx.viol(Tag::Val, format!("Str::len is {}, expected {}", v.len(), e.end - off));
                }
                if read {
                    match (v.as_str(), s) {
                        (Ok(g), Some(w)) => {
                            ctx.view(Tag::Item, "Str::as_str", g.as_bytes(), *off, e.end);
                            if g != w {
                                ctx.viol(Tag::Val, format!("visit_str gave {g:?}, expected {w:?}"));
                            }
                        }
                        (Err(x), Some(_)) => ctx.viol(Tag::Err, format!("Str::as_str failed: {x}")),
                        (Ok(g), None) => ctx.viol(Tag::Val, format!("Str::as_str accepted invalid UTF-8: {g:?}")),
                        (Err(x), None) => return Err(x.into()),
                    }
                } else {
                    ctx.count(14);
                }
            }
            Some(_) => self.wrong_kind("str"),
            None => {
                ctx.inside("Str::bytes_from_start", v.bytes_from_start());
                ctx.inside("Str::bytes_after", v.bytes_after()?);
                let s = v.as_str()?;
                ctx.inside("Str::as_str", s.as_bytes());
                if s.len() != v.len() {
                    ctx.viol(Tag::Val, format!("Str::len {} differs from the string's {}", v.len(), s.len()));
                }
            }
        }
        self.seen()
    }
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let ctx = self.ctx;
        ctx.count(2);
        self.ty(&id, "visit_bitsequence");
        match self.exp.map(|e| (e, &e.k)) {
            Some((e, K::Bits(bits))) => {
                ctx.view(Tag::Item, "BitSequence::bytes_from_start", v.bytes_from_start(), e.start, self.lim);
                let how = if ctx.mode == Mode::Full { ctx.below(2) } else { ctx.below(5) };
                if how == 1 || how == 2 {
                    match v.bytes_after() {
                        Ok(b) => ctx.view(Tag::Item, "BitSequence::bytes_after", b, e.end, self.lim),
                        Err(x) => ctx.viol(Tag::Err, format!("BitSequence::bytes_after failed: {x}")),
                    }
                }
                if how == 0 || how == 1 {
                    let got: Result<Vec<bool>, _> = v.decode()?.collect();
                    match got {
                        Ok(g) if g == *bits => {}
                        Ok(g) => ctx.viol(Tag::Val, format!("bit sequence gave {} bits {g:?}, expected {bits:?}", g.len())),
                        Err(x) => ctx.viol(Tag::Err, format!("bits failed: {x}")),
                    }
                }
                if how == 3 {
                    // read a few bits only
                    let mut d = v.decode()?;
                    for b in bits.iter().take(ctx.below(12)) {
                        match d.next() {
                            Some(Ok(x)) if x == *b => {}
                            x => ctx.viol(Tag::Val, format!("bit {x:?}, expected {b}")),
                        }
                    }
                }
                if how <= 3 {
                    match v.bytes_after() {
                        Ok(b) => ctx.view(Tag::Item, "BitSequence::bytes_after", b, e.end, self.lim),
                        Err(x) => ctx.viol(Tag::Err, format!("BitSequence::bytes_after failed: {x}")),
                    }
                    ctx.view(Tag::Item, "BitSequence::bytes_from_start", v.bytes_from_start(), e.start, self.lim);
                } else {
                    ctx.count(14);
                }
            }
            Some(_) => self.wrong_kind("bitsequence"),
            None => {
                ctx.inside("BitSequence::bytes_from_start", v.bytes_from_start());
                for b in v.decode()? {
                    b.map_err(DecodeError::from)?;
                }
                ctx.inside("BitSequence::bytes_after", v.bytes_after()?);
            }
        }
        self.seen()
    }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let ctx = self.ctx;
        ctx.count(3);
        self.ty(&id, "visit_composite");
        match self.exp.map(|e| (e, &e.k, ctx.model.def(e.ty))) {
            Some((e, K::Comp(items), Some(Def::Comp { path, fields }))) => {
                let got: Vec<&str> = v.path().collect();
                if got != *path || v.name() != path.last().map(|s| s.as_str()) {
                    ctx.viol(Tag::Val, format!("composite path {got:?} name {:?}, expected {path:?}", v.name()));
                }
                if v.has_unnamed_fields() != fields.iter().any(|f| f.name.is_none()) {
                    ctx.viol(Tag::Val, format!("has_unnamed_fields is {}", v.has_unnamed_fields()));
                }
                let ids: Vec<_> = v.fields().iter().map(|f| self.types.model_id(&f.id)).collect();
                if !ids.iter().copied().eq(fields.iter().map(|f| Some(f.ty))) {
                    ctx.viol(Tag::Val, format!("composite field types {ids:?}"));
                }
                let w = Walk {
                    what: "composite",
                    items,
                    fields: Some(fields),
                    i: 0,
                    start: e.start,
                    body: e.start,
                    end: e.end,
                    lim: self.lim,
                };
                self.walk(v, w)?;
            }
            Some(_) => {
                self.wrong_kind("composite");
            }
            None => self.drain(v)?,
        }
        self.seen()
    }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.ctx.count(4);
        self.ty(&id, "visit_tuple");
        match self.exp.map(|e| (e, &e.k)) {
            Some((e, K::Tuple(items))) => {
                let w = Walk {
                    what: "tuple",
                    items,
                    fields: None,
                    i: 0,
                    start: e.start,
                    body: e.start,
                    end: e.end,
                    lim: self.lim,
                };
                self.walk(v, w)?;
            }
            Some(_) => self.wrong_kind("tuple"),
            None => self.drain(v)?,
        }
        self.seen()
    }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let ctx = self.ctx;
        ctx.count(5);
        self.ty(&id, "visit_variant");
        match self.exp.map(|e| (e, &e.k, ctx.model.def(e.ty))) {
            Some((e, K::Var { v: vi, fields: items }, Some(Def::Var { variants, .. }))) => {
                let d = &variants[*vi];
                if v.name() != d.name || v.index() != d.index {
                    ctx.viol(
                        Tag::Val,
                        format!("variant {:?} index {}, expected {:?} index {}", v.name(), v.index(), d.name, d.index),
                    );
                }
                ctx.view(Tag::Item, "Variant::bytes_from_start", v.bytes_from_start(), e.start, self.lim);
                ctx.view(Tag::Item, "Variant::bytes_from_undecoded", v.bytes_from_undecoded(), e.start + 1, self.lim);
                let w = Walk {
                    what: "variant fields",
                    items,
                    fields: Some(&d.fields),
                    i: 0,
                    start: e.start + 1,
                    body: e.start + 1,
                    end: e.end,
                    lim: self.lim,
                };
                let skip = ctx.mode == Mode::Partial && ctx.chance(1, 10);
                if skip {
                    ctx.count(12);
                    v.skip_decoding()?;
                    ctx.view(Tag::Item, "Variant::bytes_from_undecoded", v.bytes_from_undecoded(), e.end, self.lim);
                } else {
                    self.walk(v.fields(), w)?;
                }
            }
            Some(_) => self.wrong_kind("variant"),
            None => {
                ctx.inside("Variant::bytes_from_start", v.bytes_from_start());
                self.drain(v.fields())?
            }
        }
        self.seen()
    }
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.ctx.count(6);
        self.ty(&id, "visit_sequence");
        match self.exp.map(|e| (e, &e.k)) {
            Some((e, K::Seq { body, items })) => {
                let w = Walk {
                    what: "sequence",
                    items,
                    fields: None,
                    i: 0,
                    start: e.start,
                    body: *body,
                    end: e.end,
                    lim: self.lim,
                };
                self.walk(v, w)?;
            }
            Some(_) => self.wrong_kind("sequence"),
            None => self.drain(v)?,
        }
        self.seen()
    }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.ctx.count(7);
        self.ty(&id, "visit_array");
        match self.exp.map(|e| (e, &e.k)) {
            Some((e, K::Arr(items))) => {
                let w = Walk {
                    what: "array",
                    items,
                    fields: None,
                    i: 0,
                    start: e.start,
                    body: e.start,
                    end: e.end,
                    lim: self.lim,
                };
                self.walk(v, w)?;
            }
            Some(_) => self.wrong_kind("array"),
            None => self.drain(v)?,
        }
        self.seen()
    }
}
