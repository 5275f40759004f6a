//! Visitors that take over at their hook, decline, eat a prefix or fail there; and visitors behind error adaptors.
use mon::any::*;
use mon::common::*;
use mon::conv::*;
use mon::convrun::*;
use mon::explore::{Cont, Handle};
use mon::model::*;
use mon::resolvers::*;
use mon::run::{self, cut, hex, Case};
use mon::targets::*;
use mon::val::*;
use scale_decode::visitor::{decode_with_visitor, types::*, DecodeAsTypeResult, DecodeError, TypeIdFor, Visitor, VisitorWithCrateError};
use scale_decode::{DecodeAsType, Error, TypeResolver};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
#[global_allocator]
static A: run::Counting = run::Counting;

#[derive(Clone, Debug, PartialEq)]
enum XE {
    Dec(DecodeError),
    Token(u64),
    /// came back through an adaptor
    Crate(String),
}
impl From<DecodeError> for XE {
    fn from(e: DecodeError) -> XE {
        XE::Dec(e)
    }
}
impl From<XE> for scale_decode::Error {
    fn from(e: XE) -> Self {
        match e {
            XE::Dec(d) => d.into(),
            XE::Token(t) => scale_decode::Error::custom_string(format!("token-{t}")),
            XE::Crate(s) => scale_decode::Error::custom_string(s),
        }
    }
}
fn token(s: &str) -> Option<u64> {
    let i = s.find("token-")?;
    s[i + 6..].split(|c: char| !c.is_ascii_digit()).next()?.parse().ok()
}
/// What a hook does.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Decline,
    /// takes the value's bytes and returns
    Accept,
    /// hands the input to another visitor
    Delegate,
    Fail,
    /// takes some number of bytes
    Odd(usize),
}
#[derive(Clone, Copy, Debug, PartialEq)]
struct Tok {
    hooked: bool,
    start: usize,
    depth: usize,
}
struct Cx<'m> {
    m: &'m Model,
    base: usize,
    seed: u64,
    /// in a thousand
    accept: u64,
    delegate: u64,
    fail: u64,
    odd: u64,
    adapt: u64,
    handles: u64,
    junk: Option<(*const Node, usize)>,
    junk_done: Cell<bool>,
    /// from here on every hook takes over, wherever the input is
    odd_at: Cell<Option<usize>>,
    failed: Cell<Option<u64>>,
    log: RefCell<Vec<(String, usize)>>,
    viols: RefCell<Vec<String>>,
    ev: [Cell<u64>; 6],
}
impl<'m> Cx<'m> {
    fn viol(&self, s: String) {
        let mut v = self.viols.borrow_mut();
        if v.len() < 8 {
            v.push(s);
        }
    }
    /// The same question gets the same answer in every run with the same seed.
    fn roll(&self, what: u64, at: usize, depth: usize) -> u64 {
        let mut x = self.seed ^ what.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (at as u64).wrapping_mul(0xbf58_476d_1ce4_e5b9) ^ (depth as u64).wrapping_mul(0x94d0_49bb_1331_11eb);
        for _ in 0..3 {
            x ^= x >> 31;
            x = x.wrapping_mul(0xd6e8_feb8_6659_fd93);
            x ^= x >> 29;
        }
        x
    }
    fn note(&self, what: String, at: usize) {
        let mut l = self.log.borrow_mut();
        if l.len() < 20_000 {
            l.push((what, at));
        }
    }
    fn count(&self, k: usize) {
        self.ev[k].set(self.ev[k].get() + 1);
    }
    fn view(&self, what: &str, s: &[u8], off: usize, lim: usize) {
        if s.len() != lim.wrapping_sub(off) || (!s.is_empty() && s.as_ptr() as usize != self.base + off) {
            let at = (s.as_ptr() as usize).wrapping_sub(self.base) as isize;
            self.viol(format!("{what}: input offset {at}, {} bytes; expected {off}..{lim}", s.len()));
        }
    }
}
struct Spy<'c, R> {
    cx: &'c Cx<'c>,
    types: &'c R,
    exp: &'c Node,
    lim: usize,
    depth: usize,
    /// within a compact encoded struct or tuple, where the bytes alone do not say what they are
    inner: bool,
    /// the type the hook was last asked about
    asked: Cell<Option<usize>>,
}
impl<'c, R: MapId> Spy<'c, R> {
    fn id_ok(&self, id: &R::TypeId, what: &str) {
        let mut t = self.types.model_id(id);
        let first = t;
        while let Some(Def::Compact(u)) = t.and_then(|t| self.cx.m.def(t)) {
            if t == Some(self.exp.ty) {
                break;
            }
            t = Some(*u);
        }
        if t != Some(self.exp.ty) {
            self.cx.viol(format!("{what} for type {first:?}, expected {:?} or {}", self.exp.via, self.exp.ty));
        }
    }
    fn tok(&self, hooked: bool) -> Tok {
        Tok { hooked, start: self.exp.start, depth: self.depth }
    }
    fn visit(&self, what: &str, value: String, ok: bool, id: &R::TypeId) {
        self.cx.count(0);
        self.cx.note(format!("{what} {value}"), self.exp.start);
        if !ok {
            self.cx.viol(format!("{what} with {value}, expected {}", cut(&self.exp.show(), 300)));
        }
        if self.types.model_id(id) != Some(self.exp.ty) {
            self.cx.viol(format!("{what} for type {:?}, expected {}", self.types.model_id(id), self.exp.ty));
        }
        if self.asked.get() != Some(self.exp.ty) {
            self.cx.viol(format!("{what} for type {}, but its hook was last asked about {:?}", self.exp.ty, self.asked.get()));
        }
    }
    /// Items, in place or by handle; children plain or behind an adaptor.
    fn items<'s, 'r, C: Cont<'s, 'r, R>>(&self, v: &mut C, kids: &'c [Node]) -> Result<(), XE>
    where
        R: 'r,
        'c: 'c,
    {
        let cx = self.cx;
        let inner = self.inner || self.exp.via.is_some();
        for (i, k) in kids.iter().enumerate() {
            let at = cx.odd_at.get().unwrap_or(k.start);
            cx.view("undecoded bytes before an item", v.undecoded(), at, self.lim);
            let (d, what) = (self.depth + 1, format!("item {i}"));
            let handle = cx.roll(11, k.start, d) % 1000 < cx.handles;
            let adapt = cx.roll(12, k.start, d) % 1000;
            // a handle knows the item's end
            let spy = Spy { cx, types: self.types, exp: k, lim: if handle { k.end } else { self.lim }, depth: d, inner, asked: Cell::new(None) };
            let once = |e: scale_decode::Error| match token(&e.to_string()) {
                Some(t) => XE::Token(t),
                None => XE::Crate(e.to_string()),
            };
            let r: Option<Result<Tok, XE>> = if handle {
                match v.handle() {
                    None => None,
                    Some(Err(e)) => Some(Err(e.into())),
                    Some(Ok(h)) => Some(if adapt < cx.adapt / 2 {
                        h.visit(VisitorWithCrateError(spy)).map_err(once)
                    } else if adapt < cx.adapt {
                        h.visit(VisitorWithCrateError(VisitorWithCrateError(spy))).map_err(once)
                    } else {
                        h.visit(spy)
                    }),
                }
            } else if adapt < cx.adapt / 2 {
                v.item(VisitorWithCrateError(spy)).map(|r| r.map_err(once))
            } else if adapt < cx.adapt {
                v.item(VisitorWithCrateError(VisitorWithCrateError(spy))).map(|r| r.map_err(once))
            } else {
                v.item(spy)
            };
            if adapt < cx.adapt {
                cx.count(5);
            }
            match r {
                None => {
                    cx.viol(format!("{what} of {} is missing", kids.len()));
                    return Ok(());
                }
                Some(Err(e)) => {
                    if let (Some(t), false) = (cx.failed.get(), e == XE::Token(cx.failed.get().unwrap_or(0))) {
                        cx.viol(format!("{what} failed with {e:?}, but its hook with token {t}"));
                    }
                    return Err(e);
                }
                Some(Ok(t)) => {
                    if (t.start, t.depth) != (k.start, d) {
                        cx.viol(format!("{what}: the value returned is {t:?}, expected one for offset {} depth {d}", k.start));
                    }
                    if cx.failed.get().is_some() {
                        cx.viol(format!("{what}: a failure at its hook became the value {t:?}"));
                    }
                }
            }
        }
        let at = cx.odd_at.get().unwrap_or(self.exp.end);
        cx.view("undecoded bytes after the items", v.undecoded(), at, self.lim);
        Ok(())
    }
}
macro_rules! nums {
    ($($f:ident $t:ty, $k:ident $p:ident as $w:ty;)*) => {$(
        fn $f<'s, 'r>(self, v: $t, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
            let ok = matches!(&self.exp.k, K::$k(Prim::$p, x) if *x == v as $w);
            self.visit(stringify!($f), v.to_string(), ok, &id);
            Ok(self.tok(false))
        }
    )*};
}
impl<'c, R: MapId> Visitor for Spy<'c, R> {
    type Value<'s, 'r> = Tok;
    type Error = XE;
    type TypeResolver = R;
    fn unchecked_decode_as_type<'s, 'r>(self, input: &mut &'s [u8], id: TypeIdFor<Self>, types: &'r R) -> DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>> {
        let (cx, n) = (self.cx, self.exp);
        cx.count(1);
        cx.note("hook".into(), n.start);
        self.asked.set(self.types.model_id(&id));
        if types as *const R as *const u8 != self.types as *const R as *const u8 {
            cx.viol("the hook was given a different registry".into());
        }
        if let Some(at) = cx.odd_at.get() {
            // everything is misplaced by now, but follows what was taken
            cx.view("hook input after a hook that took other bytes", input, at, self.lim);
            let k = cx.roll(3, at, self.depth) as usize % (input.len().min(9) + 1);
            *input = &input[k..];
            cx.odd_at.set(Some(at + k));
            return DecodeAsTypeResult::Decoded(Ok(self.tok(true)));
        }
        self.id_ok(&id, "hook called");
        if let (Some((at, k)), false) = (cx.junk, cx.junk_done.get()) {
            if std::ptr::eq(at, n) {
                cx.view("hook input", input, n.start, self.lim);
                *input = &input[k..];
                cx.junk_done.set(true);
                cx.count(4);
                return DecodeAsTypeResult::Skipped(self);
            }
        }
        let junked = matches!(cx.junk, Some((at, _)) if std::ptr::eq(at, n));
        let start = n.start + if junked { cx.junk.unwrap().1 } else { 0 };
        cx.view("hook input", input, start, self.lim);
        let x = cx.roll(1, n.start, self.depth) % 1000;
        let mut act = Act::Decline;
        let mut below = 0;
        for (p, a) in [(cx.accept, Act::Accept), (cx.delegate, Act::Delegate), (cx.fail, Act::Fail), (cx.odd, Act::Odd(0))] {
            if (below..below + p).contains(&x) {
                act = a;
            }
            below += p;
        }
        if self.inner && act == Act::Delegate || n.has_bad_str() && act == Act::Delegate {
            act = Act::Accept;
        }
        match act {
            Act::Decline => DecodeAsTypeResult::Skipped(self),
            Act::Accept => {
                cx.count(2);
                *input = &input[(n.end - start).min(input.len())..];
                DecodeAsTypeResult::Decoded(Ok(self.tok(true)))
            }
            Act::Delegate => {
                cx.count(2);
                // the inner id of a compact type says nothing about compactness
                let whole = n.via.is_none() || types.model_id(&id) == n.via;
                if !whole {
                    *input = &input[(n.end - start).min(input.len())..];
                    return DecodeAsTypeResult::Decoded(Ok(self.tok(true)));
                }
                let r: Result<AnyVal, XE> = decode_with_visitor(input, id, types, AnyVisitor::<R, XE>::of());
                match r {
                    Ok(v) => {
                        if Some(&v.0) != any_of(cx.m, n).as_ref() {
                            cx.viol(format!("the visitor the hook handed over to gave {}, expected {}", cut(&format!("{v:?}"), 300), cut(&n.show(), 300)));
                        }
                        cx.view("input after the visitor the hook handed over to", input, n.end, self.lim);
                        DecodeAsTypeResult::Decoded(Ok(self.tok(true)))
                    }
                    Err(e) => {
                        cx.viol(format!("the visitor the hook handed over to failed: {e:?}"));
                        DecodeAsTypeResult::Decoded(Err(e))
                    }
                }
            }
            Act::Fail => {
                cx.count(3);
                let t = cx.roll(7, n.start, self.depth) % 1_000_000;
                cx.failed.set(Some(t));
                DecodeAsTypeResult::Decoded(Err(XE::Token(t)))
            }
            Act::Odd(_) => {
                cx.count(2);
                let k = cx.roll(2, n.start, self.depth) as usize % (input.len().min(40) + 1);
                *input = &input[k..];
                cx.odd_at.set(Some(start + k));
                DecodeAsTypeResult::Decoded(Ok(self.tok(true)))
            }
        }
    }
    nums! {
        visit_u8 u8, U U8 as u128; visit_u16 u16, U U16 as u128; visit_u32 u32, U U32 as u128;
        visit_u64 u64, U U64 as u128; visit_u128 u128, U U128 as u128;
        visit_i8 i8, I I8 as i128; visit_i16 i16, I I16 as i128; visit_i32 i32, I I32 as i128;
        visit_i64 i64, I I64 as i128; visit_i128 i128, I I128 as i128;
    }
    fn visit_bool<'s, 'r>(self, v: bool, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.visit("visit_bool", v.to_string(), self.exp.k == K::Bool(v), &id);
        Ok(self.tok(false))
    }
    fn visit_char<'s, 'r>(self, v: char, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.visit("visit_char", v.to_string(), self.exp.k == K::Char(v), &id);
        Ok(self.tok(false))
    }
    fn visit_u256<'r>(self, v: &[u8; 32], id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        self.visit("visit_u256", hex(v), self.exp.k == K::B32(Prim::U256, *v), &id);
        Ok(self.tok(false))
    }
    fn visit_i256<'r>(self, v: &[u8; 32], id: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, Self::Error> {
        self.visit("visit_i256", hex(v), self.exp.k == K::B32(Prim::I256, *v), &id);
        Ok(self.tok(false))
    }
    fn visit_str<'s, 'r>(self, v: &mut Str<'s>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let s = v.as_str().ok().map(|s| s.to_string());
        let ok = matches!(&self.exp.k, K::Str { s: w, .. } if *w == s);
        self.visit("visit_str", format!("{:?}", s.map(|s| cut(&s, 50))), ok, &id);
        Ok(self.tok(false))
    }
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let b: Result<Vec<bool>, _> = v.decode()?.collect();
        let b = b.map_err(|e| XE::Dec(e.into()))?;
        let n = b.len();
        self.visit("visit_bitsequence", n.to_string(), self.exp.k == K::Bits(b), &id);
        Ok(self.tok(false))
    }
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let K::Seq { items, .. } = &self.exp.k else {
            self.visit("visit_sequence", String::new(), false, &id);
            return Ok(self.tok(false));
        };
        self.visit("visit_sequence", v.remaining().to_string(), v.remaining() == items.len(), &id);
        self.items(v, items)?;
        Ok(self.tok(false))
    }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let K::Arr(items) = &self.exp.k else {
            self.visit("visit_array", String::new(), false, &id);
            return Ok(self.tok(false));
        };
        self.visit("visit_array", v.remaining().to_string(), v.remaining() == items.len(), &id);
        self.items(v, items)?;
        Ok(self.tok(false))
    }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let K::Tuple(items) = &self.exp.k else {
            self.visit("visit_tuple", String::new(), false, &id);
            return Ok(self.tok(false));
        };
        self.visit("visit_tuple", v.remaining().to_string(), v.remaining() == items.len(), &id);
        self.items(v, items)?;
        Ok(self.tok(false))
    }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let K::Comp(items) = &self.exp.k else {
            self.visit("visit_composite", String::new(), false, &id);
            return Ok(self.tok(false));
        };
        self.visit("visit_composite", v.remaining().to_string(), v.remaining() == items.len(), &id);
        self.items(v, items)?;
        Ok(self.tok(false))
    }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, R>, id: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let (K::Var { v: i, fields }, Some(Def::Var { variants, .. })) = (&self.exp.k, self.cx.m.def(self.exp.ty)) else {
            self.visit("visit_variant", String::new(), false, &id);
            return Ok(self.tok(false));
        };
        self.visit("visit_variant", v.name().to_string(), variants[*i].index == v.index() && variants[*i].name == v.name(), &id);
        self.items(v.fields(), fields)?;
        Ok(self.tok(false))
    }
}
/// Moves the tree apart by k bytes put in front of the node with the given number.
fn spread(n: &mut Node, ord: &mut isize, k: usize) {
    // before: the node is behind the gap
    fn shift(n: &mut Node, k: usize, body: bool) {
        if !body {
            n.start += k;
        }
        n.end += k;
        match &mut n.k {
            K::Seq { body, items } => {
                *body += k;
                items.iter_mut().for_each(|x| shift(x, k, false));
            }
            K::Str { off, .. } => *off += k,
            K::Arr(v) | K::Tuple(v) | K::Comp(v) | K::Var { fields: v, .. } => v.iter_mut().for_each(|x| shift(x, k, false)),
            _ => {}
        }
    }
    if *ord == 0 {
        *ord = -1;
        shift(n, k, true);
        return;
    }
    if *ord < 0 {
        shift(n, k, false);
        return;
    }
    *ord -= 1;
    let before = *ord;
    match &mut n.k {
        K::Seq { items: v, .. } | K::Arr(v) | K::Tuple(v) | K::Comp(v) | K::Var { fields: v, .. } => v.iter_mut().for_each(|x| spread(x, ord, k)),
        _ => {}
    }
    if *ord < 0 && before >= 0 {
        n.end += k;
    }
}
type Run = (Result<Tok, XE>, usize, Vec<(String, usize)>, Option<u64>, Option<usize>);
fn run_spy<R: MapId>(c: &mut Case, cx: Cx, j: &Node, id: Id, input: &[u8], types: &R, top: usize) -> Run {
    let cur = &mut &*input;
    let spy = Spy { cx: &cx, types, exp: j, lim: input.len(), depth: 0, inner: false, asked: Cell::new(None) };
    let tid = types.make_id(id);
    let conv = |e: scale_decode::Error| match token(&e.to_string()) {
        Some(t) => XE::Token(t),
        None => XE::Crate(e.to_string()),
    };
    let r = match top {
        0 => decode_with_visitor(cur, tid, types, spy),
        1 => decode_with_visitor(cur, tid, types, VisitorWithCrateError(spy)).map_err(conv),
        _ => decode_with_visitor(cur, tid, types, VisitorWithCrateError(VisitorWithCrateError(spy))).map_err(conv),
    };
    if !is_tail(input, cur) {
        c.viol("what is left is not a tail of the input".into());
    }
    for v in cx.viols.take() {
        c.viol(v);
    }
    for (n, k) in ["visits", "hook_calls", "hooks_taken_over", "hooks_failed", "prefixes_eaten", "adaptors"].iter().zip(&cx.ev) {
        c.count(n, k.get());
    }
    (r, cur.len(), cx.log.take(), cx.failed.get(), cx.odd_at.get())
}
fn hooks<R: MapId>(c: &mut Case, j: &Job, types: &R) {
    let base = j.input.as_ptr() as usize;
    let seed = c.rng.next();
    let cx = |accept, delegate, fail, odd, adapt, handles| Cx {
        m: &j.m, base, seed, accept, delegate, fail, odd, adapt, handles,
        junk: None, junk_done: Cell::new(false), odd_at: Cell::new(None), failed: Cell::new(None),
        log: RefCell::new(vec![]), viols: RefCell::new(vec![]), ev: Default::default(),
    };
    let left = j.input.len() - j.len;
    let ok = |c: &mut Case, what: &str, r: &Run| match (&r.0, r.3) {
        (Ok(t), None) if (t.start, t.depth) == (0, 0) && r.1 == r.4.map_or(left, |o| j.input.len() - o) => {}
        (Err(XE::Token(t)), Some(f)) if *t == f => {}
        (x, f) => c.viol(format!("{what}: result {x:?}, {} bytes left, hook failed {f:?}, hook left off at {:?}, expected {left} bytes", r.1, r.4)),
    };
    // declining everywhere
    let p = run_spy(c, cx(0, 0, 0, 0, 0, 300), &j.node, j.id, &j.input, types, 0);
    ok(c, "hooks that decline", &p);
    // the same behind adaptors
    let q = run_spy(c, cx(0, 0, 0, 0, 500, 300), &j.node, j.id, &j.input, types, 1);
    ok(c, "hooks that decline, adapted", &q);
    let same = |c: &mut Case, what: &str, p: &Run, q: &Run| {
        if p.0 != q.0 || p.1 != q.1 {
            c.viol(format!("{what}: alone {:?} and {} bytes left, adapted {:?} and {}", p.0, p.1, q.0, q.1));
        }
        if let Some((a, b)) = p.2.iter().zip(&q.2).find(|(a, b)| a != b) {
            c.viol(format!("{what}: alone {a:?} is called, adapted {b:?}"));
        } else if p.2.len() != q.2.len() {
            c.viol(format!("{what}: {} calls alone, {} adapted", p.2.len(), q.2.len()));
        }
    };
    same(c, "declining", &p, &q);
    // some accept, some fail
    let (a, d, f) = (c.rng.range(0, 400) as u64, c.rng.range(0, 300) as u64, if c.rng.chance(1, 3) { 60 } else { 0 });
    let p = run_spy(c, cx(a, d, f, 0, 0, 300), &j.node, j.id, &j.input, types, 0);
    ok(c, "hooks that take over", &p);
    let top = c.rng.below(3);
    let q = run_spy(c, cx(a, d, f, 0, 500, 300), &j.node, j.id, &j.input, types, top);
    ok(c, "hooks that take over, adapted", &q);
    same(c, "taking over", &p, &q);
    // one takes other bytes than it should, those after it go on from there
    let p = run_spy(c, cx(0, 0, 0, 200, 0, 0), &j.node, j.id, &j.input, types, 0);
    ok(c, "hooks that take other bytes", &p);
    let q = run_spy(c, cx(0, 0, 0, 200, 400, 0), &j.node, j.id, &j.input, types, c.rng.clone().below(3));
    ok(c, "hooks that take other bytes, adapted", &q);
    same(c, "taking other bytes", &p, &q);
    c.evals(6);
    // bytes in front of some value that only its hook knows about
    let mut starts = vec![];
    j.node.walk(&mut |n| starts.push(n.start));
    let (ord, k) = (c.rng.below(starts.len()), c.rng.range(1, 9));
    let mut x = j.input[..starts[ord]].to_vec();
    x.extend(c.rng.bytes(k));
    x.extend(&j.input[starts[ord]..]);
    let mut n = j.node.clone();
    spread(&mut n, &mut (ord as isize), k);
    let mut at: Vec<*const Node> = vec![];
    n.walk(&mut |n| at.push(n as *const Node));
    let old = c.rng.next();
    for adapt in [0, 400] {
        let cx = Cx { base: x.as_ptr() as usize, junk: Some((at[ord], k)), seed: old, ..cx(0, 0, 0, 0, adapt, 0) };
        let top = if adapt == 0 { 0 } else { c.rng.below(3) };
        let p = run_spy(c, cx, &n, j.id, &x, types, top);
        if !matches!(p.0, Ok(t) if (t.start, t.depth) == (n.start, 0)) || p.1 != left {
            c.viol(format!("a hook that takes {k} bytes in front of node {ord} and declines: {:?} and {} bytes left, expected {left}", p.0, p.1));
        }
        c.eval();
    }
}
#[derive(Clone, Debug, DecodeAsType)]
struct Mix {
    one: Adapted,
    many: Vec<Hooked>,
    other: Option<Adapted2>,
}
#[derive(Clone, Debug, DecodeAsType)]
struct Two(Hooked, Adapted);
#[derive(Clone, Debug, DecodeAsType)]
enum Which {
    A(Hooked),
    B { x: Adapted, y: Vec<Adapted2> },
    C,
}
fn tf<T: Target>(name: &str) -> TF {
    TF { name: name.into(), shape: T::shape(), skip: None }
}
impl Target for Mix {
    fn shape() -> Shape {
        Shape::Struct(std::sync::Arc::new(SDef { name: "Mix", kind: FKind::Named, fields: vec![tf::<Adapted>("one"), tf::<Vec<Hooked>>("many"), tf::<Option<Adapted2>>("other")] }))
    }
    fn reify(&self) -> TVal {
        TVal::List(vec![self.one.reify(), self.many.reify(), self.other.reify()])
    }
}
impl Target for Two {
    fn shape() -> Shape {
        Shape::Struct(std::sync::Arc::new(SDef { name: "Two", kind: FKind::Unnamed, fields: vec![tf::<Hooked>("0"), tf::<Adapted>("1")] }))
    }
    fn reify(&self) -> TVal {
        TVal::List(vec![self.0.reify(), self.1.reify()])
    }
}
impl Target for Which {
    fn shape() -> Shape {
        Shape::Enum(std::sync::Arc::new(EDef {
            name: "Which",
            variants: vec![
                ("A".into(), FKind::Unnamed, vec![tf::<Hooked>("0")]),
                ("B".into(), FKind::Named, vec![tf::<Adapted>("x"), tf::<Vec<Adapted2>>("y")]),
                ("C".into(), FKind::Unit, vec![]),
            ],
        }))
    }
    fn reify(&self) -> TVal {
        match self {
            Which::A(a) => TVal::Enum("A".into(), vec![a.reify()]),
            Which::B { x, y } => TVal::Enum("B".into(), vec![x.reify(), y.reify()]),
            Which::C => TVal::Enum("C".into(), vec![]),
        }
    }
}
/// Asking a target's visitor first whether it wants to decode the type itself, as a custom visitor does that hands over to it.
fn by_hook<T: Target, R: TypeResolver>(b: &mut &[u8], id: R::TypeId, types: &R) -> Result<TVal, Error> {
    match T::into_visitor::<R>().unchecked_decode_as_type(b, id.clone(), types) {
        DecodeAsTypeResult::Decoded(r) => r,
        DecodeAsTypeResult::Skipped(v) => decode_with_visitor(b, id, types, v),
    }
    .map(|x| x.reify())
}
fn two<T: Target, R: TypeResolver>() -> (Entry<R>, Entry<R>) {
    let e = mon::targets::entry::<T, R>();
    (e.clone(), Entry { decode: by_hook::<T, R>, ..e })
}
macro_rules! twos {
    ($r:ty; $($t:ty),* $(,)?) => { vec![$(two::<$t, $r>()),*] };
}
fn handed(t: &T, c: &mut Case) {
    let (plain, hook) = c.rng.pick(&t.twos).clone();
    let bend = Bend { wrong: if c.rng.chance(1, 2) { 0 } else { 40 }, compact: 200, ..Default::default() };
    let Some(x) = make(c, &(plain.shape)(), bend, 40) else { return };
    let reg = x.m.portable();
    let mut b = x.bytes.clone();
    if c.rng.chance(1, 3) {
        mutate(&mut c.rng, &mut b);
        if refdec(&x.m, x.id, &b) == Err(RErr::Budget) {
            c.skipped();
            return;
        }
    } else {
        let t = c.rng.below(6);
        b.extend(c.rng.bytes(t));
    }
    c.context(|| format!("target {} type {} input {}", plain.name, x.m.show(x.id), hex(&b)));
    let (mut l1, mut l2) = (&*b, &*b);
    let want = (plain.decode)(&mut l1, x.id as u32, &reg);
    let got = (hook.decode)(&mut l2, x.id as u32, &reg);
    match (&want, &got) {
        (Ok(w), Ok(g)) => {
            if w != g {
                c.viol(format!("its visitor, asked first, gave {g:?}, decode_as_type gives {w:?}"));
            } else if l1.len() != l2.len() {
                c.viol(format!("its visitor, asked first, left {} bytes, decode_as_type leaves {}", l2.len(), l1.len()));
            }
            c.count("handed_ok", 1);
        }
        (Err(_), Err(_)) => c.count("handed_refused", 1),
        (Ok(w), Err(e)) => c.viol(format!("its visitor, asked first, failed with {e}; decode_as_type gives {w:?}")),
        (Err(e), Ok(g)) => c.viol(format!("its visitor, asked first, gave {g:?}; decode_as_type fails with {e}")),
    }
    c.eval();
    c.distinct(&[b"handed", plain.name.as_bytes(), x.m.show(x.id).as_bytes(), &b]);
}
struct T {
    twos: Vec<(Entry<scale_info::PortableRegistry>, Entry<scale_info::PortableRegistry>)>,
    hooked: Vec<Entry<scale_info::PortableRegistry>>,
    adapted: Vec<Entry<scale_info::PortableRegistry>>,
}
fn case(t: &T, c: &mut Case) {
    if c.rng.chance(1, 3) {
        // targets made of such visitors: adaptors keep compactness, a hook that hands over does not know of it
        let (es, compact) = if c.rng.chance(1, 2) { (&t.hooked, 0) } else { (&t.adapted, 300) };
        let bend = match c.rng.below(3) {
            0 => Bend { wrong: 0, missing: 0, compact, ..Default::default() },
            1 => Bend { wrong: 60, compact, ..Default::default() },
            _ => Bend { compact, ..Default::default() },
        };
        let e = &es[c.rng.below(es.len())];
        run_one(c, e, bend, 40, true);
        c.count("target_decodes", 1);
        return;
    }
    if c.rng.chance(1, 4) {
        return handed(t, c);
    }
    let m = model(c, false);
    let Some(j) = job(c, &m, true) else { return };
    if j.input.len() > 3000 || j.node.count() > 1500 {
        return;
    }
    match c.rng.below(4) {
        0 => hooks(c, &j, &Perm::new(&m, &mut c.rng.clone())),
        1 => hooks(c, &j, &ModelResolver(&m)),
        _ => hooks(c, &j, &m.portable()),
    }
    record(c, &j);
}
fn main() {
    let t = T {
        twos: twos!(scale_info::PortableRegistry; u8, u64, i32, std::num::NonZeroU16, bool, char, String, scale_bits::Bits, std::marker::PhantomData<u8>,
            std::time::Duration, std::ops::Range<u16>, std::ops::RangeInclusive<i64>, std::borrow::Cow<'static, str>, std::sync::Arc<u32>, Rc<String>, Box<u16>, Box<(u8, u8)>,
            Box<Rc<Vec<u8>>>, primitive_types::H128, primitive_types::H160, primitive_types::H256, primitive_types::H384, primitive_types::H512, primitive_types::H768,
            codec::Compact<u32>, codec::Compact<Box<u8>>, Vec<u8>, [u16; 3], Option<u8>, Result<u8, bool>, (), (u8,), (Box<u8>,), ((u16,),), (u8, u16),
            (std::time::Duration, u8), std::collections::BTreeSet<u8>, BTreeMap<String, u32>, Option<std::time::Duration>, Vec<Box<u8>>,
            AnyVal, Adapted, Adapted2, Hooked, Box<Adapted>, (Adapted,), Mix, Two, Which),
        hooked: mon::entries!(scale_info::PortableRegistry; Hooked, Vec<Hooked>, Option<Hooked>, Result<Hooked, u8>, Box<Hooked>, Rc<Hooked>, (Hooked, Hooked), [Hooked; 2],
            BTreeMap<String, Hooked>, std::collections::BTreeSet<Hooked>, (Hooked, u8, Adapted), Vec<Vec<Hooked>>, Mix, Two, Which, Vec<Which>),
        adapted: mon::entries!(scale_info::PortableRegistry; Adapted, Adapted2, Vec<Adapted>, Vec<Adapted2>, Option<Adapted>, Result<Adapted, Adapted2>, Box<Adapted>, Box<Adapted2>, (Adapted, Adapted2),
            [Adapted; 3], BTreeMap<String, Adapted>, (Adapted,), (Adapted2,), Box<(Adapted,)>, codec::Compact<Adapted>, Vec<Box<Adapted2>>),
    };
    run::run("C20", run::Opts { quick: 200_000, thorough: 3_000_000, ..Default::default() }, |c| case(&t, c))
}
