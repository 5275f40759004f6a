//! A visitor without manners: does anything the public API allows, in any order, ignoring errors. It judges nothing but that
//! whatever it is handed lies inside the input; it is there to be run under sanitizers and panic monitors.
use crate::any::AnyVal;
use crate::explore::{Cont, Handle};
use crate::resolvers::MapId;
use crate::rng::Rng;
use scale_decode::visitor::{decode_with_visitor, types::*, DecodeAsTypeResult, DecodeError, IgnoreVisitor, TypeIdFor, Visitor, VisitorWithCrateError};
use scale_decode::{DecodeAsType, Error};
use std::cell::{Cell, RefCell};

pub struct WCtx {
    pub rng: RefCell<Rng>,
    pub base: usize,
    pub ilen: usize,
    /// how many more things it does
    pub fuel: Cell<i64>,
    pub depth: Cell<u32>,
    pub max_depth: Cell<u32>,
    pub out: RefCell<Vec<String>>,
    pub ev: [Cell<u64>; 8],
    /// sum of all bytes read, so that reads are not optimised away
    pub sum: Cell<u64>,
    /// chance in 100 to fail a callback
    pub fail: usize,
    pub hooks: bool,
}
pub const WEVENTS: [&str; 8] = ["callbacks", "items", "tolerated_errors", "handles", "views", "hook_takeovers", "own_failures", "reads_after_failure"];
impl WCtx {
    pub fn new(rng: Rng, input: &[u8], fuel: i64, fail: usize, hooks: bool) -> WCtx {
        WCtx {
            rng: RefCell::new(rng),
            base: input.as_ptr() as usize,
            ilen: input.len(),
            fuel: Cell::new(fuel),
            depth: Cell::new(0),
            max_depth: Cell::new(0),
            out: RefCell::new(vec![]),
            ev: Default::default(),
            sum: Cell::new(0),
            fail,
            hooks,
        }
    }
    fn ev(&self, i: usize) {
        crate::tick::tick();
        self.ev[i].set(self.ev[i].get() + 1);
    }
    fn below(&self, n: usize) -> usize {
        self.rng.borrow_mut().below(n)
    }
    fn burn(&self) -> bool {
        self.fuel.set(self.fuel.get() - 1);
        self.fuel.get() > 0
    }
    pub fn touch(&self, what: &str, s: &[u8]) {
        self.ev(4);
        let p = s.as_ptr() as usize;
        if !s.is_empty() && (p < self.base || p + s.len() > self.base + self.ilen) {
            self.out.borrow_mut().push(format!("{what}: {} bytes at input offset {} of {}", s.len(), p.wrapping_sub(self.base) as isize, self.ilen));
            return;
        }
        // long views are read at both ends: reading the whole of them at every step would make long inputs quadratic
        let n = s.len();
        let mut t = 0u64;
        if n <= 256 {
            for b in s {
                t = t.wrapping_add(*b as u64);
            }
        } else {
            for b in s[..128].iter().chain(&s[n - 128..]) {
                t = t.wrapping_add(*b as u64);
            }
        }
        self.sum.set(self.sum.get().wrapping_add(t));
    }
    fn start(&self) -> Result<(), WildErr> {
        self.ev(0);
        self.max_depth.set(self.max_depth.get().max(self.depth.get()));
        if self.below(100) < self.fail {
            self.ev(6);
            return Err(WildErr::Mine);
        }
        Ok(())
    }
}
#[derive(Debug)]
pub enum WildErr {
    Mine,
    Dec(DecodeError),
}
impl From<DecodeError> for WildErr {
    fn from(e: DecodeError) -> Self {
        WildErr::Dec(e)
    }
}
impl From<WildErr> for Error {
    fn from(e: WildErr) -> Self {
        match e {
            WildErr::Mine => Error::custom_str("mine"),
            WildErr::Dec(d) => d.into(),
        }
    }
}
pub struct Wild<'c, R> {
    pub ctx: &'c WCtx,
    pub types: &'c R,
}
impl<'c, R> Clone for Wild<'c, R> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<'c, R> Copy for Wild<'c, R> {}

impl<'c, R: MapId> Wild<'c, R> {
    fn down<T>(&self, f: impl FnOnce() -> T) -> T {
        self.ctx.depth.set(self.ctx.depth.get() + 1);
        let x = f();
        self.ctx.depth.set(self.ctx.depth.get() - 1);
        x
    }
    fn play<'s, 'r, C: Cont<'s, 'r, R>>(&self, c: &mut C) -> Result<(), WildErr> {
        let x = self.ctx;
        let steps = match x.below(6) {
            0 if x.below(2) == 0 => 0,
            1 => x.below(4),
            2 => 60,
            _ => 2 + x.below(24),
        };
        // some callers read on and on in one way; most mix
        let fixed = if x.below(2) == 0 { Some(x.below(3)) } else { None };
        let mut failed = false;
        let mut kept: Vec<C::H> = vec![];
        for _ in 0..steps {
            if !x.burn() {
                break;
            }
            if failed {
                x.ev(7);
            }
            match fixed.unwrap_or_else(|| x.below(14)) {
                0 | 3 | 4 => match self.down(|| c.item(*self)) {
                    None => {
                        if x.below(3) == 0 {
                            break;
                        }
                    }
                    Some(Ok(())) => x.ev(1),
                    Some(Err(e)) => {
                        if x.below(3) == 0 {
                            return Err(e);
                        }
                        failed = true;
                        x.ev(2);
                    }
                },
                1 | 5 => match c.handle() {
                    None => {
                        if x.below(3) == 0 {
                            break;
                        }
                    }
                    Some(Ok(h)) => {
                        x.ev(1);
                        x.touch("item bytes", h.bytes());
                        if kept.len() < 6 {
                            kept.push(h);
                        }
                    }
                    Some(Err(e)) => {
                        if x.below(3) == 0 {
                            return Err(e.into());
                        }
                        failed = true;
                        x.ev(2);
                    }
                },
                2 | 6 => match c.item(IgnoreVisitor::<R>::new()) {
                    None => {}
                    Some(Ok(())) => x.ev(1),
                    Some(Err(e)) => {
                        if x.below(3) == 0 {
                            return Err(e.into());
                        }
                        failed = true;
                        x.ev(2);
                    }
                },
                7 | 12 | 13 => {
                    if let Some(h) = kept.pop() {
                        x.ev(3);
                        match x.below(3) {
                            0 | 1 => {
                                let _ = self.down(|| h.visit(*self));
                            }
                            _ => {
                                let _ = h.any();
                            }
                        }
                    }
                }
                8 => {
                    if x.below(6) == 0 {
                        if let Err(e) = c.skip() {
                            if x.below(3) == 0 {
                                return Err(e.into());
                            }
                            failed = true;
                            x.ev(2);
                        }
                    }
                }
                9 => {
                    // an item through the error adaptor, or into a target
                    match self.down(|| c.item(VisitorWithCrateError(*self))) {
                        None => {}
                        Some(Ok(())) => x.ev(1),
                        Some(Err(_)) => {
                            failed = true;
                            x.ev(2);
                        }
                    }
                }
                _ => {
                    x.touch("from start", c.from_start());
                    x.touch("from undecoded", c.undecoded());
                    let _ = (c.remaining(), c.empty(), c.peek());
                }
            }
        }
        x.touch("from start", c.from_start());
        x.touch("from undecoded", c.undecoded());
        if x.below(2) == 0 {
            for h in kept {
                x.touch("item bytes", h.bytes());
                let _ = self.down(|| h.visit(*self));
            }
        }
        Ok(())
    }
}
macro_rules! wscalars {
    ($($f:ident $t:ty;)*) => {$(
        fn $f<'s, 'r>(self, _: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
            self.ctx.start()
        }
    )*};
}
impl<'c, R: MapId> Visitor for Wild<'c, R> {
    type Value<'s, 'r> = ();
    type Error = WildErr;
    type TypeResolver = R;
    wscalars! { visit_bool bool; visit_char char; visit_u8 u8; visit_u16 u16; visit_u32 u32; visit_u64 u64; visit_u128 u128;
        visit_i8 i8; visit_i16 i16; visit_i32 i32; visit_i64 i64; visit_i128 i128; }
    fn visit_u256<'r>(self, v: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, WildErr> {
        self.ctx.touch("u256", v);
        self.ctx.start()
    }
    fn visit_i256<'r>(self, v: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, WildErr> {
        self.ctx.touch("i256", v);
        self.ctx.start()
    }
    fn visit_str<'s, 'r>(self, v: &mut Str<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, WildErr> {
        self.ctx.start()?;
        for _ in 0..self.ctx.below(5) {
            match self.ctx.below(4) {
                0 => self.ctx.touch("str start", v.bytes_from_start()),
                1 => {
                    if let Ok(b) = v.bytes_after() {
                        self.ctx.touch("str after", b);
                    }
                }
                2 => {
                    if let Ok(s) = v.as_str() {
                        self.ctx.touch("str", s.as_bytes());
                        if s.len() != v.len() {
                            self.ctx.out.borrow_mut().push("string length".into());
                        }
                    }
                }
                _ => {
                    let _ = (v.len(), v.is_empty());
                }
            }
        }
        if self.ctx.below(8) == 0 {
            v.as_str()?;
        }
        Ok(())
    }
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, WildErr> {
        self.ctx.start()?;
        for _ in 0..self.ctx.below(5) {
            match self.ctx.below(4) {
                0 => self.ctx.touch("bits start", v.bytes_from_start()),
                1 => {
                    if let Ok(b) = v.bytes_after() {
                        self.ctx.touch("bits after", b);
                    }
                }
                2 => {
                    if let Ok(d) = v.decode() {
                        let n = self.ctx.below(3) * self.ctx.below(4000);
                        let mut t = 0;
                        for b in d.take(n) {
                            match b {
                                Ok(b) => t += b as u64,
                                Err(_) => break,
                            }
                        }
                        self.ctx.sum.set(self.ctx.sum.get().wrapping_add(t));
                    }
                }
                _ => {
                    v.decode()?;
                }
            }
        }
        Ok(())
    }
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, WildErr> {
        self.ctx.start()?;
        self.play(v)
    }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, WildErr> {
        self.ctx.start()?;
        let _ = v.is_empty();
        self.play(v)
    }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, WildErr> {
        self.ctx.start()?;
        self.play(v)
    }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, WildErr> {
        self.ctx.start()?;
        comp(&self, v)
    }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, WildErr> {
        self.ctx.start()?;
        if self.ctx.below(3) == 0 {
            self.ctx.touch("variant start", v.bytes_from_start());
            self.ctx.touch("variant undecoded", v.bytes_from_undecoded());
            let _ = (v.name().len(), v.index());
        }
        match self.ctx.below(8) {
            0 => Ok(()),
            1 => Ok(v.skip_decoding()?),
            2 => {
                let _ = v.skip_decoding();
                comp(&self, v.fields())
            }
            _ => {
                let r = comp(&self, v.fields());
                self.ctx.touch("variant start", v.bytes_from_start());
                self.ctx.touch("variant undecoded", v.bytes_from_undecoded());
                r
            }
        }
    }
    fn unchecked_decode_as_type<'s, 'r>(self, input: &mut &'s [u8], id: TypeIdFor<Self>, types: &'r R) -> DecodeAsTypeResult<Self, Result<Self::Value<'s, 'r>, Self::Error>> {
        if !self.ctx.hooks || self.ctx.below(12) != 0 || !self.ctx.burn() {
            return DecodeAsTypeResult::Skipped(self);
        }
        self.ctx.ev(5);
        match self.ctx.below(5) {
            0 => {
                // consumes whatever it likes
                let n = self.ctx.below(input.len() + 1);
                *input = &input[n..];
                DecodeAsTypeResult::Decoded(Ok(()))
            }
            1 => {
                *input = &[];
                DecodeAsTypeResult::Decoded(Err(WildErr::Mine))
            }
            2 => {
                let n = self.ctx.below(input.len() + 1).min(3);
                *input = &input[n..];
                DecodeAsTypeResult::Skipped(self)
            }
            3 => DecodeAsTypeResult::Decoded(self.down(|| decode_with_visitor(input, id, types, IgnoreVisitor::<R>::new()).map_err(|e| e.into()))),
            _ => {
                let r = AnyVal::decode_as_type(input, id, types);
                DecodeAsTypeResult::Decoded(match r {
                    Ok(_) => Ok(()),
                    Err(_) => Err(WildErr::Mine),
                })
            }
        }
    }
}
fn comp<'s, 'r, 'c, R: MapId>(w: &Wild<'c, R>, v: &mut Composite<'s, 'r, R>) -> Result<(), WildErr> {
    let x = w.ctx;
    if x.below(3) == 0 {
        let _ = (v.name(), v.path().map(|s| s.len()).sum::<usize>(), v.fields().len(), v.has_unnamed_fields(), v.peek_name());
    }
    match x.below(8) {
        0 => {
            let mut t = v.as_tuple();
            w.play(&mut t)
        }
        1 => {
            w.play(v)?;
            let mut t = v.as_tuple();
            w.play(&mut t)?;
            let _ = v.peek_name();
            w.play(v)
        }
        _ => {
            let r = w.play(v);
            let _ = v.peek_name();
            r
        }
    }
}
