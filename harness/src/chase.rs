//! Stepping through a value with one thing wrong in it: every item before the spoiled one is there, the spoiled one is an
//! error however it is asked for.
use crate::explore::*;
use crate::resolvers::MapId;
use crate::val::*;
use scale_decode::visitor::{types::*, DecodeError, IgnoreVisitor, TypeIdFor, Unexpected, Visitor};

pub struct Chase<'c, R> {
    pub ctx: &'c Ctx<'c>,
    /// what the value would be, had nothing been spoiled
    pub good: &'c Node,
    /// the way from here to what is spoiled
    pub way: &'c [usize],
    /// not even stepping over it is possible
    pub sure: bool,
    pub at: std::marker::PhantomData<R>,
}
impl<'c, R: MapId> Chase<'c, R> {
    pub fn new(ctx: &'c Ctx<'c>, good: &'c Node, way: &'c [usize], sure: bool) -> Self {
        Chase { ctx, good, way, sure, at: std::marker::PhantomData }
    }
    fn items<'s, 'r, C: Cont<'s, 'r, R>>(&self, what: &str, c: &mut C) -> Result<(), XErr>
    where
        R: 'r,
    {
        let ctx = self.ctx;
        let kids = self.good.kids();
        let Some((&i, rest)) = self.way.split_first() else {
            // cut right here, yet there was something to visit: stepping over it has to tell
            return Ok(());
        };
        if self.sure && ctx.chance(1, 6) {
            return Ok(());
        }
        for (k, n) in kids.iter().enumerate().take(i) {
            if ctx.chance(1, 3) {
                match c.handle() {
                    Some(Ok(h)) => ctx.view(Tag::Item, &format!("{what}: item {k} before the spoiled one"), h.bytes(), n.start, n.end),
                    x => ctx.viol(Tag::Err, format!("{what}: item {k} of {} is fine, yet the iterator gave {:?}", kids.len(), x.map(|r| r.map(|_| ())))),
                }
            } else {
                match c.item(IgnoreVisitor::<R>::new()) {
                    Some(Ok(())) => {}
                    x => ctx.viol(Tag::Err, format!("{what}: item {k} of {} is fine, yet skipping it gave {x:?}", kids.len())),
                }
            }
        }
        ctx.view(Tag::Item, &format!("{what}: undecoded bytes before the spoiled item"), c.undecoded(), kids[i].start, ctx.ilen);
        let how = if self.sure { ctx.below(6) } else { 5 };
        ctx.count(16);
        let err: XErr = match how {
            0 => match c.handle() {
                Some(Err(e)) => e.into(),
                Some(Ok(h)) => {
                    ctx.viol(Tag::Err, format!("{what}: item {i} cannot be decoded, yet the iterator handed out {} bytes for it", h.bytes().len()));
                    return Ok(());
                }
                None => {
                    ctx.viol(Tag::Err, format!("{what}: item {i} cannot be decoded, and the iterator just ended"));
                    return Ok(());
                }
            },
            1 => match c.item(IgnoreVisitor::<R>::new()) {
                Some(Err(e)) => e.into(),
                x => {
                    ctx.viol(Tag::Err, format!("{what}: item {i} cannot be decoded, yet skipping it gave {x:?}"));
                    return Ok(());
                }
            },
            2 => match c.skip() {
                Err(e) => e.into(),
                Ok(()) => {
                    ctx.viol(Tag::Err, format!("{what}: item {i} cannot be decoded, yet the rest was skipped"));
                    return Ok(());
                }
            },
            3 if c.tuple().is_some() => {
                let mut t = c.tuple().unwrap();
                return Chase::<R>::new(ctx, &Node { k: K::Tuple(kids[i..].to_vec()), ..self.good.clone() }, &std::iter::once(0).chain(rest.iter().copied()).collect::<Vec<_>>(), true)
                    .items("as_tuple", &mut t);
            }
            _ => {
                let v = Chase::<R>::new(ctx, &kids[i], rest, self.sure);
                let r = if how == 4 { c.item_dyn(v) } else { c.item(v) };
                match r {
                    Some(Err(e)) => e,
                    x => {
                        ctx.viol(Tag::Err, format!("{what}: item {i} cannot be decoded, yet decoding it gave {x:?}"));
                        return Ok(());
                    }
                }
            }
        };
        if self.sure && !C::LIST && ctx.chance(1, 3) {
            // nothing said; stepping over what is left has to fail all the same
            if ctx.chance(1, 2) && c.skip().is_ok() {
                ctx.viol(Tag::Err, format!("{what}: skip_decoding stepped over item {i}, which cannot be decoded"));
            }
            return Ok(());
        }
        Err(err)
    }
}
macro_rules! leaf {
    ($($f:ident $t:ty;)*) => {$(
        fn $f<'s, 'r>(self, _: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
            Ok(())
        }
    )*};
}
impl<'c, R: MapId> Visitor for Chase<'c, R> {
    type Value<'s, 'r> = ();
    type Error = XErr;
    type TypeResolver = R;
    leaf! {
        visit_u8 u8; visit_u16 u16; visit_u32 u32; visit_u64 u64; visit_u128 u128;
        visit_i8 i8; visit_i16 i16; visit_i32 i32; visit_i64 i64; visit_i128 i128; visit_bool bool; visit_char char;
    }
    fn visit_unexpected<'s, 'r>(self, _: Unexpected) -> Result<Self::Value<'s, 'r>, Self::Error> {
        Ok(())
    }
    fn visit_str<'s, 'r>(self, v: &mut Str<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        if !self.sure {
            v.as_str()?;
        }
        Ok(())
    }
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        if !self.sure {
            for b in v.decode()? {
                b.map_err(DecodeError::from)?;
            }
        }
        Ok(())
    }
    fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.items("composite", v)
    }
    fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.items("tuple", v)
    }
    fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        if self.sure && self.ctx.chance(1, 8) {
            return match v.skip_decoding() {
                Err(e) => Err(e.into()),
                Ok(()) => {
                    self.ctx.viol(Tag::Err, "variant: skip_decoding stepped over a field which cannot be decoded".into());
                    Ok(())
                }
            };
        }
        self.items("variant", v.fields())
    }
    fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.items("sequence", v)
    }
    fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        self.items("array", v)
    }
}
/// Can the fault be seen without looking at the value?
pub fn structural(cause: &crate::faults::Cause) -> bool {
    matches!(cause, crate::faults::Cause::Eof | crate::faults::Cause::Variant(_))
}
