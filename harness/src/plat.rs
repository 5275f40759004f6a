//! Outcomes of decodes as text, so that they can be compared across platforms: a corpus of decodes is made on one platform,
//! with what they give there, and gone through again on others.
use crate::conv::*;
use crate::convrun::*;
use crate::explore::{Ctx, Explorer, Mode};
use crate::model::*;
use crate::resolvers::MapId;
use crate::rng::{hash_bytes, Rng};
use crate::targets::{Entry, SEntry};
use crate::run::Case;
use crate::val::*;
use crate::wild::{WCtx, Wild};
use codec::{Decode, Encode};
use scale_decode::error::{Error, ErrorKind};
use scale_decode::visitor::{decode_with_visitor, IgnoreVisitor};
use scale_decode::TypeResolver;
use scale_info::PortableRegistry as P;

pub const TARGET: u8 = 0;
pub const FIELDS: u8 = 1;
pub const SKIP: u8 = 2;
pub const EXPLORE: u8 = 3;
pub const WILD: u8 = 4;
/// a length beyond 32 bits is declared: where pointers have 32 bits, any error will do
pub const HUGE: u8 = 1;
/// only offered where pointers have 32 bits; must be an error there
pub const ONLY32: u8 = 2;

#[derive(Encode, Decode, Clone, Debug)]
pub struct Item {
    pub kind: u8,
    pub flags: u8,
    pub target: u32,
    pub id: u32,
    pub fields: Vec<(Option<String>, u32)>,
    pub seed: u64,
    pub input: Vec<u8>,
    pub want: String,
    /// what to expect where pointers have 32 bits, if not the same
    pub want32: Option<String>,
}
#[derive(Encode, Decode)]
pub struct Group {
    pub case: u64,
    pub reg: P,
    pub items: Vec<Item>,
}
impl Group {
    pub fn framed(&self) -> Vec<u8> {
        let e = self.encode();
        let mut w = (e.len() as u32).to_le_bytes().to_vec();
        w.extend(e);
        w
    }
}
pub struct Targets<R: TypeResolver = P> {
    pub e: Vec<Entry<R>>,
    pub s: Vec<SEntry<R>>,
}
impl<R: TypeResolver> Targets<R> {
    pub fn name(&self, it: &Item) -> &'static str {
        match it.kind {
            TARGET => self.e[it.target as usize].name,
            FIELDS => self.s[it.target as usize].e.name,
            _ => "",
        }
    }
}
/// Which characters Debug escapes depends on the standard library's version.
fn ascii(s: String) -> String {
    if s.is_ascii() {
        return s;
    }
    s.chars().map(|c| if c.is_ascii() { c.to_string() } else { c.escape_unicode().to_string() }).collect()
}
fn brief(s: String) -> String {
    let s = ascii(s);
    if s.len() <= 1200 {
        return s;
    }
    format!("{}.. {:016x}", &s[..1200], hash_bytes(7, s.as_bytes()))
}
/// Compare error texts as well (not across versions of the standard library or widths of pointers).
pub static FULL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn full() -> bool {
    FULL.load(std::sync::atomic::Ordering::Relaxed)
}
fn dec(e: &scale_decode::visitor::DecodeError) -> String {
    let s = format!("{e:?}");
    if full() {
        return format!("{s} {e}");
    }
    s.split(['(', '{', ' ']).next().unwrap_or("").to_string()
}
/// Kind of error and where, without wording.
pub fn err_text(e: &Error) -> String {
    if full() {
        return format!("err {e} {e:?}");
    }
    let at: Vec<String> = e.context().path().locations().map(|l| format!("{l:?}")).collect();
    let k = match e.kind() {
        ErrorKind::VisitorDecodeError(d) => format!("decode error {}", dec(d)),
        ErrorKind::Custom(_) => "custom".to_string(),
        k => format!("{k:?}"),
    };
    format!("err {k} at {at:?}")
}
fn text(r: Result<TVal, Error>, left: usize) -> String {
    match r {
        Ok(v) => format!("ok {left} left {v:?}"),
        Err(e) => format!("{} {left} left", err_text(&e)),
    }
}
pub fn outcome(t: &Targets, reg: &P, it: &Item) -> String {
    outcome_on(t, reg, it, &it.input)
}
pub fn outcome_on(t: &Targets, reg: &P, it: &Item, b: &[u8]) -> String {
    outcome_with(t, reg, &|| from_portable(reg), it, b)
}
pub fn outcome_with<R: MapId<TypeId = u32>>(t: &Targets<R>, reg: &R, model: &dyn Fn() -> Model, it: &Item, b: &[u8]) -> String {
    let cur = &mut &*b;
    let id = it.id;
    brief(match it.kind {
        TARGET => {
            let r = (t.e[it.target as usize].decode)(cur, id, reg);
            text(r, cur.len())
        }
        FIELDS => {
            let r = (t.s[it.target as usize].fields)(cur, &it.fields, reg);
            text(r, cur.len())
        }
        SKIP => match decode_with_visitor(cur, id, reg, IgnoreVisitor::<R>::new()) {
            Ok(()) => format!("ok {} left", cur.len()),
            Err(e) => format!("err {} {} left", dec(&e), cur.len()),
        },
        EXPLORE => {
            let m = model();
            match refdec(&m, id as usize, b) {
                Err(e) => format!("reference: {e:?}"),
                Ok(n) => {
                    let mode = [Mode::Full, Mode::Partial][(it.seed & 1) as usize];
                    let ctx = Ctx::new(&m, b, Rng::new(it.seed), mode);
                    let e = Explorer { ctx: &ctx, types: reg, exp: Some(&n), lim: b.len(), compact: false };
                    let r = decode_with_visitor(cur, reg.make_id(id as usize), reg, e);
                    let ev: Vec<u64> = ctx.ev.iter().map(|x| x.get()).collect();
                    format!("explorer {} {} left, events {ev:?}, complaints {:?}", r.is_ok(), cur.len(), ctx.viols.take())
                }
            }
        }
        _ => {
            let ctx = WCtx::new(Rng::new(it.seed), b, 400, 1, it.seed & 2 > 0);
            let r = decode_with_visitor(cur, id, reg, Wild { ctx: &ctx, types: reg });
            let ev: Vec<u64> = ctx.ev.iter().map(|x| x.get()).collect();
            format!("wild {} {} left, events {ev:?}, sum {:x}, out {:?}", r.is_ok(), cur.len(), ctx.sum.get(), ctx.out.take())
        }
    })
}
/// None if the outcome is as it should be here.
pub fn mismatch(t: &Targets, reg: &P, it: &Item, bits32: bool) -> Option<String> {
    if it.flags & ONLY32 > 0 && !bits32 {
        return None;
    }
    let got = outcome(t, reg, it);
    if it.flags & (HUGE | ONLY32) > 0 && bits32 {
        return (!got.starts_with("err ")).then(|| format!("a length beyond 32 bits gives: {got}"));
    }
    let want = match &it.want32 {
        Some(w) if bits32 => w,
        _ => &it.want,
    };
    (got != *want).then(|| format!("gives: {got}  elsewhere: {want}"))
}
/// The groups of a corpus file, undecoded.
pub fn groups(mut b: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    while b.len() >= 4 {
        let n = u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize;
        v.push(&b[4..4 + n]);
        b = &b[4 + n..];
    }
    v
}
/// Writes other lengths over the ones in an encoded value.
fn lengthen(c: &mut Case, node: &Node, b: &[u8], far: bool) -> Option<Vec<u8>> {
    let mut at: Vec<(usize, usize, u128)> = vec![];
    node.walk(&mut |n: &Node| match &n.k {
        K::Seq { body, items } => at.push((n.start, *body, items.len() as u128)),
        K::Str { off, .. } => at.push((n.start, *off, (n.end - off) as u128)),
        K::Bits(x) => {
            let mut p = vec![];
            enc_compact(x.len() as u128, &mut p);
            at.push((n.start, n.start + p.len(), x.len() as u128))
        }
        _ => {}
    });
    if at.is_empty() {
        return None;
    }
    let (s, e, n) = *c.rng.pick(&at);
    let k = 1 + c.rng.below(3) as u128;
    let new = if far {
        match c.rng.below(8) {
            0 => u64::MAX as u128,
            1 => 1u128 << c.rng.range(32, 63),
            2 => (1u128 << c.rng.range(33, 63)) + n,
            _ => (k << 32) + n,
        }
    } else {
        let w = c.rng.range(1, 33);
        match c.rng.below(6) {
            0 => u32::MAX as u128 - c.rng.below(12) as u128,
            1 => (1 << 31) - 1 - c.rng.below(3) as u128,
            2 => (1 << 31) + n,
            3 => n + k,
            4 => (u32::MAX as u128).saturating_sub(b.len() as u128).saturating_add(c.rng.below(9) as u128).min(u32::MAX as u128),
            _ => ((1u128 << w) - c.rng.below(2) as u128).min(u32::MAX as u128),
        }
    };
    let mut out = b[..s].to_vec();
    enc_compact(new, &mut out);
    out.extend_from_slice(&b[e..]);
    Some(out)
}
/// A registry and what to decode with it (outcomes not yet filled in); `anywhere`: with the same outcome on any platform.
pub fn items<R: MapId<TypeId = u32>>(c: &mut Case, t: &Targets<R>, small: bool, anywhere: bool) -> Option<(Model, Vec<Item>)> {
    let (budget, longest) = if small { (8, 70) } else { (60, 600) };
    let mut out = vec![];
    let (m, pool): (Model, Vec<(Id, Node, Vec<u8>, Option<usize>)>) = if c.rng.chance(2, 3) {
        let k = c.rng.below(t.e.len());
        let shape = (t.e[k].shape)();
        let bend = Bend {
            wrong: *c.rng.pick(&[0, 20, 100]), wrap: 100, compact: 200, extra: *c.rng.pick(&[0, 200]), missing: *c.rng.pick(&[0, 50]), positional: 100, deeper: 0,
        };
        let Some(x) = make(c, &shape, bend, budget) else { return None };
        let mut p = vec![];
        for _ in 0..2 {
            if let Some(y) = value(c, x.m.clone(), x.id, x.hints.clone(), budget) {
                p.push((y.id, y.node, y.bytes, Some(k)));
            }
        }
        p.push((x.id, x.node, x.bytes, Some(k)));
        (x.m, p)
    } else {
        let o = GenOpts { types: c.rng.range(3, 14), hostile: c.rng.chance(1, 4), ..Default::default() };
        let m = gen_model(&mut c.rng, &o);
        let mut p = vec![];
        for _ in 0..6 {
            let id = c.rng.below(m.defs.len());
            if let Some((n, b)) = gen_value(&mut c.rng, &m, id, &ValOpts { budget, long_lists: false }) {
                p.push((id, n, b, None));
            }
        }
        (m, p)
    };
    let sizes = min_sizes(&m);
    let nothings = m.defs.iter().any(|d| matches!(d, Def::Seq(t) | Def::Array(t, _) if sizes.get(*t).copied().flatten() == Some(0)));
    let any = t.e.iter().position(|e| e.name.ends_with("AnyVal")).unwrap();
    for (id, node, bytes, k) in pool {
        if bytes.len() > longest || node.depth() > 40 {
            c.skipped();
            continue;
        }
        for round in 0..3 {
            let mut b = bytes.clone();
            match round {
                0 => {
                    if c.rng.chance(1, 3) {
                        let n = c.rng.below(6);
                        b.extend(c.rng.bytes(n));
                    }
                }
                1 => match c.rng.below(3) {
                    0 => b.truncate(c.rng.below(b.len() + 1)),
                    _ => mutate(&mut c.rng, &mut b),
                },
                _ => {
                    let far = c.rng.chance(1, 2);
                    match lengthen(c, &node, &b, far) {
                        Some(x) => b = x,
                        None => continue,
                    }
                }
            }
            if b.len() > longest + 100 {
                continue;
            }
            let mut r = RefDec::new(&m, &b);
            r.max_steps = 20_000;
            r.max_depth = 60;
            let res = r.decode(id);
            let mut flags = 0;
            let huge = r.max_len > u32::MAX as u128;
            if huge {
                flags |= HUGE;
            }
            if matches!(res, Err(RErr::Budget)) {
                if !huge || r.items < 10_000 {
                    c.skipped();
                    continue;
                }
                flags |= ONLY32;
            }
            // what to do with it
            let mut kinds: Vec<(u8, usize)> = vec![(SKIP, 0), (TARGET, k.unwrap_or(any))];
            if flags == 0 {
                // (slow where it is slow)
                if !small || c.rng.chance(1, 4) {
                    kinds.push((EXPLORE, 0));
                }
                // (a visitor that carries on after an error may come upon an endless list of nothing, or a length beyond 32 bits)
                if (res.is_ok() || !anywhere && !nothings) && (!small || c.rng.chance(1, 4)) {
                    kinds.push((WILD, 0));
                }
                kinds.push((TARGET, c.rng.below(t.e.len())));
            }
            let mut fields = vec![];
            if let Some(Def::Comp { fields: fs, .. }) = m.def(id) {
                fields = fs.iter().map(|f| (f.name.clone(), f.ty as u32)).collect();
                let mine = k.and_then(|k| t.s.iter().position(|s| s.e.name == t.e[k].name));
                kinds.push((FIELDS, mine.unwrap_or_else(|| c.rng.below(t.s.len()))));
            }
            for (kind, target) in kinds {
                // where the declared length is beyond reach, only what goes through the length is of interest
                if flags > 0 && kind == FIELDS {
                    continue;
                }
                out.push(Item {
                    kind, flags, target: target as u32, id: id as u32, fields: if kind == FIELDS { fields.clone() } else { vec![] },
                    // (a hook that takes over may make a length of anything)
                    seed: c.rng.next() & if anywhere && kind == WILD { !2 } else { !0 }, input: b.clone(), want: String::new(), want32: None,
                });
            }
        }
    }
    Some((m, out))
}
