//! Wrapped and unwrapped twins of a source; a target and its pointers.
use mon::conv::*;
use mon::convrun::*;
use mon::model::*;
use mon::run::{self, cut, hex, Case};
use mon::targets::*;
use mon::val::*;
use scale_decode::Error;
use scale_info::PortableRegistry as P;
#[global_allocator]
static A: run::Counting = run::Counting;
mod gen {
    include!(concat!(env!("GEN_DIR"), "/types.rs"));
}
use gen::decls::group;
struct T {
    /// targets that look through wrappers
    w: Vec<Entry<P>>,
    /// a target and everything transparent around it; the last one is the one-element tuple
    g: Vec<Vec<Entry<P>>>,
    all: Vec<Entry<P>>,
}
fn builtin_groups<R: scale_decode::TypeResolver>() -> Vec<Vec<Entry<R>>> {
    use std::collections::*;
    macro_rules! g {
        ($($t:ty),* $(,)?) => { vec![$(group::<$t, R>()),*] };
    }
    g!(u8, i8, u32, u128, i64, bool, char, String, scale_bits::Bits, Vec<u8>, Vec<String>, [u16; 3], Option<u8>, Option<Vec<bool>>,
        Result<u8, String>, (u8, bool), (u8,), (), BTreeMap<String, u8>, BTreeSet<u16>, std::time::Duration, mon::any::AnyVal,
        primitive_types::H256, std::num::NonZeroU16, std::marker::PhantomData<u8>, std::ops::Range<u8>, Box<u8>, codec::Compact<u64>,
        Vec<(u8, u8)>, Option<(u8, bool)>, Vec<codec::Compact<u32>>)
}
fn kind(e: &Error) -> std::mem::Discriminant<scale_decode::error::ErrorKind> {
    std::mem::discriminant(e.kind())
}
fn same(c: &mut Case, what: &str, a: (&Result<TVal, Error>, usize), b: (&Result<TVal, Error>, usize)) -> bool {
    match (a.0, b.0) {
        (Ok(x), Ok(y)) => {
            if x != y {
                c.viol(format!("{what}: {} against {}", cut(&format!("{x:?}"), 500), cut(&format!("{y:?}"), 500)));
            }
            if a.1 != b.1 {
                c.viol(format!("{what}: {} bytes left against {}", a.1, b.1));
            }
            true
        }
        (Err(x), Err(y)) => {
            if kind(x) != kind(y) {
                c.viol(format!("{what}: fails with {x} against {y}"));
            }
            false
        }
        (Ok(x), Err(y)) => {
            c.viol(format!("{what}: {} against failing with {y}", cut(&format!("{x:?}"), 500)));
            true
        }
        (Err(x), Ok(y)) => {
            c.viol(format!("{what}: fails with {x} against {}", cut(&format!("{y:?}"), 500)));
            true
        }
    }
}
/// The same bytes, under the type and under the type wrapped.
fn wrappers(c: &mut Case, t: &T) {
    let e = c.rng.pick(&t.w);
    let shape = (e.shape)();
    let mut src = Src::new(&mut c.rng, Bend { wrap: 100, wrong: 20, ..Default::default() });
    let id = src.source(&shape);
    let mut wid = id;
    let depth = src.r.range(1, 6);
    for _ in 0..depth {
        wid = src.wrap1(wid);
    }
    // a compact value may also be wrapped inside its mark
    if let (Some(Def::Compact(u)), true) = (src.m.def(id).cloned(), src.r.chance(1, 2)) {
        let w = src.wrap1(u);
        let mut x = src.m.add(Def::Compact(w));
        if src.r.chance(1, 2) {
            x = src.wrap1(x);
        }
        wid = x;
    }
    let (m, hints) = (src.m.clone(), src.hints.clone());
    let Some(x) = value(c, m, id, hints, 40) else { return };
    let reg = x.m.portable();
    for k in 0..4 {
        let mut b = x.bytes.clone();
        if k > 0 {
            mutate(&mut c.rng, &mut b);
            if refdec(&x.m, id, &b) == Err(RErr::Budget) {
                continue;
            }
        } else {
            let t = c.rng.below(6);
            b.extend(c.rng.bytes(t));
        }
        c.context(|| format!("target {} type {} wrapped {} input {}", e.name, x.m.show(id), x.m.show(wid), hex(&b)));
        let (p, q) = (&mut &*b, &mut &*b);
        let u = (e.decode)(p, id as u32, &reg);
        let w = (e.decode)(q, wid as u32, &reg);
        let ok = same(c, "plain against wrapped", (&u, p.len()), (&w, q.len()));
        c.eval();
        c.count(if ok { "wrapped_decoded" } else { "wrapped_refused" }, 1);
        c.max("wrappers", depth as u64);
        let want = u.map_err(|_| vec![CErr { class: CClass::Unexpected(scale_decode::visitor::Unexpected::Bool), path: vec![] }]);
        seen(c, e.name, &x.m, wid, &b, &want);
    }
}
fn pointers(c: &mut Case, t: &T) {
    let g = c.rng.pick(&t.g);
    let shape = (g[0].shape)();
    let bend = Bend { wrong: if c.rng.chance(1, 3) { 150 } else { 10 }, compact: 450, ..Default::default() };
    let Some(x) = make(c, &shape, bend, 30) else { return };
    let reg = x.m.portable();
    let top = x.m.def(x.id);
    let structlike = matches!(top, Some(Def::Comp { .. } | Def::Tuple(_)));
    for k in 0..3 {
        let mut b = x.bytes.clone();
        if k > 0 {
            mutate(&mut c.rng, &mut b);
            if refdec(&x.m, x.id, &b) == Err(RErr::Budget) {
                continue;
            }
        } else {
            let t = c.rng.below(6);
            b.extend(c.rng.bytes(t));
        }
        c.context(|| format!("target {} type {} input {}", g[0].name, x.m.show(x.id), hex(&b)));
        let p = &mut &*b;
        let base = (g[0].decode)(p, x.id as u32, &reg);
        for (i, e) in g.iter().enumerate().skip(1) {
            let tuple1 = i == g.len() - 1;
            if tuple1 && structlike {
                continue;
            }
            let q = &mut &*b;
            let r = (e.decode)(q, x.id as u32, &reg);
            let r = if tuple1 {
                r.map(|v| match v {
                    TVal::List(mut v) if v.len() == 1 => v.pop().unwrap(),
                    v => v,
                })
            } else {
                r
            };
            let ok = same(c, &format!("the target against {}", e.name), (&base, p.len()), (&r, q.len()));
            c.count(if ok { "pointer_decoded" } else { "pointer_refused" }, 1);
            if tuple1 {
                c.count("one_tuples", 1);
            }
            c.eval();
        }
        let want = base.map_err(|_| vec![CErr { class: CClass::Unexpected(scale_decode::visitor::Unexpected::Bool), path: vec![] }]);
        seen(c, g[0].name, &x.m, x.id, &b, &want);
    }
}
fn case(t: &T, c: &mut Case) {
    match c.rng.below(5) {
        0 | 1 => wrappers(c, t),
        2 | 3 => pointers(c, t),
        _ => {
            let e = c.rng.pick(&t.all);
            run_one(c, e, Bend { wrap: 450, wrong: 3, missing: 3, ..Default::default() }, 30, false)
        }
    }
}
fn main() {
    let mut w: Vec<Entry<P>> = int_entries();
    w.extend(scalar_entries().into_iter().filter(|e| matches!((e.shape)(), Shape::Bool | Shape::Char | Shape::Str | Shape::Bits)));
    w.extend(list_entries());
    w.extend(choice_entries());
    w.retain(|e| !matches!((e.shape)(), Shape::Tuple(_)));
    w.extend(gen::decls::enums());
    let mut g = builtin_groups();
    g.extend(gen::decls::groups());
    let mut all: Vec<Entry<P>> = builtin_entries();
    all.extend(gen::decls::others());
    let t = T { w, g, all };
    run::run("C09", run::Opts { quick: 150_000, thorough: 3_000_000, ..Default::default() }, |c| case(&t, c))
}
