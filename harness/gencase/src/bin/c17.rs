//! Where the errors of failing decodes into nested targets say they happened.
use mon::conv::*;
use mon::convrun::*;
use mon::faults::{faults, poisoned};
use mon::model::*;
use mon::run::{self, cut, hex, Case};
use mon::targets::*;
use mon::val::*;
use scale_decode::Error;
use scale_info::PortableRegistry as P;
use std::collections::{BTreeMap, VecDeque};
#[global_allocator]
static A: run::Counting = run::Counting;
mod gen {
    include!(concat!(env!("GEN_DIR"), "/types.rs"));
}
struct T {
    deep: Vec<Entry<P>>,
    long: Vec<Entry<P>>,
    d: Vec<Entry<P>>,
    b: Vec<Entry<P>>,
}
fn nested<R: scale_decode::TypeResolver>() -> Vec<Entry<R>> {
    mon::entries!(R; Vec<Vec<Vec<u8>>>, Vec<(u8, Vec<i8>)>, (Vec<(u8, u8)>, Option<Vec<u8>>), Option<Option<Option<u8>>>,
        Result<Vec<u8>, (u8, Option<i8>)>, BTreeMap<String, Vec<Option<u8>>>, [[[u8; 2]; 2]; 2], Vec<BTreeMap<String, (u8, i8)>>,
        ((u8, (u8, (u8, (u8, u8)))),), Box<Vec<Box<Option<Box<u8>>>>>, VecDeque<Result<u8, Vec<i8>>>, std::ops::Range<u8>,
        Vec<std::ops::Range<i8>>, (std::time::Duration, Vec<std::num::NonZeroU8>), Vec<Vec<(Option<u8>,)>>)
}
type A4<T> = [[[[T; 1]; 1]; 1]; 1];
type P4<T> = (bool, (bool, (char, (bool, T))));
type M4<T> = BTreeMap<String, (bool, BTreeMap<String, [T; 1]>)>;
/// Errors many steps down.
fn deep<R: scale_decode::TypeResolver>() -> Vec<Entry<R>> {
    mon::entries!(R; A4<A4<A4<A4<u8>>>>, A4<A4<A4<A4<A4<A4<A4<A4<A4<u8>>>>>>>>>, P4<P4<P4<P4<P4<P4<i16>>>>>>, P4<A4<P4<A4<P4<Option<u8>>>>>>,
        M4<M4<M4<u8>>>, Result<P4<P4<M4<u8>>>, A4<A4<P4<P4<P4<u8>>>>>>)
}
/// One item that does not fit, anywhere in a long list.
fn long(t: &T, c: &mut Case) {
    let e = c.rng.pick(&t.long);
    let n = if e.name.starts_with('[') {
        300
    } else if c.rng.chance(1, 40) {
        65_500 + c.rng.below(300)
    } else {
        c.rng.range(200, 1500)
    };
    let mut m = Model::new();
    let u = m.prim(Prim::U16);
    let id = m.add(if c.rng.chance(1, 2) { Def::Seq(u) } else { Def::Array(u, n as u32) });
    let mut b = vec![];
    if let Some(Def::Seq(_)) = m.def(id) {
        enc_compact(n as u128, &mut b);
    }
    let bad = if c.rng.chance(1, 4) { c.rng.below(n + 1) } else { n.saturating_sub(1 + c.rng.below(60)) };
    for i in 0..n {
        // (0 fits none of those that cannot be 0)
        let x: u16 = if i == bad { 256 + c.rng.below(65000) as u16 } else { 1 + c.rng.below(120) as u16 };
        b.extend(x.to_le_bytes());
    }
    let Ok(node) = refdec(&m, id, &b) else { return };
    one(c, e, &m, &m.portable(), id, &node, &b);
    c.count("long_lists", 1);
}
/// The path's text lists the same steps in the same order.
fn text(c: &mut Case, e: &Error, want: &CRes) {
    let locs: Vec<_> = e.context().path().locations().cloned().collect();
    let Some(w) = want.as_ref().err().and_then(|es| es.iter().find(|x| locations(&x.path) == locs)) else { return };
    let p = e.context().path().to_string();
    let mut at = 0;
    for (i, s) in w.path.iter().enumerate() {
        if i > 0 && matches!((&w.path[i - 1], s), (Step::Field(a), Step::Field(_)) if !a.is_empty()) {
            // two names must not read as one
            if let Step::Field(b) = s {
                if p[at..].starts_with(b.as_str()) && b.starts_with(char::is_alphanumeric) {
                    return c.viol(format!("the path displays as {p:?}, its steps are {:?}", w.path));
                }
            }
        }
        let s = match s {
            Step::Field(s) => s.clone(),
            Step::Idx(i) => i.to_string(),
            Step::Variant(v) => v.to_string(),
        };
        match p[at..].find(s.as_str()) {
            Some(k) => at += k + s.len(),
            None => return c.viol(format!("the path displays as {p:?}, its steps are {:?}", w.path)),
        }
    }
    let whole = e.to_string();
    if !whole.contains(&p) {
        c.viol(format!("the error displays as {whole:?}, without its path {p:?}"));
    }
    let owned = e.context().path().into_owned();
    if owned.locations().cloned().collect::<Vec<_>>() != locs || owned.to_string() != p {
        c.viol(format!("the owned path is {owned}, the path {p}"));
    }
}
fn one(c: &mut Case, e: &Entry<P>, m: &Model, reg: &P, id: Id, node: &Node, input: &[u8]) {
    let want = conv(m, &(e.shape)(), node);
    c.context(|| {
        format!("target {} type {} input {} value {} reference {}", e.name, m.show(id), hex(input), node.show(), cut(&format!("{want:?}"), 800))
    });
    let got = (e.decode)(&mut &*input, id as u32, reg);
    judge_result(c, e.name, &want, &got, true);
    c.eval();
    if let Err(g) = &got {
        text(c, g, &want);
        if want.as_ref().is_err_and(|es| es.iter().any(|x| !x.path.is_empty())) {
            seen(c, e.name, m, id, input, &want);
            c.count("failures_below_the_top", 1);
        }
    }
}
/// Bytes that are malformed in one place: no step that does not lead there.
fn spoiled(c: &mut Case, e: &Entry<P>, m: &Model, reg: &P, id: Id, node: &Node, bytes: &[u8]) {
    let shape = (e.shape)();
    if conv(m, &shape, node).is_err() {
        return;
    }
    for (b, cause, way) in faults(c, m, node, bytes) {
        // (where nothing is read of it, there is nothing to compare with)
        let Err(want) = conv(m, &shape, &poisoned(node, &way)) else { continue };
        c.context(|| format!("target {} type {} good {} spoiled {} ({cause:?}) at {:?}", e.name, m.show(id), hex(bytes), hex(&b), want));
        let Err(g) = (e.decode)(&mut &*b, id as u32, reg) else { continue };
        let locs: Vec<_> = g.context().path().locations().cloned().collect();
        c.eval();
        c.count("malformed_located", 1);
        if want.iter().any(|w| locations(&w.path) == locs) {
            c.count("malformed_located_exactly", 1);
        } else if !want.iter().any(|w| locations(&w.path).starts_with(&locs)) {
            c.viol(format!("{g} at {}, expected (the beginning of) {want:?}", cut(&format!("{locs:?}"), 400)));
        }
    }
}
fn case(t: &T, c: &mut Case) {
    if c.rng.chance(1, 60) {
        return long(t, c);
    }
    let d = c.rng.below(12);
    let e = match d {
        0 => c.rng.pick(&t.deep),
        1..=8 => c.rng.pick(&t.d),
        _ => c.rng.pick(&t.b),
    };
    let bend = match c.rng.below(3) {
        _ if d == 0 => Bend { wrong: *c.rng.pick(&[0, 0, 4, 20]), missing: 0, deeper: 40, ..Default::default() },
        0 => Bend { wrong: 60, missing: 0, ..Default::default() },
        1 => Bend { wrong: 25, missing: 80, wrap: 60, ..Default::default() },
        _ => Bend { wrong: 10, missing: 30, ..Default::default() },
    };
    let budget = if d == 0 { 150 } else { 40 };
    let Some(x) = make(c, &(e.shape)(), bend, budget) else { return };
    let reg = x.m.portable();
    one(c, e, &x.m, &reg, x.id, &x.node, &x.bytes);
    spoiled(c, e, &x.m, &reg, x.id, &x.node, &x.bytes);
    // values without regard to the target's limits
    for _ in 0..3 {
        let hints = if c.rng.chance(1, 2) { Default::default() } else { x.hints.clone() };
        let Some(y) = value(c, x.m.clone(), x.id, hints, budget) else { return };
        one(c, e, &y.m, &reg, y.id, &y.node, &y.bytes);
        spoiled(c, e, &y.m, &reg, y.id, &y.node, &y.bytes);
        let mut b = y.bytes.clone();
        mutate(&mut c.rng, &mut b);
        if let Ok(n) = refdec(&y.m, y.id, &b) {
            one(c, e, &y.m, &reg, y.id, &n, &b);
        }
    }
}
fn main() {
    let mut d: Vec<_> = gen::decls::structs().into_iter().map(|s| s.e).collect();
    d.extend(gen::decls::enums());
    d.extend(gen::decls::others());
    let mut b = nested();
    b.extend(list_entries());
    b.extend(tuple_entries());
    b.extend(map_entries());
    b.extend(choice_entries());
    b.extend(nested());
    let long = mon::entries!(P; Vec<u8>, Vec<i8>, VecDeque<u8>, std::collections::LinkedList<i8>, std::collections::BTreeSet<u8>, std::collections::BinaryHeap<u8>,
        [u8; 300], [i8; 300], Vec<std::num::NonZeroU8>, Box<Vec<u8>>, (Vec<u8>,), std::borrow::Cow<'static, [u8]>);
    let t = T { d, b, long, deep: deep() };
    run::run("C17", run::Opts { quick: 200_000, thorough: 3_000_000, ..Default::default() }, |c| case(&t, c))
}
