//! Hostile bytes, hostile registries, ill-mannered visitors and every target: nothing may panic, abort or read out of bounds.
use mon::conv::*;
use mon::model::*;
use mon::resolvers::*;
use mon::run::{self, cut, hex, Case};
use mon::targets::*;
use mon::val::*;
use mon::wild::*;
use scale_decode::visitor::{decode_with_visitor, VisitorWithCrateError};
use scale_info::PortableRegistry as P;
#[global_allocator]
static A: run::Counting = run::Counting;
mod gen {
    include!(concat!(env!("GEN_DIR"), "/types.rs"));
}
type W = Wrap<P>;
struct T {
    s: Vec<SEntry<W>>,
    e: Vec<Entry<W>>,
    b: Vec<Entry<W>>,
}
/// Makes the registry worse.
fn poison(c: &mut Case, m: &mut Model) {
    let n = m.defs.len();
    for _ in 0..c.rng.below(4) {
        let i = c.rng.below(n);
        let mut anyid = |c: &mut Case| if c.rng.chance(1, 6) { n + c.rng.below(9) } else { c.rng.below(n) };
        let old = m.defs[i].clone();
        let new = match c.rng.below(9) {
            0 => Def::Compact(anyid(c)),
            1 => Def::Array(anyid(c), *c.rng.pick(&[0, 1, 255, 65536, 1 << 31, u32::MAX])),
            2 => Def::Seq(anyid(c)),
            3 => Def::Tuple((0..c.rng.below(4)).map(|_| anyid(c)).collect()),
            4 => Def::Comp { path: vec![], fields: (0..c.rng.below(4)).map(|k| FieldDef { name: if k % 2 == 0 { Some("a".into()) } else { None }, ty: anyid(c) }).collect() },
            5 => Def::Prim(*c.rng.pick(&PRIMS)),
            6 => Def::Bits(*c.rng.pick(&BIT_FMTS)),
            _ => match old.clone() {
                Def::Var { path, mut variants } if !variants.is_empty() => {
                    let k = c.rng.below(variants.len());
                    let l = c.rng.below(variants.len());
                    match c.rng.below(4) {
                        // repeated indices and names, dangling fields
                        0 => variants[k].index = variants[l].index,
                        1 => variants[k].name = variants[l].name.clone(),
                        2 => {
                            let ty = anyid(c);
                            variants[k].fields.push(FieldDef { name: None, ty });
                        }
                        _ => variants.clear(),
                    }
                    Def::Var { path, variants }
                }
                Def::Comp { path, mut fields } if !fields.is_empty() => {
                    let k = c.rng.below(fields.len());
                    match c.rng.below(3) {
                        0 => fields[k].ty = anyid(c),
                        1 => fields[k].name = fields[0].name.clone(),
                        _ => fields[k].name = None,
                    }
                    Def::Comp { path, fields }
                }
                d => d,
            },
        };
        m.defs[i] = new;
        if left_recursive(m) {
            // without end by construction: a finding of its own, demonstrated separately
            m.defs[i] = old;
        }
    }
}
/// Bytes of every sort.
fn bytes(c: &mut Case, m: &Model, id: Id, h: &Hints) -> Vec<u8> {
    let mut b = if c.rng.chance(3, 4) {
        let v = ValOpts { budget: 60, long_lists: c.rng.chance(1, 10) };
        match gen_value_hinted(&mut c.rng, m, id, &v, h) {
            Some((_, b)) => b,
            None => vec![],
        }
    } else {
        vec![]
    };
    match c.rng.below(8) {
        0 => {
            let n = *c.rng.pick(&[0, 1, 2, 3, 5, 8, 16, 33, 64, 200, 1000]);
            b = c.rng.bytes(n);
            if c.rng.chance(1, 3) {
                // few distinct bytes: valid bools, indices and lengths are common
                for x in b.iter_mut() {
                    *x &= 7;
                }
            }
        }
        1 => {
            // one byte over and over
            let x = *c.rng.pick(&[0u8, 1, 2, 3, 4, 0xff, 0xfe, 0xfc, 0x80]);
            b = vec![x; c.rng.below(600)];
        }
        2..=4 => {}
        5 => {
            let n = c.rng.below(b.len() + 1);
            b.truncate(n);
        }
        _ => {
            for _ in 0..c.rng.range(1, 3) {
                mutate(&mut c.rng, &mut b);
            }
        }
    }
    b
}
const LOOKUPS: u64 = 30_000;
fn after(c: &mut Case, w: &W, what: &str, input: &[u8], rest: &[u8]) {
    if !mon::common::is_tail(input, rest) {
        c.viol(format!("{what}: what is left is not a tail of the input"));
    }
    c.max("lookups", w.lookups.get());
    if w.over_budget.get() {
        c.count("stopped_by_budget", 1);
    }
    w.lookups.set(0);
    w.over_budget.set(false);
    c.eval();
}
fn target(t: &T, c: &mut Case) {
    let (e, s) = match c.rng.below(7) {
        0..=2 => {
            let s = c.rng.pick(&t.s);
            (&s.e, Some(s))
        }
        3 | 4 => (c.rng.pick(&t.e), None),
        _ => (c.rng.pick(&t.b), None),
    };
    let bend = Bend { wrong: c.rng.below(100) , wrap: c.rng.below(300), compact: c.rng.below(400), extra: c.rng.below(600), missing: c.rng.below(200), positional: c.rng.below(600), deeper: 0 };
    let (mut m, mut id, hints) = if c.rng.chance(5, 6) {
        let mut src = Src::new(&mut c.rng, bend);
        let id = src.source(&(e.shape)());
        (src.m.clone(), id, src.hints.clone())
    } else {
        let m = mon::common::model(c, true);
        let id = c.rng.below(m.defs.len());
        (m, id, Hints::default())
    };
    if c.rng.chance(1, 3) {
        poison(c, &mut m);
    }
    if c.rng.chance(1, 12) {
        id = c.rng.below(m.defs.len() + 2);
    }
    let w = Wrap::new(m.portable());
    w.budget.set(LOOKUPS);
    for _ in 0..4 {
        let b = bytes(c, &m, id, &hints).into_boxed_slice();
        c.context(|| format!("target {} type {} input {}", e.name, m.show(id), hex(&b)));
        let cur = &mut &*b;
        let r = (e.decode)(cur, w.make_id(id), &w);
        let rest = *cur;
        c.count(if r.is_ok() { "targets_decoded" } else { "targets_refused" }, 1);
        if let Err(x) = &r {
            c.count("error_bytes", x.to_string().len() as u64);
        }
        after(c, &w, "target", &b, rest);
        c.distinct(&[e.name.as_bytes(), m.show(id).as_bytes(), &b]);
        c.sample(|| format!("{} <- {} {}", cut(e.name, 80), cut(&m.show(id), 200), hex(&b)));
        if let Some(s) = s {
            let mut list: Vec<(Option<String>, u32)> = match m.def(id) {
                Some(Def::Comp { fields, .. }) => fields.iter().map(|f| (f.name.clone(), w.make_id(f.ty))).collect(),
                Some(Def::Tuple(ts)) => ts.iter().map(|t| (None, w.make_id(*t))).collect(),
                _ => vec![],
            };
            for _ in 0..c.rng.below(3) {
                let k = c.rng.below(list.len() + 1);
                match c.rng.below(4) {
                    0 => {
                        let n = if c.rng.chance(1, 2) { None } else { Some(mon::model::name(&mut c.rng)) };
                        list.insert(k, (n, c.rng.below(m.defs.len() + 1) as u32));
                    }
                    1 if k < list.len() => {
                        list.remove(k);
                    }
                    2 if k < list.len() => list[k].0 = None,
                    3 if k < list.len() => list.push(list[k].clone()),
                    _ => {}
                }
            }
            let cur = &mut &*b;
            let r = (s.fields)(cur, &list, &w);
            let rest = *cur;
            c.count(if r.is_ok() { "lists_decoded" } else { "lists_refused" }, 1);
            after(c, &w, "fields", &b, rest);
        }
    }
}
fn wild(c: &mut Case) {
    let hostile = c.rng.chance(1, 3);
    let o = GenOpts { types: c.rng.range(8, 30), hostile, ..Default::default() };
    let mut m = gen_model(&mut c.rng, &o);
    if c.rng.chance(1, 3) {
        poison(c, &mut m);
    }
    let w = Wrap::new(m.portable());
    w.budget.set(LOOKUPS);
    for _ in 0..6 {
        let n = m.defs.len();
        // mostly the richest of a few candidates
        let mut id = c.rng.below(n);
        let mut b = bytes(c, &m, id, &Hints::default());
        for _ in 0..c.rng.below(6) {
            let i = n - 1 - c.rng.below(n);
            let x = bytes(c, &m, i, &Hints::default());
            if x.len() > b.len() && !matches!(m.def(i), Some(Def::Prim(_) | Def::Bits(_))) {
                (id, b) = (i, x);
            }
        }
        let b = b.into_boxed_slice();
        c.context(|| format!("wild visitor, type {} input {}", m.show(id), hex(&b)));
        let fail = *c.rng.pick(&[0, 1, 10]);
        let hooks = c.rng.chance(1, 2);
        let ctx = WCtx::new(c.rng.fork(), &b, 3000, fail, hooks);
        let v = Wild { ctx: &ctx, types: &w };
        let cur = &mut &*b;
        let ok = if c.rng.chance(1, 4) {
            decode_with_visitor(cur, w.make_id(id), &w, VisitorWithCrateError(v)).is_ok()
        } else {
            decode_with_visitor(cur, w.make_id(id), &w, v).is_ok()
        };
        let rest = *cur;
        c.count(if ok { "wild_ok" } else { "wild_err" }, 1);
        for s in ctx.out.take() {
            c.viol(format!("handed out memory that is not the input: {s}"));
        }
        for (i, e) in ctx.ev.iter().enumerate() {
            c.count(WEVENTS[i], e.get());
        }
        c.max("depth", ctx.max_depth.get() as u64);
        after(c, &w, "wild", &b, rest);
        c.distinct(&[b"w", m.show(id).as_bytes(), &b]);
        // and a plain full read of the same, into the take-everything target
        let (r, left) = mon::common::decode_any(&b, w.make_id(id), &w);
        c.count(if r.is_ok() { "full_reads_ok" } else { "full_reads_refused" }, 1);
        after(c, &w, "take-everything target", &b, &b[b.len() - left..]);
    }
}
fn case(t: &T, c: &mut Case) {
    if c.rng.chance(1, 3) {
        wild(c)
    } else {
        target(t, c)
    }
}
fn main() {
    let t = T { s: gen::decls::structs(), e: { let mut v: Vec<Entry<W>> = gen::decls::enums(); v.extend(gen::decls::others()); v }, b: builtin_entries() };
    run::run("C04", run::Opts { quick: 120_000, thorough: 5_000_000, ..Default::default() }, |c| case(&t, c))
}
