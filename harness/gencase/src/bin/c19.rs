//! The same types behind different resolvers; resolvers that fail.
use mon::conv::*;
use mon::convrun::*;
use mon::model::*;
use mon::resolvers::*;
use mon::run::{self, cut, hex, Case};
use mon::targets::*;
use mon::val::*;
use scale_decode::error::ErrorKind;
use scale_decode::visitor::DecodeError;
use scale_decode::Error;
use scale_info::PortableRegistry as P;
use std::collections::HashSet;
#[global_allocator]
static A: run::Counting = run::Counting;
mod gen {
    include!(concat!(env!("GEN_DIR"), "/types.rs"));
}
type W = Wrap<ModelResolver<Model>>;
fn wrap(m: &Model) -> W {
    Wrap::new(ModelResolver(m.clone()))
}
/// The same targets for two kinds of resolver.
struct T {
    p: Vec<Entry<P>>,
    w: Vec<Entry<W>>,
    ps: Vec<SEntry<P>>,
    ws: Vec<SEntry<W>>,
}
fn entries<R: scale_decode::TypeResolver>() -> Vec<Entry<R>> {
    let mut v = vec![];
    v.extend(int_entries());
    v.extend(scalar_entries());
    v.extend(list_entries());
    v.extend(tuple_entries());
    v.extend(map_entries());
    v.extend(choice_entries());
    v.extend(ptr_entries());
    v.extend(gen::decls::enums());
    v.extend(gen::decls::others());
    v
}
/// Errors are the same if they are of the same kind, say the same and are at the same place, except that types are called
/// by other ids and resolvers have their own words.
fn kind(e: &Error) -> String {
    let k = match e.kind() {
        ErrorKind::VisitorDecodeError(DecodeError::TypeIdNotFound(_)) => "type not found".into(),
        ErrorKind::VisitorDecodeError(DecodeError::TypeResolvingError(_)) => "resolver failed".into(),
        k => format!("{k:?}"),
    };
    format!("{k} at {:?}", e.context().path().locations().collect::<Vec<_>>())
}
type Out = (Result<TVal, Error>, usize);
fn show(o: &Out) -> String {
    match &o.0 {
        Ok(v) => format!("{} ({} bytes left)", cut(&format!("{v:?}"), 500), o.1),
        Err(e) => format!("the error {} ({} bytes left)", kind(e), o.1),
    }
}
fn same(a: &Out, b: &Out) -> bool {
    a.1 == b.1
        && match (&a.0, &b.0) {
            (Ok(x), Ok(y)) => x == y,
            (Err(x), Err(y)) => kind(x) == kind(y),
            _ => false,
        }
}
/// Every type in up to three copies under shuffled ids, references going to any copy, and types nobody refers to.
fn duplicate(m: &Model, r: &mut mon::rng::Rng) -> (Model, Vec<Vec<Id>>) {
    let mut slots: Vec<Option<usize>> = vec![];
    for i in 0..m.defs.len() {
        for _ in 0..r.range(1, 3) {
            slots.push(Some(i));
        }
    }
    for _ in 0..r.below(6) {
        slots.push(None);
    }
    r.shuffle(&mut slots);
    let mut copies = vec![vec![]; m.defs.len()];
    for (k, s) in slots.iter().enumerate() {
        if let Some(i) = s {
            copies[*i].push(k);
        }
    }
    let (n, total) = (m.defs.len(), slots.len());
    let defs = slots
        .iter()
        .map(|s| {
            let mut at = |t: Id| if t < n { *r.pick(&copies[t]) } else { t - n + total };
            let mut fs = |v: &[FieldDef]| v.iter().map(|f| FieldDef { name: f.name.clone(), ty: at(f.ty) }).collect::<Vec<_>>();
            let Some(i) = s else {
                return match r.below(3) {
                    0 => Def::Tuple(vec![]),
                    1 => Def::Seq(r.below(total)),
                    _ => Def::Comp { path: vec!["unrelated".into()], fields: vec![] },
                };
            };
            match &m.defs[*i] {
                Def::Comp { path, fields } => Def::Comp { path: path.clone(), fields: fs(fields) },
                Def::Var { path, variants } => Def::Var {
                    path: path.clone(),
                    variants: variants.iter().map(|v| VariantDef { name: v.name.clone(), index: v.index, fields: fs(&v.fields) }).collect(),
                },
                Def::Seq(t) => Def::Seq(at(*t)),
                Def::Array(t, k) => Def::Array(at(*t), *k),
                Def::Tuple(ts) => Def::Tuple(ts.iter().map(|t| at(*t)).collect()),
                Def::Compact(t) => Def::Compact(at(*t)),
                d => d.clone(),
            }
        })
        .collect();
    (Model { defs }, copies)
}
/// What is decoded: a type, or a list of fields.
enum How<'a, R: scale_decode::TypeResolver> {
    Type(&'a Entry<R>),
    Fields(&'a SEntry<R>),
}
impl<'a, R: MapId> How<'a, R> {
    fn go(&self, b: &[u8], m: &Model, id: Id, types: &R, at: &dyn Fn(Id) -> R::TypeId) -> Out {
        let cur = &mut &*b;
        let r = match self {
            How::Type(e) => (e.decode)(cur, at(id), types),
            How::Fields(s) => {
                let list: Vec<(Option<String>, R::TypeId)> = match m.def(id) {
                    Some(Def::Comp { fields, .. }) => fields.iter().map(|f| (f.name.clone(), at(f.ty))).collect(),
                    Some(Def::Tuple(ts)) => ts.iter().map(|t| (None, at(*t))).collect(),
                    _ => vec![],
                };
                (s.fields)(cur, &list, types)
            }
        };
        (r, cur.len())
    }
}
fn mentions(o: &Out, what: &str) -> bool {
    o.0.as_ref().is_err_and(|e| format!("{e} {e:?}").contains(what))
}
fn one(c: &mut Case, name: &str, p: How<P>, w: How<W>, m: &Model, id: Id, b: &[u8]) {
    let node = match refdec(m, id, b) {
        Err(RErr::Budget) => {
            c.skipped();
            return;
        }
        x => x.ok(),
    };
    c.context(|| format!("target {name} type {} input {} value {}", m.show(id), hex(b), node.as_ref().map(|n| n.show()).unwrap_or("malformed".into())));
    let n = m.defs.len();
    let dangle = |i: Id| (i + 100_000) as u32;
    let reg = m.portable();
    let base = p.go(b, m, id, &reg, &|i| if i < n { i as u32 } else { dangle(i) });
    c.count(if base.0.is_ok() { "decoded" } else { "failed" }, 1);
    // other ids
    let q = Perm::new(m, &mut c.rng);
    let o = p.go(b, m, id, &q.reg, &|i| q.make_id(i));
    if !same(&base, &o) {
        c.viol(format!("with other type ids it gives {}, not {}", show(&o), show(&base)));
    }
    // copies and bystanders
    let (m2, copies) = duplicate(m, &mut c.rng);
    let ask: Vec<Option<Id>> = copies.iter().map(|v| Some(*c.rng.pick(v))).collect();
    let at2 = |i: Id| ask.get(i).copied().flatten().unwrap_or(i + 1_000_000);
    let q = Perm::new(&m2, &mut c.rng);
    let o = p.go(b, m, id, &q.reg, &|i| q.make_id(at2(i)));
    if !same(&base, &o) {
        c.viol(format!("with types duplicated and others added it gives {}, not {}", show(&o), show(&base)));
    }
    // another resolver with another kind of id
    let t = wrap(m);
    let o = w.go(b, m, id, &t, &|i| t.make_id(i));
    if !same(&base, &o) {
        c.viol(format!("through another resolver it gives {}, not {}", show(&o), show(&base)));
    }
    let touched: Vec<usize> = { let mut v: Vec<_> = t.touched.borrow().iter().copied().collect(); v.sort(); v };
    let lookups = t.lookups.get();
    let t2 = wrap(&m2);
    let o = w.go(b, m, id, &t2, &|i| t2.make_id(at2(i)));
    if !same(&base, &o) {
        c.viol(format!("through another resolver with duplicates it gives {}, not {}", show(&o), show(&base)));
    }
    c.evals(5);
    c.max("lookups", lookups);
    // faults: each of the types that are needed, and all that are not
    let mut need = node.as_ref().map(|n| mon::common::needed(m, n));
    if let (Some(s), How::Fields(_)) = (&mut need, &w) {
        // the list stands for the struct, whose own type nobody asks for
        let mut inner = HashSet::new();
        if let K::Comp(v) | K::Tuple(v) = &node.as_ref().unwrap().k {
            v.iter().for_each(|x| inner.extend(mon::common::needed(m, x)));
        }
        *s = inner;
    }
    if let Some(need) = &need {
        t.reset();
        *t.only.borrow_mut() = Some(need.clone());
        let o = w.go(b, m, id, &t, &|i| t.make_id(i));
        if !same(&base, &o) {
            c.viol(format!("if types not needed for the value do not resolve it gives {}, not {}", show(&o), show(&base)));
        }
        c.evals(1);
        c.count("unneeded_types_withheld", (n - need.len()) as u64);
    }
    let mut cand: Vec<usize> = need.iter().flatten().copied().filter(|t| *t < n).collect();
    if cand.is_empty() || base.0.is_err() {
        cand = touched;
    }
    c.rng.shuffle(&mut cand);
    for x in cand.into_iter().take(4) {
        for unknown in [false, true] {
            t.reset();
            if unknown {
                t.unknown.set(Some(x));
            } else {
                t.fail_type.set(Some(x));
            }
            let o = w.go(b, m, id, &t, &|i| t.make_id(i));
            let what = if unknown { "unknown" } else { "failing to resolve" };
            let word = if unknown { format!("type::{x}\\\"") } else { FAULT.into() };
            match (&base.0, &o.0) {
                // (an error of the decode may come first)
                (Err(_), Ok(_)) => c.viol(format!("with type {x} {what} it gives {}, without that {}", show(&o), show(&base))),
                (Ok(_), _) if !mentions(&o, &word) && !mentions(&o, &word.replace('\\', "")) => {
                    c.viol(format!("with type {x} {what}, which is needed, it gives {}, and no error that mentions it", show(&o)))
                }
                _ => c.count(if unknown { "unknown_reported" } else { "fault_reported" }, 1),
            }
            c.evals(1);
        }
    }
    // from some lookup on, nothing resolves any more
    if lookups > 0 {
        for k in [c.rng.below(lookups as usize) as u64, lookups - 1, lookups] {
            t.reset();
            t.fail_from.set(Some(k));
            let o = w.go(b, m, id, &t, &|i| t.make_id(i));
            if !t.faulted.get() {
                if !same(&base, &o) {
                    c.viol(format!("the same resolver gives {} the second time, not {}", show(&o), show(&base)));
                }
            } else if base.0.is_ok() && !mentions(&o, FAULT) || o.0.is_ok() {
                c.viol(format!("with nothing resolving from lookup {k} of {lookups} on, it gives {}", show(&o)));
            }
            c.evals(1);
            c.count("outages", 1);
        }
    }
    c.distinct(&[name.as_bytes(), m.show(id).as_bytes(), b]);
    c.sample(|| format!("{} <- {} {} = {}", cut(name, 80), cut(&m.show(id), 200), hex(b), cut(&show(&base), 200)));
}
fn case(t: &T, c: &mut Case) {
    let bend = match c.rng.below(4) {
        0 => Bend { wrong: 0, missing: 0, ..Default::default() },
        1 => Bend { wrong: 0, missing: 0, compact: 400, wrap: 500, extra: 500, ..Default::default() },
        2 => Bend { wrong: 80, ..Default::default() },
        _ => Bend::default(),
    };
    let i = c.rng.below(t.p.len());
    let k = c.rng.below(t.ps.len());
    let mode = c.rng.below(10);
    let any = t.p.iter().position(|e| e.name.ends_with("AnyVal")).unwrap();
    let (name, i, shape) = match mode {
        0..=3 => (t.p[i].name, i, (t.p[i].shape)()),
        4..=6 => (t.ps[k].e.name, 0, (t.ps[k].e.shape)()),
        _ => (t.p[any].name, any, Shape::Any),
    };
    let (m, id, hints) = if mode >= 7 {
        let h = c.rng.chance(1, 3);
        let m = mon::common::model(c, h);
        let id = c.rng.below(m.defs.len());
        (m, id, Hints::default())
    } else {
        let mut src = Src::new(&mut c.rng, bend);
        let id = src.source(&shape);
        (src.m.clone(), id, src.hints.clone())
    };
    let fields = (5..=6).contains(&mode) && matches!(m.def(id), Some(Def::Comp { .. } | Def::Tuple(_)));
    let mut go = |c: &mut Case, b: &[u8]| match mode {
        4..=6 if fields => one(c, name, How::Fields(&t.ps[k]), How::Fields(&t.ws[k]), &m, id, b),
        4..=6 => one(c, name, How::Type(&t.ps[k].e), How::Type(&t.ws[k].e), &m, id, b),
        _ => one(c, name, How::Type(&t.p[i]), How::Type(&t.w[i]), &m, id, b),
    };
    let bytes = match value(c, m.clone(), id, hints, 40) {
        Some(x) => x.bytes,
        // types without values (or with a hole where one is needed): noise
        None => {
            let n = c.rng.below(20);
            c.rng.bytes(n)
        }
    };
    let mut b = bytes.clone();
    let n = c.rng.below(8);
    b.extend(c.rng.bytes(n));
    go(c, &b);
    let mut b = bytes;
    mutate(&mut c.rng, &mut b);
    go(c, &b);
}
fn main() {
    let t = T { p: entries(), w: entries(), ps: gen::decls::structs(), ws: gen::decls::structs() };
    run::run("C19", run::Opts { quick: 80_000, thorough: 1_500_000, ..Default::default() }, |c| case(&t, c))
}
