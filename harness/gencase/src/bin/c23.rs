//! Declarations with skipped fields, in all company, against sources with and without fields of those names.
use mon::conv::*;
use mon::convrun::*;
use mon::model::*;
use mon::run::{self, hex, Case};
use mon::targets::*;
use scale_info::PortableRegistry as P;
#[global_allocator]
static A: run::Counting = run::Counting;
mod gen {
    include!(concat!(env!("GEN_DIR"), "/types.rs"));
}
struct T {
    s: Vec<(SEntry<P>, Vec<String>)>,
    e: Vec<(Entry<P>, Vec<String>)>,
}
fn force(s: Shape) -> Shape {
    match s {
        Shape::Lazy(f) => force(f()),
        s => s,
    }
}
/// Names of the skipped fields.
fn skipped(s: Shape) -> Vec<String> {
    let pick = |fs: &Vec<TF>| fs.iter().filter(|f| f.skip.is_some()).map(|f| f.name.clone()).collect::<Vec<_>>();
    match force(s) {
        Shape::Struct(d) => pick(&d.fields),
        Shape::Enum(d) => d.variants.iter().flat_map(|v| pick(&v.2)).collect(),
        _ => vec![],
    }
}
fn note(c: &mut Case, m: &Model, names: &[String]) {
    let has = |fs: &Vec<FieldDef>| fs.iter().any(|f| f.name.as_ref().is_some_and(|n| names.contains(n)));
    let twin = m.defs.iter().any(|d| match d {
        Def::Comp { fields, .. } => has(fields),
        Def::Var { variants, .. } => variants.iter().any(|v| has(&v.fields)),
        _ => false,
    });
    c.count(if twin { "sources_with_a_field_of_that_name" } else { "sources_without" }, 1);
}
fn bend(c: &mut Case) -> Bend {
    match c.rng.below(4) {
        0 => Bend { wrong: 0, missing: 0, ..Default::default() },
        1 => Bend { missing: 100, positional: 500, ..Default::default() },
        2 => Bend { extra: 600, wrong: 0, positional: 50, ..Default::default() },
        _ => Bend::default(),
    }
}
fn fields(c: &mut Case, s: &SEntry<P>, names: &[String]) {
    let b = bend(c);
    let Some(x) = make(c, &(s.e.shape)(), b, 40) else { return };
    note(c, &x.m, names);
    let (Some(Def::Comp { fields, .. }), false) = (x.m.def(x.id), x.node.via.is_some()) else { return };
    let list: Vec<(Option<String>, u32)> = fields.iter().map(|f| (f.name.clone(), f.ty as u32)).collect();
    let mut input = x.bytes.clone();
    let t = c.rng.below(9);
    input.extend(c.rng.bytes(t));
    let want = conv(&x.m, &(s.e.shape)(), &x.node);
    c.context(|| format!("fields of {} into {} input {}", x.m.show(x.id), s.e.name, hex(&input)));
    let cur = &mut &*input;
    let got = (s.fields)(cur, &list, &x.m.portable());
    judge_result(c, s.e.name, &want, &got, false);
    if got.is_ok() && input.len() - cur.len() != x.node.end {
        c.viol(format!("{} bytes consumed, expected {}", input.len() - cur.len(), x.node.end));
    }
    c.eval();
    c.count("field_lists", 1);
    seen(c, s.e.name, &x.m, x.id, &input, &want);
}
fn case(t: &T, c: &mut Case) {
    if c.rng.chance(1, 2) && !t.s.is_empty() {
        let (s, names) = c.rng.pick(&t.s);
        if c.rng.chance(1, 4) {
            return fields(c, s, names);
        }
        c.count("struct_targets", 1);
        let b = bend(c);
        run_one(c, &s.e, b, 40, false);
    } else {
        let (e, names) = c.rng.pick(&t.e);
        c.count("enum_targets", 1);
        let b = bend(c);
        if c.rng.chance(1, 8) {
            let b = bend(c);
            let mut src = Src::new(&mut c.rng, b);
            src.source(&(e.shape)());
            let m = src.m.clone();
            note(c, &m, names);
        }
        run_one(c, e, b, 40, false);
    }
}
fn main() {
    let t = T {
        s: gen::decls::structs::<P>().into_iter().map(|s| { let n = skipped((s.e.shape)()); (s, n) }).filter(|x| !x.1.is_empty()).collect(),
        e: gen::decls::enums::<P>().into_iter().map(|s| { let n = skipped((s.shape)()); (s, n) }).filter(|x| !x.1.is_empty()).collect(),
    };
    eprintln!("{} structs and {} enums with skipped fields", t.s.len(), t.e.len());
    run::run("C23", run::Opts { quick: 120_000, thorough: 2_500_000, ..Default::default() }, |c| case(&t, c))
}
