//! Enums, options and results against source enums with other indices, orders, names and fields.
use mon::conv::Bend;
use mon::convrun::*;
use mon::model::*;
use mon::run::{self, hex, Case};
use mon::targets::*;
use scale_info::PortableRegistry as P;
#[global_allocator]
static A: run::Counting = run::Counting;
mod gen {
    include!(concat!(env!("GEN_DIR"), "/types.rs"));
}
struct T {
    e: Vec<Entry<P>>,
    o: Vec<Entry<P>>,
    b: Vec<Entry<P>>,
}
/// The enum whose index is the first byte of any value of this type.
fn first_enum(m: &Model, mut id: Id) -> Option<Id> {
    for _ in 0..20 {
        match m.def(id)? {
            Def::Var { .. } => return Some(id),
            Def::Comp { fields, .. } if !fields.is_empty() => id = fields[0].ty,
            Def::Tuple(ts) if !ts.is_empty() => id = ts[0],
            Def::Array(t, n) if *n > 0 => id = *t,
            _ => return None,
        }
    }
    None
}
fn unknown_index(c: &mut Case, e: &Entry<P>, bend: Bend) {
    let Some(x) = make(c, &(e.shape)(), bend, 20) else { return };
    let Some(Def::Var { variants, .. }) = first_enum(&x.m, x.id).and_then(|i| x.m.def(i)) else { return };
    let known: Vec<u8> = variants.iter().map(|v| v.index).collect();
    let reg = x.m.portable();
    for _ in 0..4 {
        let i = match c.rng.below(3) {
            // next to a known one, or its position in the list
            0 => known[c.rng.below(known.len().max(1)) % known.len().max(1)].wrapping_add(1),
            1 => c.rng.below(known.len() + 1) as u8,
            _ => c.rng.next() as u8,
        };
        if known.is_empty() || known.contains(&i) || x.bytes.is_empty() {
            continue;
        }
        let mut b = x.bytes.clone();
        b[0] = i;
        b.extend([0; 8]);
        c.context(|| format!("target {} type {} input {} with unknown variant index {i}", e.name, x.m.show(x.id), hex(&b)));
        match (e.decode)(&mut &*b, x.id as u32, &reg) {
            Err(_) => c.count("unknown_index_refused", 1),
            Ok(v) => c.viol(format!("variant index {i} is not in the registry, yet it decoded to {v:?}")),
        }
        c.eval();
    }
}
fn case(t: &T, c: &mut Case) {
    let e = match c.rng.below(10) {
        0 => c.rng.pick(&t.o),
        1..=3 => c.rng.pick(&t.b),
        _ => c.rng.pick(&t.e),
    };
    let bend = match c.rng.below(4) {
        0 => Bend { wrong: 0, missing: 0, ..Default::default() },
        1 => Bend { missing: 120, extra: 700, positional: 500, ..Default::default() },
        2 => Bend { extra: 800, wrong: 0, positional: 50, wrap: 300, ..Default::default() },
        _ => Bend::default(),
    };
    if c.rng.chance(1, 5) {
        return unknown_index(c, e, bend);
    }
    run_one(c, e, bend, 30, false);
}
fn main() {
    let t = T { e: gen::decls::enums(), o: gen::decls::others(), b: choice_entries() };
    run::run("C10", run::Opts { quick: 200_000, thorough: 4_000_000, ..Default::default() }, |c| case(&t, c))
}
