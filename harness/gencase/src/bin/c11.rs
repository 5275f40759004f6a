//! Structs (and variants with fields) against sources with permuted, extra, missing and unnamed fields.
use mon::conv::Bend;
use mon::convrun::*;
use mon::run::{self, Case};
use mon::targets::{Entry, SEntry};
use scale_info::PortableRegistry as P;
#[global_allocator]
static A: run::Counting = run::Counting;
mod gen {
    include!(concat!(env!("GEN_DIR"), "/types.rs"));
}
struct T {
    s: Vec<SEntry<P>>,
    e: Vec<Entry<P>>,
    o: Vec<Entry<P>>,
}
fn case(t: &T, c: &mut Case) {
    let e = match c.rng.below(10) {
        0 => c.rng.pick(&t.e),
        1 => c.rng.pick(&t.o),
        _ => &c.rng.pick(&t.s).e,
    };
    let bend = match c.rng.below(4) {
        0 => Bend { wrong: 0, missing: 0, ..Default::default() },
        1 => Bend { missing: 80, positional: 500, ..Default::default() },
        2 => Bend { extra: 600, wrong: 0, positional: 50, ..Default::default() },
        _ => Bend::default(),
    };
    run_one(c, e, bend, 40, false);
}
fn main() {
    let t = T { s: gen::decls::structs(), e: gen::decls::enums(), o: gen::decls::others() };
    run::run("C11", run::Opts { quick: 100_000, thorough: 2_000_000, ..Default::default() }, |c| case(&t, c))
}
