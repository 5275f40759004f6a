//! Lists, fixed arrays, hashes, tuples and maps.
use mon::conv::Bend;
use mon::convrun::*;
use mon::run::{self, Case};
use mon::targets::*;
use scale_info::PortableRegistry as P;
#[global_allocator]
static A: run::Counting = run::Counting;
struct T {
    l: Vec<Entry<P>>,
    t: Vec<Entry<P>>,
    m: Vec<Entry<P>>,
}
fn case(t: &T, c: &mut Case) {
    let (e, k) = match c.rng.below(8) {
        0..=3 => (c.rng.pick(&t.l), "lists"),
        4..=6 => (c.rng.pick(&t.t), "tuples"),
        _ => (c.rng.pick(&t.m), "maps"),
    };
    c.count(k, 1);
    let bend = match c.rng.below(4) {
        0 => Bend { wrong: 0, missing: 0, ..Default::default() },
        1 => Bend { missing: 150, ..Default::default() },
        2 => Bend { wrong: 0, wrap: 400, ..Default::default() },
        _ => Bend::default(),
    };
    let budget = *c.rng.pick(&[12, 40, 200]);
    run_one(c, e, bend, budget, false);
}
fn main() {
    let t = T { l: list_entries(), t: tuple_entries(), m: map_entries() };
    run::run("C12", run::Opts { quick: 250_000, thorough: 5_000_000, ..Default::default() }, |c| case(&t, c))
}
