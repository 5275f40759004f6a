use mon::common::*;
use mon::explore::*;
use mon::run::{self, Case};
#[global_allocator]
static A: run::Counting = run::Counting;

fn case(c: &mut Case) {
    let m = model(c, false);
    for _ in 0..3 {
        let Some(j) = job(c, &m, false) else { continue };
        let tags = [Tag::Item, Tag::Val, Tag::Err];
        explore_any(c, &j, Mode::Full, &tags);
        explore_any(c, &j, Mode::Partial, &tags);
        explore_any(c, &j, Mode::Partial, &tags);
        record(c, &j);
    }
}
fn main() {
    run::run("C14", run::Opts { quick: 60_000, thorough: 3_000_000, ..Default::default() }, case)
}
