use mon::explore::*;
use mon::model::*;
use mon::run::{self, hex, Case};
use mon::val::*;
use scale_decode::visitor::decode_with_visitor;
#[global_allocator]
static A: run::Counting = run::Counting;

fn case(c: &mut Case) {
    let o = GenOpts { types: c.rng.range(3, 18), ..Default::default() };
    let m = gen_model(&mut c.rng, &o);
    let reg = m.portable();
    for _ in 0..4 {
        let id = c.rng.below(m.defs.len());
        let Some((node, bytes)) = gen_value(&mut c.rng, &m, id, &ValOpts::default()) else {
            c.skipped();
            continue;
        };
        let mut input = bytes.clone();
        let tail = c.rng.below(40);
        input.extend(c.rng.bytes(if c.rng.clone().chance(1, 3) { 0 } else { tail }));
        c.context(|| format!("type {} value {} bytes {} tail {}", m.show(id), node.show(), hex(&bytes), input.len() - bytes.len()));
        let ctx = Ctx::new(&m, &input, c.rng.fork(), Mode::Full);
        let e = Explorer { ctx: &ctx, types: &reg, exp: Some(&node), lim: input.len(), compact: false };
        let cur = &mut &*input;
        let r = decode_with_visitor(cur, id as u32, &reg, e);
        match r {
            Err(x) => c.viol(format!("a full visit failed: {x:?}")),
            Ok(s) => {
                if s != (Seen { ty: node.ty, start: 0 }) {
                    c.viol("the visitor's value was not handed back".into());
                }
                if cur.len() != input.len() - bytes.len() {
                    c.viol(format!("{} bytes left, expected {}", cur.len(), input.len() - bytes.len()));
                }
            }
        }
        for (t, s) in ctx.viols.take() {
            if matches!(t, Tag::Val | Tag::Cur | Tag::Err) {
                c.viol(format!("{t:?}: {s}"));
            } else { c.count(&format!("other_{t:?}"), 1); }
        }
        for (i, e) in ctx.ev.iter().enumerate() {
            c.count(EVENTS[i], e.get());
        }
        c.eval();
        c.max("depth", node.depth() as u64);
        c.max("nodes", node.count() as u64);
        if node.count() > 1 {
            c.distinct(&[m.show(id).as_bytes(), &input]);
            c.sample(|| format!("{} = {}", m.show(id), node.show()));
        }
    }
}
fn main() {
    run::run("C01", run::Opts { quick: 60_000, ..Default::default() }, case)
}
