use mon::common::*;
use mon::explore::*;
use mon::run::{self, hex, Case};
use mon::val::*;
use scale_decode::visitor::{decode_with_visitor, DecodeError, IgnoreVisitor};
#[global_allocator]
static A: run::Counting = run::Counting;

const TAGS: &[Tag] = &[Tag::Cur, Tag::Val, Tag::Err];
fn case(c: &mut Case) {
    let m = model(c, false);
    let reg = m.portable();
    for _ in 0..3 {
        let Some(j) = job(c, &m, true) else { continue };
        explore_any(c, &j, Mode::Partial, TAGS);
        explore_any(c, &j, Mode::Partial, TAGS);
        // reading nothing at all
        let cur = &mut &*j.input;
        match decode_with_visitor(cur, j.id as u32, &reg, IgnoreVisitor::new()) {
            Ok(()) if cur.len() == j.input.len() - j.len => {}
            Ok(()) => c.viol(format!("ignoring a value left {} bytes, expected {}", cur.len(), j.input.len() - j.len)),
            Err(e) => c.viol(format!("ignoring a value failed: {e}")),
        }
        record(c, &j);
    }
    // several values back to back, on one cursor, each read to a different extent
    let mut vals = vec![];
    let mut bytes = vec![];
    for _ in 0..c.rng.range(2, 5) {
        let id = c.rng.below(m.defs.len());
        if let Some((_, b)) = gen_value(&mut c.rng, &m, id, &ValOpts { budget: 30, long_lists: false }) {
            vals.push((id, bytes.len()));
            bytes.extend(b);
        }
    }
    c.context(|| format!("stream of {:?} bytes {}", vals.iter().map(|v| m.show(v.0)).collect::<Vec<_>>(), hex(&bytes)));
    let cur = &mut &*bytes;
    for (k, (id, at)) in vals.iter().enumerate() {
        if bytes.len() - cur.len() != *at {
            c.viol(format!("value {k} of a stream starts at {at}, the cursor is at {}", bytes.len() - cur.len()));
            break;
        }
        let rest: &[u8] = cur;
        let node = match refdec(&m, *id, rest) {
            Ok(n) => n,
            Err(_) => return c.viol("the harness cannot decode its own value /verif/harness".into()),
        };
        let ctx = Ctx::new(&m, rest, c.rng.fork(), if c.rng.chance(1, 3) { Mode::Full } else { Mode::Partial });
        let e = Explorer { ctx: &ctx, types: &reg, exp: Some(&node), lim: rest.len(), compact: false };
        let r = match c.rng.below(5) {
            0 => decode_with_visitor(cur, *id as u32, &reg, IgnoreVisitor::new()).map_err(XErr::from),
            _ => decode_with_visitor(cur, *id as u32, &reg, e).map(|_| ()),
        };
        if let Err(e) = r {
            c.viol(format!("value {k} of a stream failed: {e:?}"));
            break;
        }
        for (t, s) in ctx.viols.take() {
            if TAGS.contains(&t) {
                c.viol(format!("{t:?}: {s}"));
            }
        }
        c.count("stream_values", 1);
        c.eval();
    }
    let _: Option<DecodeError> = None;
}
fn main() {
    run::run("C02", run::Opts { quick: 400_000, thorough: 3_000_000, ..Default::default() }, case)
}
