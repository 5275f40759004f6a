use mon::any::{any_of, AnyVal};
use mon::chase::{structural, Chase};
use mon::common::*;
use mon::explore::*;
use mon::faults::faults;
use mon::run::{self, hex, Case};
use mon::val::*;
use scale_decode::visitor::decode_with_visitor;
use scale_decode::DecodeAsType;
#[global_allocator]
static A: run::Counting = run::Counting;

fn one(c: &mut Case, m: &mon::model::Model, reg: &scale_info::PortableRegistry, id: usize, input: &[u8]) {
    use mon::resolvers::*;
    let want = refdec(m, id, input);
    c.context(|| format!("type {} input {} reference {}", m.show(id), hex(input), match &want { Ok(n) => n.show(), Err(e) => format!("{e:?}") }));
    if want == Err(RErr::Budget) {
        c.skipped();
        return;
    }
    let bad = match &want {
        Ok(n) if n.has_bad_str() => Some("str"),
        Ok(_) => None,
        Err(RErr::Eof) => Some("end of input"),
        Err(RErr::Bad(x)) => Some(*x),
        Err(RErr::NoType(_)) => Some("type not found"),
        Err(RErr::BadCompact) => Some("impossible compact"),
        Err(RErr::Budget) => unreachable!(),
    };
    match bad {
        Some(x) => c.count(&format!("malformed: {x}"), 1),
        None => c.count("well-formed", 1),
    }
    // our visitor, expecting nothing
    let ctx = Ctx::new(m, input, c.rng.fork(), Mode::Full);
    let cur = &mut &*input;
    let ok = if c.rng.chance(1, 3) {
        let types = ModelResolver(m);
        decode_with_visitor(cur, sid(id), &types, Explorer { ctx: &ctx, types: &types, exp: None, lim: input.len(), compact: false }).map(|_| ()).is_ok()
    } else {
        decode_with_visitor(cur, reg.make_id(id), reg, Explorer { ctx: &ctx, types: reg, exp: None, lim: input.len(), compact: false }).map(|_| ()).is_ok()
    };
    let left = cur.len();
    if !is_tail(input, cur) {
        c.viol("a visit: what is left is not a tail of the input".into());
    }
    match (&want, ok) {
        (_, true) if bad.is_some() => c.viol(format!("malformed input ({}) was accepted", bad.unwrap())),
        (Ok(_), false) if bad.is_none() => c.viol("well-formed input was refused".into()),
        (Ok(n), true) if input.len() - left != n.end => c.viol(format!("{} bytes consumed, expected {}", input.len() - left, n.end)),
        _ => {}
    }
    // a target that takes everything
    let cur = &mut &*input;
    let r = AnyVal::decode_as_type(cur, reg.make_id(id), reg);
    if !is_tail(input, cur) {
        c.viol("decode_as_type: what is left is not a tail of the input".into());
    }
    match (&want, r) {
        (Ok(n), Ok(v)) if bad.is_none() => {
            if Some(&v.0) != any_of(m, n).as_ref() {
                c.viol(format!("decoded to {:?}", v.0));
            }
            if input.len() - cur.len() != n.end {
                c.viol(format!("decode_as_type consumed {} bytes, expected {}", input.len() - cur.len(), n.end));
            }
        }
        (_, Ok(v)) => c.viol(format!("malformed input ({}) decoded to {:?}", bad.unwrap_or("?"), v.0)),
        (_, Err(e)) if bad.is_none() => c.viol(format!("decode_as_type refused well-formed input: {e}")),
        _ => {}
    }
    // reading only some of it: no claim on the outcome, but the rest is a tail
    let cur = &mut &*input;
    let r = decode_with_visitor(cur, reg.make_id(id), reg, scale_decode::visitor::IgnoreVisitor::new());
    if !is_tail(input, cur) {
        c.viol("skipping: what is left is not a tail of the input".into());
    }
    // skipping needs all the bytes to be there, but need not look at them
    match (&want, &r) {
        (Err(RErr::Eof), Ok(())) => c.viol("truncated input was skipped as if it were a value".into()),
        (Ok(_), Err(e)) => c.viol(format!("well-formed input could not be skipped: {e}")),
        (Ok(n), Ok(())) if input.len() - cur.len() != n.end => {
            c.viol(format!("skipping consumed {} bytes, expected {}", input.len() - cur.len(), n.end))
        }
        _ => {}
    }
    c.eval();
    if bad.is_some() {
        c.distinct(&[m.show(id).as_bytes(), input]);
        c.sample(|| format!("{} <- {} ({})", m.show(id), hex(input), bad.unwrap()));
    }
}
/// Stepping through a value of which one part is spoiled.
fn step<R: mon::resolvers::MapId>(c: &mut Case, m: &mon::model::Model, types: &R, id: usize, n: &Node, bytes: &[u8]) {
    for (b, cause, way) in faults(c, m, n, bytes) {
        c.context(|| format!("type {} good {} spoiled {} ({cause:?} at {way:?})", m.show(id), hex(bytes), hex(&b)));
        for _ in 0..2 {
            let ctx = Ctx::new(m, &b, c.rng.fork(), Mode::Partial);
            let cur = &mut &*b;
            if decode_with_visitor(cur, types.make_id(id), types, Chase::new(&ctx, n, &way, structural(&cause))).is_ok() {
                c.viol(format!("a value was decoded from input with one part spoiled: {}", cause.name()));
            }
            if !is_tail(&b, cur) {
                c.viol("stepping: what is left is not a tail of the input".into());
            }
            for (t, s) in ctx.viols.take() {
                c.viol(format!("{t:?}: {s}"));
            }
            c.count("spoiled items met", ctx.ev[16].get());
        }
        c.count(&format!("stepped: {}", cause.name()), 1);
        c.eval();
    }
}
fn case(c: &mut Case) {
    let hostile = c.rng.chance(1, 3);
    let m = model(c, hostile);
    let reg = m.portable();
    for _ in 0..2 {
        let id = c.rng.below(m.defs.len());
        let long_lists = c.rng.chance(1, 10);
        match gen_value(&mut c.rng, &m, id, &ValOpts { budget: 40, long_lists }) {
            Some((n, bytes)) => {
                if bytes.len() < 4000 {
                    if c.rng.chance(1, 3) {
                        step(c, &m, &mon::resolvers::ModelResolver(&m), id, &n, &bytes);
                    } else {
                        step(c, &m, &reg, id, &n, &bytes);
                    }
                }
                for _ in 0..8 {
                    let mut b = bytes.clone();
                    mutate(&mut c.rng, &mut b);
                    one(c, &m, &reg, id, &b);
                }
                // every truncation of a short value
                if bytes.len() <= 24 {
                    for k in 0..bytes.len() {
                        one(c, &m, &reg, id, &bytes[..k]);
                    }
                    c.count("all_truncations", 1);
                }
            }
            None => {
                for _ in 0..4 {
                    let n = c.rng.below(30);
                    let b = c.rng.bytes(n);
                    one(c, &m, &reg, id, &b);
                }
            }
        }
    }
}
fn main() {
    run::run("C03", run::Opts { quick: 150_000, thorough: 6_000_000, ..Default::default() }, case)
}
