//! Decodes made-to-fit (and deliberately unfit) sources into targets and judges the outcome by the reference conversion.
use crate::conv::*;
use crate::model::*;
use crate::resolvers::MapId;
use crate::run::{cut, hex, Case};
use crate::targets::Entry;
use crate::val::*;

pub struct Made {
    pub m: Model,
    pub id: Id,
    pub node: Node,
    pub bytes: Vec<u8>,
    pub hints: Hints,
}
pub fn make(c: &mut Case, shape: &Shape, bend: Bend, budget: usize) -> Option<Made> {
    let mut src = Src::new(&mut c.rng, bend);
    let id = src.source(shape);
    let (m, hints) = (src.m.clone(), src.hints.clone());
    value(c, m, id, hints, budget)
}
/// Another value of the same type.
pub fn value(c: &mut Case, m: Model, id: Id, hints: Hints, budget: usize) -> Option<Made> {
    match gen_value_hinted(&mut c.rng, &m, id, &ValOpts { budget, long_lists: false }, &hints) {
        Some((node, bytes)) => Some(Made { m, id, node, bytes, hints }),
        None => {
            c.skipped();
            None
        }
    }
}
pub fn class_name(e: &CClass) -> &'static str {
    match e {
        CClass::OutOfRange(_) => "out of range",
        CClass::NoVariant(..) => "no such variant",
        CClass::Length { .. } => "wrong length",
        CClass::NoField(_) => "no such field",
        CClass::Unexpected(_) => "unexpected kind",
        CClass::Decode => "malformed",
        CClass::Overflow => "overflow",
    }
}
/// What the reference expects must be what the decode gave.
pub fn judge_result(c: &mut Case, what: &str, want: &CRes, got: &Result<TVal, scale_decode::Error>, paths: bool) {
    match (want, got) {
        (Ok(w), Ok(g)) => {
            c.count("decoded", 1);
            if w != g {
                c.viol(format!("{what} decoded to {}, expected {}", cut(&format!("{g:?}"), 600), cut(&format!("{w:?}"), 600)));
            }
        }
        (Err(es), Err(g)) => {
            if err_matches(es, g, paths) {
                let n = es.iter().find(|x| class_matches(&x.class, g)).unwrap();
                c.count(class_name(&n.class), 1);
                if paths {
                    c.max("path_steps", n.path.len() as u64);
                }
            } else {
                let at: String = format!("{:?}", g.context().path().locations().collect::<Vec<_>>());
                c.viol(format!("{what} failed with {g} at {}, expected one of {}", cut(&at, 400), cut(&format!("{es:?}"), 600)));
            }
        }
        (Ok(w), Err(g)) => c.viol(format!("{what} was refused ({g}), expected {}", cut(&format!("{w:?}"), 600))),
        (Err(es), Ok(g)) => c.viol(format!("{what} decoded to {}, expected one of {}", cut(&format!("{g:?}"), 600), cut(&format!("{es:?}"), 600))),
    }
}
pub fn judge<R: MapId>(c: &mut Case, e: &Entry<R>, types: &R, m: &Model, id: Id, node: &Node, input: &[u8], paths: bool) -> CRes {
    let shape = (e.shape)();
    let want = conv(m, &shape, node);
    c.context(|| {
        format!("target {} type {} input {} value {} reference {}", e.name, m.show(id), hex(input), node.show(), cut(&format!("{want:?}"), 800))
    });
    let cur = &mut &*input;
    let got = (e.decode)(cur, types.make_id(id), types);
    judge_result(c, e.name, &want, &got, paths);
    if got.is_ok() && want.is_ok() && input.len() - cur.len() != node.end - node.start {
        c.viol(format!("{} bytes consumed, expected {}", input.len() - cur.len(), node.end - node.start));
    }
    if !crate::common::is_tail(input, cur) {
        c.viol("what is left is not a tail of the input".into());
    }
    c.eval();
    want
}
/// One target, one source, a few values and spoiled values of it.
pub fn run_one(c: &mut Case, e: &Entry<scale_info::PortableRegistry>, bend: Bend, budget: usize, paths: bool) {
    let shape = (e.shape)();
    let Some(mut x) = make(c, &shape, bend, budget) else { return };
    let reg = x.m.portable();
    for k in 0..3 {
        if k > 0 {
            match value(c, x.m.clone(), x.id, x.hints.clone(), budget) {
                Some(y) => x = y,
                None => return,
            }
        }
        let mut input = x.bytes.clone();
        if c.rng.chance(1, 2) {
            let t = c.rng.below(12);
            input.extend(c.rng.bytes(t));
        }
        let want = judge(c, e, &reg, &x.m, x.id, &x.node, &input, paths);
        seen(c, e.name, &x.m, x.id, &input, &want);
        // a spoiled one; if it still is a value of the type, what it must give is known
        let mut b = x.bytes.clone();
        mutate(&mut c.rng, &mut b);
        match refdec(&x.m, x.id, &b) {
            Ok(n) => {
                let want = judge(c, e, &reg, &x.m, x.id, &n, &b, paths);
                c.count("spoiled_values", 1);
                seen(c, e.name, &x.m, x.id, &b, &want);
            }
            Err(RErr::Budget) => {}
            Err(_) => {
                c.context(|| format!("target {} type {} malformed {}", e.name, x.m.show(x.id), hex(&b)));
                let cur = &mut &*b;
                let _ = (e.decode)(cur, x.id as u32, &reg);
                if !crate::common::is_tail(&b, cur) {
                    c.viol("what is left is not a tail of the input".into());
                }
                c.count("malformed_offered", 1);
            }
        }
    }
}
pub fn seen(c: &mut Case, name: &str, m: &Model, id: Id, input: &[u8], want: &CRes) {
    c.distinct(&[name.as_bytes(), m.show(id).as_bytes(), input]);
    c.sample(|| {
        format!("{} <- {} {} = {}", cut(name, 80), cut(&m.show(id), 300), hex(input), match want {
            Ok(v) => cut(&format!("{v:?}"), 200),
            Err(e) => format!("error {:?}", e[0]),
        })
    });
}
