//! The same value stored compact and not, into the same target; and compact marks where they cannot be.
use mon::any::AnyVal;
use mon::conv::*;
use mon::convrun::*;
use mon::model::*;
use mon::run::{self, cut, hex, Case};
use mon::targets::*;
use mon::val::*;
use scale_decode::visitor::{decode_with_visitor, IgnoreVisitor};
use scale_info::PortableRegistry as P;
#[global_allocator]
static A: run::Counting = run::Counting;
mod gen {
    include!(concat!(env!("GEN_DIR"), "/types.rs"));
}
struct T {
    d: Vec<Entry<P>>,
    b: Vec<Entry<P>>,
    any: Entry<P>,
}
fn kind(e: &scale_decode::Error) -> String {
    let k = match e.kind() {
        scale_decode::error::ErrorKind::VisitorDecodeError(_) => "decode error".to_string(),
        k => k.to_string(),
    };
    format!("{k} at {:?}", e.context().path().locations().collect::<Vec<_>>())
}
fn compacts(n: &Node) -> u64 {
    let mut k = 0;
    n.walk(&mut |x: &Node| k += x.via.is_some() as u64);
    k
}
fn twins(c: &mut Case, e: &Entry<P>, m: &Model, id: Id, node: &Node, bytes: &[u8]) {
    let k = compacts(node);
    if k == 0 {
        return;
    }
    let pm = m.plain();
    let mut pb = vec![];
    encode_plain(node, bytes, &mut pb);
    let shape = (e.shape)();
    c.context(|| format!("target {} type {} input {} and plain type {} input {} value {}", e.name, m.show(id), hex(bytes), pm.show(id), hex(&pb), node.show()));
    let pn = match refdec(&pm, id, &pb) {
        Ok(n) if n.end == pb.len() => n,
        x => return c.viol(format!("the plain twin is wrong: {x:?} /verif/harness")),
    };
    let (cw, pw) = (conv(m, &shape, node), conv(&pm, &shape, &pn));
    let (creg, preg) = (m.portable(), pm.portable());
    let tail = c.rng.below(6);
    let tail = c.rng.bytes(tail);
    let mut cb = bytes[..node.end].to_vec();
    cb.extend(&tail);
    pb.extend(&tail);
    let (cc, pc) = (&mut &*cb, &mut &*pb);
    let a = (e.decode)(cc, id as u32, &creg);
    let b = (e.decode)(pc, id as u32, &preg);
    judge_result(c, e.name, &cw, &a, false);
    judge_result(c, e.name, &pw, &b, false);
    let exempt = cw != pw;
    match (&a, &b) {
        (Ok(x), Ok(y)) => {
            if x != y && !exempt {
                c.viol(format!("compact gives {}, plain {}", cut(&format!("{x:?}"), 600), cut(&format!("{y:?}"), 600)));
            }
            if cc.len() != tail.len() || pc.len() != tail.len() {
                c.viol(format!("{} bytes left behind the compact, {} behind the plain value, expected {}", cc.len(), pc.len(), tail.len()));
            }
            c.count("twins_decoded", 1);
        }
        (Err(x), Err(y)) => {
            if kind(x) != kind(y) && !exempt {
                c.viol(format!("compact fails with {x}, plain with {y}"));
            }
            c.count("twins_refused", 1);
        }
        _ if exempt => c.count("exempt", 1),
        (Ok(x), Err(y)) => c.viol(format!("compact gives {}, plain fails: {y}", cut(&format!("{x:?}"), 600))),
        (Err(x), Ok(y)) => c.viol(format!("compact fails: {x}, plain gives {}", cut(&format!("{y:?}"), 600))),
    }
    c.count("compact_values", k);
    c.eval();
    seen(c, e.name, m, id, bytes, &cw);
}
/// Marks some type that cannot be compact, and offers the bytes.
fn impossible(c: &mut Case, e: &Entry<P>, m: &Model, id: Id, bytes: &[u8]) {
    let mut m = m.clone();
    let mut id = id;
    if !compactable(&m, id) && c.rng.chance(1, 3) {
        // the mark around structs and tuples of one around it
        for _ in 0..c.rng.range(1, 3) {
            id = match c.rng.below(3) {
                0 => m.add(Def::Tuple(vec![id])),
                1 => m.comp(&["W"], vec![(Some("w"), id)]),
                _ => m.comp(&[], vec![(None, id)]),
            };
        }
    }
    let all: Vec<Id> = (0..m.defs.len()).filter(|t| !compactable(&m, *t)).collect();
    if all.is_empty() {
        return;
    }
    let t = if all.contains(&id) && c.rng.chance(1, 2) { id } else { *c.rng.pick(&all) };
    // everything that refers to t now refers to its compact form: swap the two
    let d = m.defs[t].clone();
    let moved = m.add(d);
    m.defs[t] = Def::Compact(moved);
    let mut b = bytes.to_vec();
    if c.rng.chance(1, 3) {
        mutate(&mut c.rng, &mut b);
    }
    if refdec(&m, id, &b) != Err(RErr::BadCompact) {
        return;
    }
    let reg = m.portable();
    c.context(|| format!("target {} type {} input {}", e.name, m.show(id), hex(&b)));
    if let Ok(v) = (e.decode)(&mut &*b, id as u32, &reg) {
        c.viol(format!("a compact mark on a type that cannot be compact was ignored: {v:?}"));
    }
    if decode_with_visitor(&mut &*b, id as u32, &reg, IgnoreVisitor::new()).is_ok() {
        c.viol("a compact mark on a type that cannot be compact was skipped".into());
    }
    c.count("impossible_marks", 1);
    c.eval();
    c.distinct(&[e.name.as_bytes(), m.show(id).as_bytes(), &b]);
}
fn case(t: &T, c: &mut Case) {
    if c.rng.chance(1, 6) {
        // any type into the target that takes everything
        let m = mon::common::model(c, false);
        for _ in 0..3 {
            let id = c.rng.below(m.defs.len());
            if let Some((n, b)) = gen_value(&mut c.rng, &m, id, &ValOpts { budget: 40, long_lists: false }) {
                twins(c, &t.any, &m, id, &n, &b);
                impossible(c, &t.any, &m, id, &b);
            }
        }
        return;
    }
    let e = if c.rng.chance(1, 2) { c.rng.pick(&t.d) } else { c.rng.pick(&t.b) };
    let bend = match c.rng.below(3) {
        0 => Bend { wrong: 0, missing: 0, compact: 900, ..Default::default() },
        1 => Bend { compact: 600, wrap: 350, ..Default::default() },
        _ => Bend { compact: 500, wrong: 40, ..Default::default() },
    };
    let Some(x) = make(c, &(e.shape)(), bend, 40) else { return };
    twins(c, e, &x.m, x.id, &x.node, &x.bytes);
    for _ in 0..2 {
        let Some(y) = value(c, x.m.clone(), x.id, x.hints.clone(), 40) else { return };
        twins(c, e, &y.m, y.id, &y.node, &y.bytes);
        let mut b = y.bytes.clone();
        mutate(&mut c.rng, &mut b);
        if let Ok(n) = refdec(&y.m, y.id, &b) {
            twins(c, e, &y.m, y.id, &n, &b);
        }
        if c.rng.chance(1, 3) {
            impossible(c, e, &y.m, y.id, &y.bytes);
        }
    }
}
fn main() {
    let mut d: Vec<_> = gen::decls::structs().into_iter().map(|s| s.e).collect();
    d.extend(gen::decls::enums());
    d.extend(gen::decls::others());
    let t = T { d, b: builtin_entries(), any: entry::<AnyVal, P>() };
    run::run("C08", run::Opts { quick: 150_000, thorough: 3_000_000, ..Default::default() }, |c| case(&t, c))
}
