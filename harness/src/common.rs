//! Pieces the workloads share.
use crate::explore::*;
use crate::model::*;
use crate::resolvers::*;
use crate::run::{hex, Case};
use crate::val::*;
use scale_decode::visitor::decode_with_visitor;
use scale_decode::TypeResolver;

/// A value to decode: its type, its tree, and an input that starts with it.
pub struct Job {
    pub m: Model,
    pub id: Id,
    pub node: Node,
    /// the value's own bytes
    pub len: usize,
    pub input: Vec<u8>,
}
pub fn model(c: &mut Case, hostile: bool) -> Model {
    let o = GenOpts { types: c.rng.range(3, 18), hostile, ..Default::default() };
    gen_model(&mut c.rng, &o)
}
/// One well-formed value of the model, with arbitrary bytes behind it; a few are made by spoiling a value in a way that leaves
/// a well-formed one.
pub fn job(c: &mut Case, m: &Model, spoil: bool) -> Option<Job> {
    let id = c.rng.below(m.defs.len());
    let Some((mut node, mut bytes)) = gen_value(&mut c.rng, m, id, &ValOpts::default()) else {
        c.skipped();
        return None;
    };
    if spoil && c.rng.chance(1, 5) && bytes.len() < 2000 {
        let mut b = bytes.clone();
        mutate(&mut c.rng, &mut b);
        if let Ok(n) = refdec(m, id, &b) {
            bytes = b[..n.end].to_vec();
            node = n;
        }
    }
    let mut input = bytes.clone();
    if c.rng.chance(2, 3) {
        let t = c.rng.below(40);
        input.extend(c.rng.bytes(t));
    }
    c.context(|| format!("type {} value {} bytes {} tail {}", m.show(id), node.show(), hex(&bytes), input.len() - bytes.len()));
    Some(Job { m: m.clone(), id, node, len: bytes.len(), input })
}
/// One explorer run over the job; checks the result and the cursor. Returns the violations of the kinds asked for.
pub fn explore<R: MapId>(c: &mut Case, j: &Job, types: &R, mode: Mode, tags: &[Tag]) -> bool {
    let ctx = Ctx::new(&j.m, &j.input, c.rng.fork(), mode);
    let e = Explorer { ctx: &ctx, types, exp: Some(&j.node), lim: j.input.len(), compact: false };
    let cur = &mut &*j.input;
    let r = decode_with_visitor(cur, types.make_id(j.id), types, e);
    let cursor = tags.contains(&Tag::Cur);
    let mut ok = true;
    match r {
        Err(XErr::Dec(scale_decode::visitor::DecodeError::InvalidStr(_))) if j.node.has_bad_str() => {
            c.count("invalid_utf8_refused", 1);
            ok = false;
        }
        Err(x) => {
            ok = false;
            if tags.contains(&Tag::Err) {
                c.viol(format!("visiting a well-formed value failed: {x:?}"));
            }
        }
        Ok(s) => {
            if s != (Seen { ty: j.node.ty, start: 0 }) && tags.contains(&Tag::Val) {
                c.viol("the visitor's value was not handed back".into());
            }
            if cursor {
                if cur.len() != j.input.len() - j.len {
                    c.viol(format!("{} bytes left, expected {}", cur.len(), j.input.len() - j.len));
                } else if !cur.is_empty() && cur.as_ptr() as usize != j.input.as_ptr() as usize + j.len {
                    c.viol("the input left is not the caller's".into());
                }
            }
        }
    }
    for (t, s) in ctx.viols.take() {
        if tags.contains(&t) {
            c.viol(format!("{t:?}: {s}"));
        } else {
            c.count(&format!("other_{t:?}"), 1);
        }
    }
    for (i, e) in ctx.ev.iter().enumerate() {
        c.count(EVENTS[i], e.get());
    }
    ok
}
/// The explorer through a randomly chosen resolver.
pub fn explore_any(c: &mut Case, j: &Job, mode: Mode, tags: &[Tag]) -> bool {
    match c.rng.below(4) {
        0 => {
            let p = Perm::new(&j.m, &mut c.rng);
            explore(c, j, &p, mode, tags)
        }
        1 => explore(c, j, &ModelResolver(&j.m), mode, tags),
        _ => {
            let p = j.m.portable();
            explore(c, j, &p, mode, tags)
        }
    }
}
pub fn record(c: &mut Case, j: &Job) {
    c.eval();
    c.max("depth", j.node.depth() as u64);
    c.max("nodes", j.node.count() as u64);
    if j.node.count() > 1 {
        c.distinct(&[j.m.show(j.id).as_bytes(), &j.input]);
        c.sample(|| format!("{} = {}", j.m.show(j.id), j.node.show()));
    }
}
/// Is `rest` a tail of `input`?
pub fn is_tail(input: &[u8], rest: &[u8]) -> bool {
    rest.len() <= input.len() && (rest.is_empty() || rest.as_ptr() as usize == input.as_ptr() as usize + input.len() - rest.len())
}
/// What a plain decode into a target gives: value or error text, and what is left.
pub fn decode_any<R: TypeResolver>(b: &[u8], id: R::TypeId, types: &R) -> (Result<crate::any::Any, String>, usize) {
    use scale_decode::DecodeAsType;
    let cur = &mut &*b;
    let r = crate::any::AnyVal::decode_as_type(cur, id, types);
    (r.map(|x| x.0).map_err(|e| e.to_string()), cur.len())
}
/// All types a decode of this value has to look up.
pub fn needed(m: &Model, n: &Node) -> std::collections::HashSet<Id> {
    let mut s = std::collections::HashSet::new();
    n.walk(&mut |x: &Node| {
        s.insert(x.ty);
        let mut t = x.via;
        while let Some(Def::Compact(u)) = t.and_then(|t| m.def(t)) {
            s.insert(t.unwrap());
            t = Some(*u);
        }
    });
    s
}
