//! Every integer target over every integer source: boundary values exhaustively, others at random.
use mon::conv::*;
use mon::convrun::*;
use mon::model::*;
use mon::resolvers::*;
use mon::run::{self, Case};
use mon::targets::*;
use mon::val::*;
use scale_info::PortableRegistry as P;
#[global_allocator]
static A: run::Counting = run::Counting;
struct T {
    ints: Vec<Entry<P>>,
    ints2: Vec<Entry<Perm>>,
    nested: Vec<Entry<P>>,
}
/// All interesting numbers: everything of 8 bits, and around every power of two, both signs.
fn numbers() -> Vec<(u128, bool)> {
    let mut v = vec![];
    for x in 0..=257u128 {
        v.push((x, false));
        v.push((x, true));
    }
    for b in 8..=128u32 {
        for d in -3i32..=3 {
            let x = if b == 128 {
                if d >= 0 { continue } else { u128::MAX - (-d - 1) as u128 }
            } else {
                (1u128 << b).wrapping_add(d as i128 as u128)
            };
            v.push((x, false));
            v.push((x, true));
        }
    }
    v
}
/// The source forms: plain, compact, wrapped inside or outside of the compact.
fn forms(m: &mut Model) -> Vec<(Prim, bool, Id)> {
    let mut v = vec![];
    for p in UNSIGNED.iter().chain(SIGNED.iter()) {
        let t = m.add(Def::Prim(*p));
        let w = m.comp(&["W"], vec![(Some("inner"), t)]);
        let w1 = m.add(Def::Tuple(vec![t]));
        let w2 = m.comp(&["W"], vec![(None, w1)]);
        v.push((*p, false, t));
        v.push((*p, false, w));
        v.push((*p, false, w2));
        if p.unsigned_bytes().is_some() {
            for x in [t, w, w2] {
                let c = m.add(Def::Compact(x));
                v.push((*p, true, c));
                if x == t {
                    let cw = m.comp(&["CW"], vec![(Some("c"), c)]);
                    v.push((*p, true, cw));
                    let cc = m.add(Def::Tuple(vec![cw]));
                    v.push((*p, true, cc));
                }
            }
        }
    }
    v
}
fn encode(p: Prim, compact: bool, mag: u128, neg: bool) -> Option<Vec<u8>> {
    let mut o = vec![];
    if let Some(w) = p.unsigned_bytes() {
        if neg && mag != 0 || w < 16 && mag >> (8 * w) != 0 {
            return None;
        }
        if compact {
            enc_compact(mag, &mut o);
        } else {
            o.extend_from_slice(&mag.to_le_bytes()[..w]);
        }
    } else {
        let w = p.signed_bytes().unwrap();
        let lim = 1u128 << (8 * w - 1);
        if neg && mag > lim || !neg && mag >= lim {
            return None;
        }
        let n = if neg { (mag as i128).wrapping_neg() } else { mag as i128 };
        o.extend_from_slice(&n.to_le_bytes()[..w]);
    }
    Some(o)
}
fn one<R: MapId>(c: &mut Case, e: &Entry<R>, types: &R, m: &Model, (p, compact, id): (Prim, bool, Id), mag: u128, neg: bool) {
    let Some(mut b) = encode(p, compact, mag, neg) else { return };
    let len = b.len();
    for _ in 0..c.rng.below(4) {
        b.push(c.rng.next() as u8);
    }
    let Shape::Int(k) = (e.shape)() else { unreachable!() };
    // the rule itself, apart from the reference conversion
    let fits = if k.signed {
        let lim = 1u128 << (k.bits - 1);
        mag < lim || neg && mag == lim
    } else {
        (!neg || mag == 0) && (k.bits == 128 || mag < 1u128 << k.bits)
    } && !(k.nonzero && mag == 0);
    c.context(|| format!("target {} type {} number {}{mag}", e.name, m.show(id), if neg { "-" } else { "" }));
    let cur = &mut &*b;
    match (e.decode)(cur, types.make_id(id), types) {
        Ok(TVal::U(x)) if fits && x == mag && (!neg || mag == 0) => c.count("exact", 1),
        Ok(TVal::Neg(x)) if fits && neg && x < 0 && x.unsigned_abs() == mag => c.count("exact_negative", 1),
        Ok(x) => c.viol(format!("decoded to {x:?}")),
        Err(err) if !fits => {
            let want = if neg && mag != 0 { format!("-{mag}") } else { mag.to_string() };
            match err.kind() {
                scale_decode::error::ErrorKind::NumberOutOfRange { value } if *value == want => c.count("refused", 1),
                _ => c.viol(format!("refused with {err}, expected an out-of-range error naming {want}")),
            }
        }
        Err(err) => c.viol(format!("refused with {err} although it fits")),
    }
    if fits && cur.len() != b.len() - len {
        c.viol(format!("{} bytes consumed, expected {len}", b.len() - cur.len()));
    }
    c.eval();
    c.distinct(&[e.name.as_bytes(), &[p as u8, compact as u8, id as u8], &mag.to_le_bytes(), &[neg as u8]]);
    c.sample(|| format!("{} <- {} {}{mag}", e.name, m.show(id), if neg { "-" } else { "" }));
}
fn case(t: &T, c: &mut Case) {
    if c.rng.chance(1, 4) {
        let e = c.rng.pick(&t.nested);
        let budget = *c.rng.pick(&[10, 40]);
        return run_one(c, e, Bend { wrong: 0, missing: 0, ..Default::default() }, budget, false);
    }
    let mut m = Model::new();
    let fs = forms(&mut m);
    // all pairs of target and form in turn; a slice of the numbers each time
    let n = c.n as usize;
    let e = &t.ints[n % t.ints.len()];
    let f = fs[n / t.ints.len() % fs.len()];
    let nums = numbers();
    let reg = m.portable();
    if c.rng.chance(1, 10) {
        let perm = Perm::new(&m, &mut c.rng);
        let e = &t.ints2[n % t.ints2.len()];
        for _ in 0..200 {
            let (mag, neg) = *c.rng.pick(&nums);
            one(c, e, &perm, &m, f, mag, neg);
        }
        return;
    }
    let round = n / (t.ints.len() * fs.len());
    if round < 2 {
        for (mag, neg) in &nums {
            one(c, e, &reg, &m, f, *mag, *neg);
        }
        c.count("pairs_with_all_boundaries", 1);
    } else {
        for _ in 0..200 {
            let bits = c.rng.range(8, 128) as u32;
            let mag = gen_uint(&mut c.rng, bits);
            let neg = c.rng.chance(1, 2);
            one(c, e, &reg, &m, f, mag, neg);
        }
        let at = c.rng.next() as u16;
        for d in 0..300u16 {
            let x = at.wrapping_add(d);
            one(c, e, &reg, &m, f, x as u128, d & 1 == 1);
        }
    }
}
fn nested<R: scale_decode::TypeResolver>() -> Vec<Entry<R>> {
    use std::num::*;
    mon::entries!(R; Vec<u8>, Vec<i8>, Vec<u16>, Vec<i64>, Vec<u128>, Vec<i128>, Vec<usize>, Vec<NonZeroU8>, Vec<NonZeroI64>, [u32; 3], [i16; 2],
        Option<u8>, Option<i32>, (u8, i8, u16, i16, u32, i32, u64, i64, u128, i128), std::ops::Range<u16>, Box<u8>, (u64,), (NonZeroU128,),
        std::collections::BTreeMap<String, i16>, Result<u8, i8>, codec::Compact<u16>, codec::Compact<i32>, std::collections::BTreeSet<u64>,
        std::borrow::Cow<'static, u32>, std::rc::Rc<NonZeroU16>, Vec<Vec<isize>>)
}
fn main() {
    let t = T { ints: int_entries(), ints2: int_entries(), nested: nested() };
    run::run("C07", run::Opts { quick: 12_000, thorough: 400_000, ..Default::default() }, |c| case(&t, c))
}
