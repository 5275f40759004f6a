//! The static codec and the type-guided decode of the same types on the same bytes.
use codec::{Compact, CompactAs, Decode, Encode};
use mon::model::*;
use mon::run::{self, cut, hex, Case};
use mon::val::*;
use primitive_types::{H128, H160, H256, H384, H512, H768};
use scale_bits::Bits;
use scale_decode::DecodeAsType;
use scale_info::{PortableRegistry, TypeInfo};
use std::borrow::Cow;
use std::collections::{BTreeSet, BinaryHeap, VecDeque};
use std::marker::PhantomData;
use std::num::*;
use std::ops::{Range, RangeInclusive};
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;
#[global_allocator]
static A: run::Counting = run::Counting;
mod gen {
    use super::*;
    include!(concat!(env!("GEN_DIR"), "/static.rs"));
}
pub struct Outcome {
    /// value shown, re-encoded, bytes left; or the error
    stat: Result<(String, Vec<u8>, usize), String>,
    dynm: Result<(String, Vec<u8>, usize), String>,
    same: bool,
}
pub struct St {
    name: &'static str,
    reg: PortableRegistry,
    m: Model,
    id: u32,
    run: Box<dyn Fn(&[u8], u32, &PortableRegistry) -> Outcome + Sync + Send>,
    /// the static codec refuses what the other normalises
    norm: bool,
}
pub fn entry<T: Decode + Encode + DecodeAsType + TypeInfo + 'static>(same: fn(&T, &T) -> bool) -> St {
    let mut r = scale_info::Registry::new();
    let id = r.register_type(&scale_info::meta_type::<T>()).id;
    let reg: PortableRegistry = r.into();
    let m = from_portable(&reg);
    St {
        name: std::any::type_name::<T>(),
        reg,
        m,
        id,
        norm: false,
        run: Box::new(move |b, id, reg| {
            let (s, d) = (&mut &*b, &mut &*b);
            let x = T::decode(s).map_err(|e| e.to_string());
            let y = T::decode_as_type(d, id, reg).map_err(|e| e.to_string());
            let same = match (&x, &y) {
                (Ok(x), Ok(y)) => same(x, y),
                _ => true,
            };
            let show = |v: &T, left: usize| (format!("the value encoded as {}", hex(&v.encode())), v.encode(), left);
            Outcome { stat: x.map(|v| show(&v, s.len())), dynm: y.map(|v| show(&v, d.len())), same }
        }),
    }
}
fn check(c: &mut Case, t: &St, b: &[u8]) {
    // what even the reference cannot finish is a list of billions of nothings
    let want = refdec(&t.m, t.id as usize, b);
    if want == Err(RErr::Budget) {
        c.skipped();
        return;
    }
    c.context(|| format!("{} ({}) on {}", t.name, cut(&t.m.show(t.id as usize), 400), hex(b)));
    let o = (t.run)(b, t.id, &t.reg);
    match (&o.stat, &o.dynm) {
        (Ok((sv, se, sl)), Ok((dv, de, dl))) => {
            // (static bit sequences are compared with their padding; what is in it is no part of the value)
            let bits = || se.len() == de.len() && refdec(&t.m, t.id as usize, se) == refdec(&t.m, t.id as usize, de);
            if !o.same && !bits() {
                c.viol(format!("the static codec decodes {sv}, type-guided decoding {dv}"));
            }
            if sl != dl {
                c.viol(format!("the static codec leaves {sl} bytes, type-guided decoding {dl}"));
            }
            c.count("both_accept", 1);
        }
        (Err(_), Err(_)) => c.count("both_refuse", 1),
        (Err(_), Ok(_)) if t.norm && want.is_ok() => c.count("normalised", 1),
        (Ok((v, ..)), Err(e)) => c.viol(format!("the static codec decodes {v}, type-guided decoding fails with {e}")),
        (Err(e), Ok((v, ..))) => c.viol(format!("the static codec refuses ({e}), type-guided decoding gives {v}")),
    }
    // our own reference, on which other monitors rely, against the static codec
    match (&o.stat, &want) {
        (Ok((_, _, l)), Ok(n)) if b.len() - l == n.end => c.count("reference_agrees", 1),
        (Err(_), Err(_)) => c.count("reference_agrees", 1),
        _ => c.count("reference_differs", 1),
    }
    c.eval();
    c.distinct(&[t.name.as_bytes(), b]);
    c.sample(|| format!("{} {}", cut(t.name, 100), hex(b)));
}
fn case(ts: &[St], c: &mut Case) {
    let t = &ts[c.rng.below(ts.len())];
    for _ in 0..4 {
        let v = ValOpts { budget: *c.rng.pick(&[5, 40, 300]), long_lists: c.rng.chance(1, 6) };
        let Some((_, b)) = gen_value(&mut c.rng, &t.m, t.id as usize, &v) else {
            c.skipped();
            return;
        };
        let mut x = b.clone();
        let k = c.rng.below(10);
        x.extend(c.rng.bytes(k));
        check(c, t, &x);
        // the encoder's own bytes: what came out of the static codec, written again
        if let Ok((_, e, _)) = (t.run)(&x, t.id, &t.reg).stat {
            if e != b {
                c.count("reencoded_differently", 1);
            }
            let mut e = e;
            e.extend(c.rng.bytes(k));
            check(c, t, &e);
        }
        for _ in 0..3 {
            let mut x = b.clone();
            mutate(&mut c.rng, &mut x);
            check(c, t, &x);
        }
        if b.len() < 24 {
            for i in 0..b.len() {
                check(c, t, &b[..i]);
            }
        }
    }
    let n = c.rng.below(40);
    let mut x = c.rng.bytes(n);
    if c.rng.chance(1, 2) {
        x.iter_mut().for_each(|x| *x &= 7);
    }
    check(c, t, &x);
}
fn main() {
    let mut ts = gen::st::all();
    let heap = |a: &BinaryHeap<u16>, b: &BinaryHeap<u16>| a.clone().into_sorted_vec() == b.clone().into_sorted_vec();
    ts.push(entry::<BinaryHeap<u16>>(heap));
    type Wide = (u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, String, u8, Compact<u16>, bool, u8, Vec<u8>, i64);
    ts.push(entry::<Wide>(|a, b| a.encode() == b.encode()));
    let mut d = entry::<Duration>(|a, b| a == b);
    d.norm = true;
    ts.push(d);
    run::run("C06", run::Opts { quick: 60_000, thorough: 2_000_000, ..Default::default() }, |c| case(&ts, c))
}
