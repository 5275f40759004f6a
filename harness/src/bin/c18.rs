//! Bit sequences: every format, many lengths, against our own bit arithmetic and the static codec.
use bitvec::prelude::*;
use codec::{Decode, Encode};
use mon::model::*;
use mon::run::{self, hex, Case};
use mon::val::*;
use scale_bits::Bits;
use scale_decode::visitor::{decode_with_visitor, types::*, DecodeError, IgnoreVisitor, TypeIdFor, Visitor};
use scale_decode::{DecodeAsType, TypeResolver};
#[global_allocator]
static A: run::Counting = run::Counting;

/// Reads `read` bits (or all), asking for the bytes after before, after, or never.
struct Reader<R> {
    read: Option<usize>,
    before: bool,
    after: bool,
    twice: bool,
    r: std::marker::PhantomData<fn() -> R>,
}
struct Got {
    bits: Vec<bool>,
    after: Vec<usize>,
}
impl<R: TypeResolver> Visitor for Reader<R> {
    type Value<'s, 'r> = Got;
    type Error = DecodeError;
    type TypeResolver = R;
    fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, Self::Error> {
        let mut g = Got { bits: vec![], after: vec![] };
        let all = v.bytes_from_start().len();
        if self.before {
            g.after.push(all - v.bytes_after()?.len());
        }
        if self.twice {
            let mut d = v.decode()?;
            d.next().transpose()?;
        }
        match self.read {
            Some(0) => {}
            k => {
                for b in v.decode()?.take(k.unwrap_or(usize::MAX)) {
                    g.bits.push(b?);
                }
            }
        }
        if self.after {
            g.after.push(all - v.bytes_after()?.len());
        }
        Ok(g)
    }
}
fn static_decode(f: BitFmt, b: &[u8]) -> Result<(Vec<bool>, usize), ()> {
    macro_rules! go {
        ($s:ty, $o:ty) => {{
            let cur = &mut &*b;
            let v = BitVec::<$s, $o>::decode(cur).map_err(|_| ())?;
            Ok((v.iter().map(|b| *b).collect(), b.len() - cur.len()))
        }};
    }
    match (f.store, f.msb) {
        (1, false) => go!(u8, Lsb0),
        (2, false) => go!(u16, Lsb0),
        (4, false) => go!(u32, Lsb0),
        (8, false) => go!(u64, Lsb0),
        (1, true) => go!(u8, Msb0),
        (2, true) => go!(u16, Msb0),
        (4, true) => go!(u32, Msb0),
        _ => go!(u64, Msb0),
    }
}
fn static_encode(f: BitFmt, bits: &[bool]) -> Vec<u8> {
    macro_rules! go {
        ($s:ty, $o:ty) => {
            bits.iter().copied().collect::<BitVec<$s, $o>>().encode()
        };
    }
    match (f.store, f.msb) {
        (1, false) => go!(u8, Lsb0),
        (2, false) => go!(u16, Lsb0),
        (4, false) => go!(u32, Lsb0),
        (8, false) => go!(u64, Lsb0),
        (1, true) => go!(u8, Msb0),
        (2, true) => go!(u16, Msb0),
        (4, true) => go!(u32, Msb0),
        _ => go!(u64, Msb0),
    }
}
fn judge(c: &mut Case, m: &Model, reg: &scale_info::PortableRegistry, f: BitFmt, id: Id, input: &[u8]) {
    let want = refdec(m, id, input);
    c.context(|| format!("{f:?} input {} reference {}", hex(input), match &want { Ok(n) => n.show(), Err(e) => format!("{e:?}") }));
    let (bits, end) = match &want {
        Ok(Node { k: K::Bits(b), end, .. }) => (Some(b.clone()), *end),
        Ok(_) => unreachable!(),
        Err(RErr::Budget) => return c.skipped(),
        Err(_) => (None, 0),
    };
    c.count(if bits.is_some() { "well-formed" } else { "malformed" }, 1);
    // the static codec
    let st = static_decode(f, input);
    if st != bits.clone().map(|b| (b, end)).ok_or(()) {
        c.viol(format!("the reference and the static codec disagree: {st:?} /verif/harness"));
    }
    // into Bits
    let cur = &mut &*input;
    let r = Bits::decode_as_type(cur, id as u32, reg);
    match (&bits, r) {
        (Some(b), Ok(g)) => {
            if g.iter().collect::<Vec<_>>() != *b || g.len() != b.len() {
                c.viol(format!("decoded to {} bits {g:?}, expected {b:?}", g.len()));
            }
            if input.len() - cur.len() != end {
                c.viol(format!("{} bytes consumed, expected {end}", input.len() - cur.len()));
            }
        }
        (None, Err(_)) => {}
        (None, Ok(g)) => c.viol(format!("malformed bits decoded to {g:?}")),
        (Some(_), Err(e)) => c.viol(format!("well-formed bits refused: {e}")),
    }
    // by visitor, to a random extent
    let n = bits.as_ref().map_or(0, |b| b.len());
    let read = match c.rng.below(4) {
        0 => Some(0),
        1 => Some(c.rng.below(n + 2)),
        _ => None,
    };
    let v = Reader { read, before: c.rng.chance(1, 2), after: c.rng.chance(1, 2), twice: c.rng.chance(1, 4), r: Default::default() };
    let cur = &mut &*input;
    match (&bits, decode_with_visitor(cur, id as u32, reg, v)) {
        (Some(b), Ok(g)) => {
            let k = read.unwrap_or(b.len()).min(b.len());
            if g.bits != b[..k] {
                c.viol(format!("the first {k} bits were {:?}, expected {:?}", g.bits, &b[..k]));
            }
            if input.len() - cur.len() != end {
                c.viol(format!("{} bytes consumed after reading {read:?}, expected {end}", input.len() - cur.len()));
            }
            if g.after.iter().any(|a| *a != end) {
                c.viol(format!("bytes_after() begins at {:?}, expected {end}", g.after));
            }
        }
        (None, Err(_)) => {}
        (None, Ok(_)) => c.viol("malformed bits were accepted by a visitor".into()),
        (Some(_), Err(e)) => c.viol(format!("well-formed bits refused by a visitor: {e}")),
    }
    // skipped
    let cur = &mut &*input;
    match (&bits, decode_with_visitor(cur, id as u32, reg, IgnoreVisitor::new())) {
        (Some(_), Ok(())) if input.len() - cur.len() == end => {}
        (Some(_), r) => c.viol(format!("skipping gave {r:?} with {} bytes consumed, expected {end}", input.len() - cur.len())),
        (None, Ok(())) => c.viol("malformed bits were skipped".into()),
        (None, Err(_)) => {}
    }
    c.eval();
    if n > 0 || bits.is_none() {
        c.distinct(&[&[f.store as u8, f.msb as u8], input]);
        c.sample(|| format!("{f:?} {} -> {}", hex(input), match &bits { Some(b) => format!("{} bits", b.len()), None => "error".into() }));
    }
    c.max("bits", n as u64);
}
fn case(c: &mut Case) {
    let f = BIT_FMTS[(c.n % 8) as usize];
    let mut m = Model::new();
    let id = m.add(Def::Bits(f));
    // in containers too: what comes next must be found
    let u = m.add(Def::Prim(Prim::U16));
    let pair = m.add(Def::Tuple(vec![id, u]));
    let lists = m.add(Def::Seq(pair));
    let reg = m.portable();
    // every length up to 200 in turn, then random ones
    let n = match c.rng.below(3) {
        0 => (c.n / 8 % 201) as usize,
        1 => c.rng.below(140),
        _ => *c.rng.pick(&[0, 1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 16383, 16384, 16400]),
    };
    let style = c.rng.below(4);
    let bits: Vec<bool> = (0..n).map(|i| match style { 0 => i + 1 == n, 1 => true, _ => c.rng.chance(1, 2) }).collect();
    let mut bytes = static_encode(f, &bits);
    let len = bytes.len();
    // padding bits and bytes behind are arbitrary
    if n > 0 && c.rng.chance(1, 2) && len <= 40 {
        let x = c.rng.bytes(len);
        let k = 1 + (n > 63) as usize;
        let d = refdec(&m, id, &bytes).unwrap();
        let mut spoiled = bytes.clone();
        spoiled[len - 1] ^= x[len - 1];
        if let Ok(e) = refdec(&m, id, &spoiled) {
            if d.same_value(&e) && k < len {
                bytes = spoiled;
                c.count("padding_set", 1);
            }
        }
    }
    let tail = c.rng.below(20);
    let t = c.rng.bytes(tail);
    bytes.extend(t);
    match refdec(&m, id, &bytes) {
        Ok(Node { k: K::Bits(b), end, .. }) if b == bits && end == len => {}
        x => c.viol(format!("the reference does not read what the static codec wrote: {x:?} for {bits:?} /verif/harness")),
    }
    judge(c, &m, &reg, f, id, &bytes);
    for _ in 0..3 {
        let mut b = bytes[..len].to_vec();
        mutate(&mut c.rng, &mut b);
        judge(c, &m, &reg, f, id, &b);
    }
    if len <= 30 {
        for k in 0..len {
            judge(c, &m, &reg, f, id, &bytes[..k]);
        }
    }
    // lists of (bits, u16)
    if let Some((node, b)) = gen_value(&mut c.rng, &m, lists, &ValOpts { budget: 30, long_lists: false }) {
        c.context(|| format!("{f:?} list {}", node.show()));
        let want: Vec<(Vec<bool>, u16)> = node
            .kids()
            .iter()
            .map(|p| match (&p.kids()[0].k, &p.kids()[1].k) {
                (K::Bits(b), K::U(_, u)) => (b.clone(), *u as u16),
                _ => unreachable!(),
            })
            .collect();
        match Vec::<(Bits, u16)>::decode_as_type(&mut &*b, lists as u32, &reg) {
            Ok(g) if g.iter().map(|x| (x.0.iter().collect::<Vec<_>>(), x.1)).collect::<Vec<_>>() == want => {}
            g => c.viol(format!("a list of bit sequences gave {g:?}")),
        }
        c.count("in_lists", want.len() as u64);
        c.eval();
    }
}
fn main() {
    run::run("C18", run::Opts { quick: 250_000, thorough: 5_000_000, ..Default::default() }, case)
}
