//! Values: the annotated tree, an independent SCALE encoder with a random value generator, and the reference decoder.
use crate::model::*;
use crate::rng::Rng;

/// A decoded value with its place in the input.
#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    /// the type a visitor is told (for compact values: the type inside)
    pub ty: Id,
    /// the id at this position was that of a `Compact` type (the id itself, before looking inside)
    pub via: Option<Id>,
    pub start: usize,
    pub end: usize,
    pub k: K,
}
#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Bool(bool),
    Char(char),
    /// None: not valid UTF-8. `off` is where the characters start.
    Str { off: usize, s: Option<String> },
    U(Prim, u128),
    I(Prim, i128),
    B32(Prim, [u8; 32]),
    Seq { body: usize, items: Vec<Node> },
    Arr(Vec<Node>),
    Tuple(Vec<Node>),
    Comp(Vec<Node>),
    Var { v: usize, fields: Vec<Node> },
    Bits(Vec<bool>),
}
impl Node {
    pub fn kids(&self) -> &[Node] {
        match &self.k {
            K::Seq { items, .. } => items,
            K::Arr(x) | K::Tuple(x) | K::Comp(x) => x,
            K::Var { fields, .. } => fields,
            _ => &[],
        }
    }
    pub fn count(&self) -> usize {
        1 + self.kids().iter().map(|k| k.count()).sum::<usize>()
    }
    pub fn depth(&self) -> usize {
        1 + self.kids().iter().map(|k| k.depth()).max().unwrap_or(0)
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        for k in self.kids() {
            k.walk(f);
        }
    }
    pub fn has_bad_str(&self) -> bool {
        let mut b = false;
        self.walk(&mut |n| b |= matches!(n.k, K::Str { s: None, .. }));
        b
    }
    /// Value equality that ignores positions and type ids.
    pub fn same_value(&self, o: &Node) -> bool {
        let kids = |a: &[Node], b: &[Node]| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same_value(y));
        match (&self.k, &o.k) {
            (K::Str { s: a, .. }, K::Str { s: b, .. }) => a == b,
            (K::Seq { items: a, .. }, K::Seq { items: b, .. }) => kids(a, b),
            (K::Arr(a), K::Arr(b)) | (K::Tuple(a), K::Tuple(b)) | (K::Comp(a), K::Comp(b)) => kids(a, b),
            (K::Var { v: a, fields: x }, K::Var { v: b, fields: y }) => a == b && kids(x, y),
            (a, b) => a == b,
        }
    }
    pub fn show(&self) -> String {
        let kids = |ks: &[Node]| {
            let mut s: Vec<String> = ks.iter().take(12).map(|k| k.show()).collect();
            if ks.len() > 12 {
                s.push(format!("..{}", ks.len()));
            }
            s.join(",")
        };
        match &self.k {
            K::Bool(b) => b.to_string(),
            K::Char(c) => format!("{c:?}"),
            K::Str { s, .. } => match s {
                Some(s) if s.len() > 40 => format!("str[{}]", s.len()),
                Some(s) => format!("{s:?}"),
                None => "bad-utf8".into(),
            },
            K::U(p, n) => format!("{n}{p:?}"),
            K::I(p, n) => format!("{n}{p:?}"),
            K::B32(p, _) => format!("{p:?}"),
            K::Seq { items, .. } => format!("[{}]", kids(items)),
            K::Arr(x) => format!("arr[{}]", kids(x)),
            K::Tuple(x) => format!("({})", kids(x)),
            K::Comp(x) => format!("{{{}}}", kids(x)),
            K::Var { v, fields } => format!("v{v}({})", kids(fields)),
            K::Bits(b) => format!("bits[{}]", b.len()),
        }
    }
}

/// Canonical compact encoding, written from the specification rather than taken from the codec crate.
pub fn enc_compact(n: u128, out: &mut Vec<u8>) {
    if n < 1 << 6 {
        out.push((n as u8) << 2);
    } else if n < 1 << 14 {
        out.extend_from_slice(&(((n as u16) << 2) | 1).to_le_bytes());
    } else if n < 1 << 30 {
        out.extend_from_slice(&(((n as u32) << 2) | 2).to_le_bytes());
    } else {
        let bytes = n.to_le_bytes();
        let mut len = 16;
        while len > 4 && bytes[len - 1] == 0 {
            len -= 1;
        }
        out.push((((len - 4) as u8) << 2) | 3);
        out.extend_from_slice(&bytes[..len]);
    }
}
/// Reads a canonical compact number that fits `width` bytes. Returns (value, bytes used).
pub fn dec_compact(b: &[u8], width: usize) -> Result<(u128, usize), RErr> {
    let first = *b.first().ok_or(RErr::Eof)?;
    let le = |n: usize| -> Result<u128, RErr> {
        let s = b.get(..n).ok_or(RErr::Eof)?;
        let mut x = 0u128;
        for (i, v) in s.iter().enumerate() {
            x |= (*v as u128) << (8 * i);
        }
        Ok(x)
    };
    let (n, used) = match first & 3 {
        0 => ((first >> 2) as u128, 1),
        1 => {
            let n = le(2)? >> 2;
            if n < 1 << 6 {
                return Err(RErr::Bad("non-minimal compact"));
            }
            (n, 2)
        }
        2 => {
            let n = le(4)? >> 2;
            if n < 1 << 14 {
                return Err(RErr::Bad("non-minimal compact"));
            }
            (n, 4)
        }
        _ => {
            let len = (first >> 2) as usize + 4;
            if len > 16 {
                return Err(RErr::Bad("compact too wide"));
            }
            let s = b.get(1..1 + len).ok_or(RErr::Eof)?;
            let mut x = 0u128;
            for (i, v) in s.iter().enumerate() {
                x |= (*v as u128) << (8 * i);
            }
            if s[len - 1] == 0 || x < 1 << 30 {
                return Err(RErr::Bad("non-minimal compact"));
            }
            (x, 1 + len)
        }
    };
    if width < 16 && n >> (8 * width) != 0 {
        return Err(RErr::Bad("compact out of range"));
    }
    Ok((n, used))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RErr {
    Eof,
    Bad(&'static str),
    NoType(Id),
    BadCompact,
    /// too many steps or too deep: outside what the reference explores
    Budget,
}
pub struct RefDec<'a> {
    pub model: &'a Model,
    pub input: &'a [u8],
    pub pos: usize,
    pub steps: u64,
    pub max_steps: u64,
    pub max_depth: usize,
    /// furthest depth seen
    pub depth_seen: usize,
    /// items begun (also in failed decodes)
    pub items: u64,
    /// greatest length declared (also in failed decodes)
    pub max_len: u128,
}
impl<'a> RefDec<'a> {
    pub fn new(model: &'a Model, input: &'a [u8]) -> RefDec<'a> {
        RefDec { model, input, pos: 0, steps: 0, max_steps: 200_000, max_depth: 150, depth_seen: 0, items: 0, max_len: 0 }
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], RErr> {
        let s = self.input.get(self.pos..self.pos.checked_add(n).ok_or(RErr::Eof)?).ok_or(RErr::Eof)?;
        self.pos += n;
        Ok(s)
    }
    fn compact(&mut self, width: usize) -> Result<u128, RErr> {
        let (n, used) = dec_compact(&self.input[self.pos..], width)?;
        self.pos += used;
        Ok(n)
    }
    pub fn decode(&mut self, id: Id) -> Result<Node, RErr> {
        self.go(id, false, 0)
    }
    fn many(&mut self, ids: impl Iterator<Item = Id>, compact: bool, depth: usize) -> Result<Vec<Node>, RErr> {
        let mut v = vec![];
        for t in ids {
            v.push(self.go(t, compact, depth + 1)?);
        }
        Ok(v)
    }
    pub fn go(&mut self, id: Id, compact: bool, depth: usize) -> Result<Node, RErr> {
        self.steps += 1;
        self.items += 1;
        self.depth_seen = self.depth_seen.max(depth);
        if self.steps > self.max_steps || depth > self.max_depth {
            return Err(RErr::Budget);
        }
        let start = self.pos;
        let model = self.model;
        let def = model.def(id).ok_or(RErr::NoType(id))?;
        let k = match def {
            Def::Compact(t) => {
                let mut n = self.go(*t, true, depth + 1)?;
                n.via = Some(id);
                return Ok(n);
            }
            Def::Comp { fields, .. } => {
                if compact && fields.len() != 1 {
                    return Err(RErr::BadCompact);
                }
                K::Comp(self.many(fields.iter().map(|f| f.ty), compact, depth)?)
            }
            Def::Tuple(ts) => {
                if compact && ts.len() != 1 {
                    return Err(RErr::BadCompact);
                }
                K::Tuple(self.many(ts.iter().copied(), compact, depth)?)
            }
            Def::Prim(p) => {
                let p = *p;
                if compact && p.unsigned_bytes().is_none() {
                    return Err(RErr::BadCompact);
                }
                match p {
                    Prim::Bool => match self.take(1)?[0] {
                        0 => K::Bool(false),
                        1 => K::Bool(true),
                        _ => return Err(RErr::Bad("bool")),
                    },
                    Prim::Char => {
                        let b = self.take(4)?;
                        let n = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
                        K::Char(char::from_u32(n).ok_or(RErr::Bad("char"))?)
                    }
                    Prim::Str => {
                        let n = self.compact(4)?;
                        self.max_len = self.max_len.max(n);
                        let off = self.pos;
                        let b = self.take(n as usize)?;
                        K::Str { off, s: std::str::from_utf8(b).ok().map(|s| s.to_string()) }
                    }
                    Prim::U256 | Prim::I256 => {
                        let b = self.take(32)?;
                        let mut a = [0u8; 32];
                        a.copy_from_slice(b);
                        K::B32(p, a)
                    }
                    _ => {
                        if let Some(w) = p.unsigned_bytes() {
                            let n = if compact {
                                self.compact(w)?
                            } else {
                                let mut x = 0u128;
                                for (i, v) in self.take(w)?.iter().enumerate() {
                                    x |= (*v as u128) << (8 * i);
                                }
                                x
                            };
                            K::U(p, n)
                        } else {
                            let w = p.signed_bytes().unwrap();
                            let mut x = 0u128;
                            for (i, v) in self.take(w)?.iter().enumerate() {
                                x |= (*v as u128) << (8 * i);
                            }
                            let sh = 128 - 8 * w;
                            K::I(p, ((x << sh) as i128) >> sh)
                        }
                    }
                }
            }
            _ if compact => return Err(RErr::BadCompact),
            Def::Var { variants, .. } => {
                let idx = self.take(1)?[0];
                let v = variants.iter().position(|v| v.index == idx).ok_or(RErr::Bad("variant"))?;
                let fields = self.many(variants[v].fields.iter().map(|f| f.ty), false, depth)?;
                K::Var { v, fields }
            }
            Def::Seq(t) => {
                let n = self.compact(8)?;
                self.max_len = self.max_len.max(n);
                let body = self.pos;
                let mut items = vec![];
                let mut i = 0u128;
                while i < n {
                    items.push(self.go(*t, false, depth + 1)?);
                    i += 1;
                }
                K::Seq { body, items }
            }
            Def::Array(t, n) => {
                let mut items = vec![];
                for _ in 0..*n {
                    items.push(self.go(*t, false, depth + 1)?);
                }
                K::Arr(items)
            }
            Def::Bits(f) => {
                let n = self.compact(4)? as usize;
                self.max_len = self.max_len.max(n as u128);
                let bits_per = f.store * 8;
                let words = n.div_ceil(bits_per);
                let data = self.take(words * f.store)?;
                self.steps += n as u64 / 64;
                let mut bits = Vec::with_capacity(n);
                for i in 0..n {
                    let (w, b) = (i / bits_per, i % bits_per);
                    // bit b of the word in the given order; words are little endian
                    let b = if f.msb { bits_per - 1 - b } else { b };
                    bits.push(data[w * f.store + b / 8] >> (b % 8) & 1 == 1);
                }
                K::Bits(bits)
            }
        };
        Ok(Node { ty: id, via: None, start, end: self.pos, k })
    }
}
pub fn refdec(model: &Model, id: Id, input: &[u8]) -> Result<Node, RErr> {
    RefDec::new(model, input).decode(id)
}

/// Random values.
#[derive(Clone, Debug)]
pub struct ValOpts {
    /// rough limit on the number of nodes
    pub budget: usize,
    /// lists this long now and then (for cheap elements)
    pub long_lists: bool,
}
impl Default for ValOpts {
    fn default() -> Self {
        ValOpts { budget: 400, long_lists: true }
    }
}
/// An integer of at most `bits` bits, biased to boundaries of all the narrower widths.
pub fn gen_uint(r: &mut Rng, bits: u32) -> u128 {
    let max = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let n = match r.below(8) {
        0 => 0,
        1 => r.below(300) as u128,
        2..=4 => {
            // near a power of two
            let e = r.below(bits as usize + 1) as u32;
            let p = if e == 128 { 0 } else { 1u128 << e };
            let d = r.below(4) as u128;
            if r.chance(1, 2) { p.wrapping_add(d) } else { p.wrapping_sub(d + 1) }
        }
        5 => {
            // boundary of a compact mode or an integer width
            let e = *r.pick(&[6u32, 7, 8, 14, 15, 16, 30, 31, 32, 56, 62, 63, 64, 96, 120, 127]);
            (1u128 << e).wrapping_add(r.below(3) as u128).wrapping_sub(1)
        }
        6 => max - r.below(3) as u128,
        _ => {
            let b = r.range(1, bits as usize) as u32;
            r.u128() >> (128 - b)
        }
    };
    n & max
}
pub fn gen_int(r: &mut Rng, bits: u32) -> i128 {
    let n = gen_uint(r, bits);
    let n = if r.chance(1, 3) { n.wrapping_neg() } else { n };
    let sh = 128 - bits;
    ((n << sh) as i128) >> sh
}
pub fn gen_string(r: &mut Rng) -> String {
    let n = match r.below(30) {
        0..=3 => 0,
        4..=20 => r.range(1, 12),
        21..=26 => r.range(13, 70),
        27 => *r.pick(&[62, 63, 64, 65, 66, 255, 256]),
        28 => r.range(100, 400),
        _ => r.range(16380, 16390),
    };
    if n > 400 {
        // exactly n bytes, to straddle the compact length mode boundary
        return "x".repeat(n);
    }
    let mut s = String::new();
    while s.len() < n {
        s.push(*r.pick(&['a', 'b', '0', ' ', 'é', 'ß', '€', '名', '\u{0}', '\u{7f}', '😀', '\u{fffd}', 'z']));
    }
    s
}
pub fn gen_char(r: &mut Rng) -> char {
    loop {
        let n = match r.below(5) {
            0 => r.below(128) as u32,
            1 => *r.pick(&[0u32, 0x7f, 0x80, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff]),
            _ => r.next() as u32 % 0x110000,
        };
        if let Some(c) = char::from_u32(n) {
            return c;
        }
    }
}
pub struct Gen<'a, 'r> {
    pub model: &'a Model,
    pub r: &'r mut Rng,
    pub left: isize,
    pub out: Vec<u8>,
    pub sizes: Vec<Option<u64>>,
    pub long_lists: bool,
    /// preferred list length / bias per type id
    pub hints: &'a Hints,
    depth: usize,
}
/// Side information for the value generator, per type id.
#[derive(Clone, Debug, Default)]
pub struct Hints {
    pub len: std::collections::HashMap<Id, usize>,
    /// number of bits values of this integer type should mostly have, and whether they should be non-negative and non-zero
    pub num: std::collections::HashMap<Id, NumHint>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct NumHint {
    pub bits: u32,
    pub signed: bool,
    pub nonzero: bool,
}
/// A random value of the type: its tree and its encoding. None where the type has no finite value (or none was found).
pub fn gen_value(r: &mut Rng, model: &Model, id: Id, o: &ValOpts) -> Option<(Node, Vec<u8>)> {
    gen_value_hinted(r, model, id, o, &Hints::default())
}
pub fn gen_value_hinted(r: &mut Rng, model: &Model, id: Id, o: &ValOpts, hints: &Hints) -> Option<(Node, Vec<u8>)> {
    let sizes = min_sizes(model);
    let mut g =
        Gen { model, r, left: o.budget as isize, out: vec![], sizes, long_lists: o.long_lists, hints, depth: 0 };
    let n = g.go(id, false)?;
    if g.out.len() > 400_000 {
        return None;
    }
    Some((n, g.out))
}
impl<'a, 'r> Gen<'a, 'r> {
    fn size(&self, id: Id) -> Option<u64> {
        self.sizes.get(id).copied().flatten()
    }
    fn many(&mut self, ids: &mut dyn Iterator<Item = Id>, compact: bool) -> Option<Vec<Node>> {
        let mut v = vec![];
        for t in ids {
            v.push(self.go(t, compact)?);
        }
        Some(v)
    }
    fn num_bits(&mut self, id: Id, bits: u32, signed_src: bool) -> (u128, bool) {
        // magnitude and sign
        if let Some(h) = self.hints.num.get(&id).copied() {
            if self.r.chance(3, 4) {
                let cap = bits - signed_src as u32;
                let b = if h.signed { h.bits - 1 } else { h.bits }.min(cap);
                let mut n = gen_uint(self.r, b.max(1));
                if h.nonzero && n == 0 {
                    n = 1;
                }
                let neg = h.signed && signed_src && self.r.chance(1, 2);
                return (n, neg);
            }
        }
        if signed_src {
            let i = gen_int(self.r, bits);
            (i.unsigned_abs(), i < 0)
        } else {
            (gen_uint(self.r, bits), false)
        }
    }
    pub fn go(&mut self, id: Id, compact: bool) -> Option<Node> {
        self.left -= 1;
        if self.left < -20_000 || self.depth > 120 || self.out.len() > 400_000 {
            return None;
        }
        self.depth += 1;
        let n = self.go2(id, compact);
        self.depth -= 1;
        n
    }
    fn go2(&mut self, id: Id, compact: bool) -> Option<Node> {
        let start = self.out.len();
        let model = self.model;
        let k = match model.def(id)? {
            Def::Compact(t) => {
                let mut n = self.go(*t, true)?;
                n.via = Some(id);
                return Some(n);
            }
            Def::Comp { fields, .. } => {
                if compact && fields.len() != 1 {
                    return None;
                }
                K::Comp(self.many(&mut fields.iter().map(|f| f.ty), compact)?)
            }
            Def::Tuple(ts) => {
                if compact && ts.len() != 1 {
                    return None;
                }
                K::Tuple(self.many(&mut ts.iter().copied(), compact)?)
            }
            Def::Prim(p) => {
                let p = *p;
                if compact && p.unsigned_bytes().is_none() {
                    return None;
                }
                match p {
                    Prim::Bool => {
                        let b = self.r.chance(1, 2);
                        self.out.push(b as u8);
                        K::Bool(b)
                    }
                    Prim::Char => {
                        let c = gen_char(self.r);
                        self.out.extend_from_slice(&(c as u32).to_le_bytes());
                        K::Char(c)
                    }
                    Prim::Str => {
                        let s = gen_string(self.r);
                        enc_compact(s.len() as u128, &mut self.out);
                        let off = self.out.len();
                        self.out.extend_from_slice(s.as_bytes());
                        K::Str { off, s: Some(s) }
                    }
                    Prim::U256 | Prim::I256 => {
                        let b = self.r.bytes(32);
                        let mut a = [0u8; 32];
                        a.copy_from_slice(&b);
                        self.out.extend_from_slice(&a);
                        K::B32(p, a)
                    }
                    _ => {
                        if let Some(w) = p.unsigned_bytes() {
                            let (n, _) = self.num_bits(id, 8 * w as u32, false);
                            if compact {
                                enc_compact(n, &mut self.out);
                            } else {
                                self.out.extend_from_slice(&n.to_le_bytes()[..w]);
                            }
                            K::U(p, n)
                        } else {
                            let w = p.signed_bytes().unwrap();
                            let (m, neg) = self.num_bits(id, 8 * w as u32, true);
                            let n = if neg { (m as i128).wrapping_neg() } else { m as i128 };
                            self.out.extend_from_slice(&n.to_le_bytes()[..w]);
                            K::I(p, n)
                        }
                    }
                }
            }
            _ if compact => return None,
            Def::Var { variants, .. } => {
                // variants that have finite values; the smallest one when we must come to an end
                let mut ok: Vec<(u64, usize)> = vec![];
                for (i, v) in variants.iter().enumerate() {
                    if variants[..i].iter().any(|w| w.index == v.index) {
                        continue;
                    }
                    let mut s = 0u64;
                    if v.fields.iter().all(|f| match self.size(f.ty) {
                        Some(x) => {
                            s = s.saturating_add(x);
                            true
                        }
                        None => false,
                    }) {
                        ok.push((s, i));
                    }
                }
                let tight = self.left <= 0 || self.depth > 40;
                let v = if tight { ok.iter().min()?.1 } else if ok.is_empty() { return None } else { self.r.pick(&ok).1 };
                self.out.push(variants[v].index);
                let fields = self.many(&mut variants[v].fields.iter().map(|f| f.ty), false)?;
                K::Var { v, fields }
            }
            Def::Seq(t) => {
                let n = self.list_len(id, *t);
                enc_compact(n as u128, &mut self.out);
                let body = self.out.len();
                let items = self.many(&mut std::iter::repeat(*t).take(n), false)?;
                K::Seq { body, items }
            }
            Def::Array(t, n) => K::Arr(self.many(&mut std::iter::repeat(*t).take(*n as usize), false)?),
            Def::Bits(f) => {
                let n = match self.r.below(10) {
                    0 => 0,
                    1..=4 => self.r.range(1, 20),
                    5..=7 => {
                        let w = f.store * 8 * self.r.range(1, 3);
                        (w + self.r.below(3)).saturating_sub(1)
                    }
                    8 => self.r.range(60, 140),
                    _ => *self.r.pick(&[63, 64, 65, 16383, 16384, 16385]),
                };
                enc_compact(n as u128, &mut self.out);
                let per = f.store * 8;
                let words = n.div_ceil(per);
                let at = self.out.len();
                // padding bits are arbitrary
                let fill = if self.r.chance(1, 2) { vec![0u8; words * f.store] } else { self.r.bytes(words * f.store) };
                self.out.extend_from_slice(&fill);
                let mut bits = vec![];
                for i in 0..n {
                    let v = self.r.next() & 1 == 1;
                    let (w, b) = (i / per, i % per);
                    let b = if f.msb { per - 1 - b } else { b };
                    let byte = &mut self.out[at + w * f.store + b / 8];
                    if v {
                        *byte |= 1 << (b % 8);
                    } else {
                        *byte &= !(1 << (b % 8));
                    }
                    bits.push(v);
                }
                K::Bits(bits)
            }
        };
        Some(Node { ty: id, via: None, start, end: self.out.len(), k })
    }
    fn list_len(&mut self, id: Id, t: Id) -> usize {
        let Some(min) = self.size(t) else { return 0 };
        if let Some(h) = self.hints.len.get(&id) {
            if self.r.chance(5, 6) {
                return *h;
            }
        }
        if self.left <= 0 || self.depth > 40 {
            return 0;
        }
        let n = match self.r.below(12) {
            0..=1 => 0,
            2..=4 => 1,
            5..=8 => self.r.range(2, 5),
            9..=10 => self.r.range(3, 12),
            _ => {
                let cheap = min <= 2 && matches!(self.model.def(t), Some(Def::Prim(_)) | Some(Def::Compact(_)));
                if cheap && self.long_lists && self.r.chance(1, 8) {
                    *self.r.pick(&[16383, 16384, 16385])
                } else if cheap {
                    *self.r.pick(&[62, 63, 64, 65, 255, 256])
                } else {
                    self.r.range(5, 30)
                }
            }
        };
        if n > 300 {
            n
        } else {
            n.min(self.left.max(1) as usize)
        }
    }
}
/// Spoil an encoding.
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    let times = if r.chance(3, 4) { 1 } else { r.range(2, 5) };
    for _ in 0..times {
        let n = b.len();
        match r.below(12) {
            0 | 1 => {
                let k = r.below(n + 1);
                b.truncate(k);
            }
            2..=4 if n > 0 => {
                let k = r.below(n);
                b[k] ^= 1 << r.below(8);
            }
            5 | 6 if n > 0 => {
                let k = r.below(n);
                b[k] = *r.pick(&[0, 1, 2, 3, 4, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff, 0x0b, 0x13, 0x33]);
            }
            7 => {
                // a length that nothing backs, possibly not minimal
                let k = r.below(n + 1);
                let mut c = vec![];
                match r.below(4) {
                    0 => enc_compact(gen_uint(r, 64), &mut c),
                    1 => enc_compact(gen_uint(r, 32), &mut c),
                    2 => {
                        let x = (r.next() as u16 & 0xff) | 1;
                        c.extend_from_slice(&x.to_le_bytes());
                    }
                    _ => {
                        c.push((r.below(64) as u8) << 2 | 3);
                        let l = r.below(20);
                        c.extend(r.bytes(l));
                    }
                }
                if r.chance(1, 2) {
                    let end = (k + c.len()).min(b.len());
                    b.splice(k..end, c);
                } else {
                    b.splice(k..k, c);
                }
            }
            8 => {
                let k = r.below(n + 1);
                let l = r.range(1, 4);
                let x = r.bytes(l);
                b.splice(k..k, x);
            }
            9 if n > 0 => {
                let k = r.below(n);
                b.remove(k);
            }
            10 => {
                let l = r.range(1, 12);
                let x = r.bytes(l);
                b.extend(x);
            }
            _ => {
                let l = r.below(40);
                *b = r.bytes(l);
            }
        }
    }
}
/// The same value stored with nothing compact, for the model given by [`Model::plain`].
pub fn encode_plain(n: &Node, orig: &[u8], out: &mut Vec<u8>) {
    match &n.k {
        K::U(p, x) => out.extend_from_slice(&x.to_le_bytes()[..p.unsigned_bytes().unwrap()]),
        K::Seq { body, items } => {
            out.extend_from_slice(&orig[n.start..*body]);
            items.iter().for_each(|x| encode_plain(x, orig, out));
        }
        K::Arr(v) | K::Tuple(v) | K::Comp(v) => v.iter().for_each(|x| encode_plain(x, orig, out)),
        K::Var { fields, .. } => {
            out.push(orig[n.start]);
            fields.iter().for_each(|x| encode_plain(x, orig, out));
        }
        _ => out.extend_from_slice(&orig[n.start..n.end]),
    }
}
