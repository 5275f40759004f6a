//! Well-formed values with exactly one thing wrong.
use crate::model::*;
use crate::resolvers::FAULT;
use crate::run::Case;
use crate::val::*;
use scale_decode::visitor::DecodeError;

/// The one thing that is wrong.
#[derive(Clone, Debug, PartialEq)]
pub enum Cause {
    Variant(u8),
    Char(u32),
    Utf8,
    /// the number itself is not a valid encoding
    Codec,
    Eof,
    Compact,
    NotFound(String),
    Resolver,
}
impl Cause {
    pub fn name(&self) -> &'static str {
        match self {
            Cause::Variant(_) => "unknown variant index",
            Cause::Char(_) => "invalid char",
            Cause::Utf8 => "invalid UTF-8",
            Cause::Codec => "invalid bool or compact",
            Cause::Eof => "input ran out",
            Cause::Compact => "not compact encodable",
            Cause::NotFound(_) => "unknown type id",
            Cause::Resolver => "resolver failed",
        }
    }
    pub fn is(&self, d: &DecodeError) -> bool {
        match (self, d) {
            (Cause::Variant(a), DecodeError::VariantNotFound(b)) => a == b,
            (Cause::Char(a), DecodeError::InvalidChar(b)) => a == b,
            (Cause::Utf8, DecodeError::InvalidStr(_)) => true,
            (Cause::Codec, DecodeError::CodecError(_)) => true,
            (Cause::Eof, DecodeError::NotEnoughInput | DecodeError::CodecError(_)) => true,
            (Cause::Compact, DecodeError::CannotDecodeCompactIntoType) => true,
            (Cause::NotFound(id), DecodeError::TypeIdNotFound(s)) => s.contains(id.as_str()),
            (Cause::Resolver, DecodeError::TypeResolvingError(s)) => s.contains(FAULT),
            _ => false,
        }
    }
}
/// Bytes with one value spoiled, what is wrong with them, and the way to that value (child by child).
pub fn faults(c: &mut Case, m: &Model, n: &Node, b: &[u8]) -> Vec<(Vec<u8>, Cause, Vec<usize>)> {
    let mut sites: Vec<(&Node, bool, Vec<usize>)> = vec![];
    fn walk<'a>(n: &'a Node, compact: bool, at: &mut Vec<usize>, out: &mut Vec<(&'a Node, bool, Vec<usize>)>) {
        let compact = compact || n.via.is_some();
        out.push((n, compact, at.clone()));
        let down = compact && matches!(n.k, K::Comp(_) | K::Tuple(_));
        for (i, k) in n.kids().iter().enumerate() {
            at.push(i);
            walk(k, down, at, out);
            at.pop();
        }
    }
    walk(n, false, &mut vec![], &mut sites);
    let mut out = vec![];
    let put = |at: usize, x: &[u8]| {
        let mut v = b.to_vec();
        v[at..at + x.len()].copy_from_slice(x);
        v
    };
    // a number written longer than need be
    let long = |at: usize| -> Option<Vec<u8>> {
        let k = match b[at] & 3 {
            0 => return None,
            1 => 1,
            2 => 3,
            _ => 4 + (b[at] >> 2) as usize,
        };
        Some(put(at + 1, &vec![0; k]))
    };
    for _ in 0..6 {
        let (s, compact, way) = c.rng.pick(&sites).clone();
        match (&s.k, m.def(s.ty)) {
            (K::Bool(_), _) => {
                let x = 2 + c.rng.below(254) as u8;
                out.push((put(s.start, &[x]), Cause::Codec, way.clone()));
            }
            (K::Char(_), _) => {
                let x = match c.rng.below(3) {
                    0 => 0xD800 + c.rng.below(0x800) as u32,
                    1 => 0x110000 + c.rng.below(256) as u32,
                    _ => u32::MAX - c.rng.below(1 << 30) as u32,
                };
                out.push((put(s.start, &x.to_le_bytes()), Cause::Char(x), way.clone()));
            }
            (K::Str { off, s: Some(t) }, _) => {
                if let (true, Some(v)) = (c.rng.chance(1, 3), long(s.start)) {
                    out.push((v, Cause::Codec, way.clone()));
                } else if !t.is_empty() {
                    let at = off + c.rng.below(t.len());
                    out.push((put(at, &[0xFF]), Cause::Utf8, way.clone()));
                }
            }
            (K::Var { .. }, Some(Def::Var { variants, .. })) => {
                let start = c.rng.below(256);
                if let Some(x) = (0..256).map(|k| ((start + k) % 256) as u8).find(|x| variants.iter().all(|v| v.index != *x)) {
                    out.push((put(s.start, &[x]), Cause::Variant(x), way.clone()));
                }
            }
            (K::Seq { .. } | K::Bits(_), _) => {
                if let Some(v) = long(s.start) {
                    out.push((v, Cause::Codec, way.clone()));
                }
            }
            (K::U(p, _), _) if compact => match p.unsigned_bytes() {
                Some(w) if w < 16 && c.rng.chance(1, 2) => {
                    let mut v = b[..s.start].to_vec();
                    enc_compact(1u128 << (8 * w), &mut v);
                    v.extend_from_slice(&b[s.end..]);
                    out.push((v, Cause::Codec, way.clone()));
                }
                _ => {
                    if let Some(v) = long(s.start) {
                        out.push((v, Cause::Codec, way.clone()));
                    }
                }
            },
            _ => {}
        }
    }
    for _ in 0..3 {
        if !b.is_empty() {
            // cut anywhere, or right inside some value
            let at = if c.rng.chance(1, 2) {
                c.rng.below(b.len())
            } else {
                let s = c.rng.pick(&sites).0;
                (s.start + c.rng.below((s.end - s.start).clamp(1, 40))).min(b.len() - 1)
            };
            // the innermost value that is cut short, the first of them
            let way = sites.iter().filter(|(s, ..)| s.start <= at && at < s.end).max_by_key(|x| x.2.len()).map(|x| x.2.clone());
            out.push((b[..at].to_vec(), Cause::Eof, way.unwrap_or_default()));
        }
    }
    out
}
/// The value where nothing can be decoded at the end of the way.
pub fn poisoned(n: &Node, way: &[usize]) -> Node {
    let mut n = n.clone();
    match way.split_first() {
        None => n.k = K::Str { off: n.start, s: None },
        Some((i, rest)) => match &mut n.k {
            K::Seq { items: x, .. } | K::Arr(x) | K::Tuple(x) | K::Comp(x) | K::Var { fields: x, .. } => x[*i] = poisoned(&x[*i], rest),
            _ => unreachable!(),
        },
    }
    n
}
