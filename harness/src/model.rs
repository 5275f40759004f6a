//! Type model: a small registry language from which both a `PortableRegistry` and our own resolver are made.
use crate::rng::Rng;
use scale_decode::ext::scale_type_resolver as str_;
use str_::{BitsOrderFormat, BitsStoreFormat, Primitive};

pub type Id = usize;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Prim {
    Bool,
    Char,
    Str,
    U8,
    U16,
    U32,
    U64,
    U128,
    U256,
    I8,
    I16,
    I32,
    I64,
    I128,
    I256,
}
pub const PRIMS: [Prim; 15] = [
    Prim::Bool,
    Prim::Char,
    Prim::Str,
    Prim::U8,
    Prim::U16,
    Prim::U32,
    Prim::U64,
    Prim::U128,
    Prim::U256,
    Prim::I8,
    Prim::I16,
    Prim::I32,
    Prim::I64,
    Prim::I128,
    Prim::I256,
];
pub const UNSIGNED: [Prim; 5] = [Prim::U8, Prim::U16, Prim::U32, Prim::U64, Prim::U128];
pub const SIGNED: [Prim; 5] = [Prim::I8, Prim::I16, Prim::I32, Prim::I64, Prim::I128];
impl Prim {
    pub fn unsigned_bytes(self) -> Option<usize> {
        Some(match self {
            Prim::U8 => 1,
            Prim::U16 => 2,
            Prim::U32 => 4,
            Prim::U64 => 8,
            Prim::U128 => 16,
            _ => return None,
        })
    }
    pub fn signed_bytes(self) -> Option<usize> {
        Some(match self {
            Prim::I8 => 1,
            Prim::I16 => 2,
            Prim::I32 => 4,
            Prim::I64 => 8,
            Prim::I128 => 16,
            _ => return None,
        })
    }
    pub fn resolver(self) -> Primitive {
        match self {
            Prim::Bool => Primitive::Bool,
            Prim::Char => Primitive::Char,
            Prim::Str => Primitive::Str,
            Prim::U8 => Primitive::U8,
            Prim::U16 => Primitive::U16,
            Prim::U32 => Primitive::U32,
            Prim::U64 => Primitive::U64,
            Prim::U128 => Primitive::U128,
            Prim::U256 => Primitive::U256,
            Prim::I8 => Primitive::I8,
            Prim::I16 => Primitive::I16,
            Prim::I32 => Primitive::I32,
            Prim::I64 => Primitive::I64,
            Prim::I128 => Primitive::I128,
            Prim::I256 => Primitive::I256,
        }
    }
    fn info(self) -> scale_info::TypeDefPrimitive {
        use scale_info::TypeDefPrimitive as P;
        match self {
            Prim::Bool => P::Bool,
            Prim::Char => P::Char,
            Prim::Str => P::Str,
            Prim::U8 => P::U8,
            Prim::U16 => P::U16,
            Prim::U32 => P::U32,
            Prim::U64 => P::U64,
            Prim::U128 => P::U128,
            Prim::U256 => P::U256,
            Prim::I8 => P::I8,
            Prim::I16 => P::I16,
            Prim::I32 => P::I32,
            Prim::I64 => P::I64,
            Prim::I128 => P::I128,
            Prim::I256 => P::I256,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct FieldDef {
    pub name: Option<String>,
    pub ty: Id,
}
#[derive(Clone, Debug, PartialEq)]
pub struct VariantDef {
    pub name: String,
    pub index: u8,
    pub fields: Vec<FieldDef>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct BitFmt {
    /// storage word size in bytes: 1, 2, 4 or 8
    pub store: usize,
    pub msb: bool,
}
pub const BIT_FMTS: [BitFmt; 8] = [
    BitFmt { store: 1, msb: false },
    BitFmt { store: 2, msb: false },
    BitFmt { store: 4, msb: false },
    BitFmt { store: 8, msb: false },
    BitFmt { store: 1, msb: true },
    BitFmt { store: 2, msb: true },
    BitFmt { store: 4, msb: true },
    BitFmt { store: 8, msb: true },
];
impl BitFmt {
    pub fn resolver(self) -> (BitsStoreFormat, BitsOrderFormat) {
        (
            match self.store {
                1 => BitsStoreFormat::U8,
                2 => BitsStoreFormat::U16,
                4 => BitsStoreFormat::U32,
                _ => BitsStoreFormat::U64,
            },
            if self.msb { BitsOrderFormat::Msb0 } else { BitsOrderFormat::Lsb0 },
        )
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Def {
    Comp { path: Vec<String>, fields: Vec<FieldDef> },
    Var { path: Vec<String>, variants: Vec<VariantDef> },
    Seq(Id),
    Array(Id, u32),
    Tuple(Vec<Id>),
    Prim(Prim),
    Compact(Id),
    Bits(BitFmt),
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Model {
    pub defs: Vec<Def>,
}

impl Model {
    pub fn new() -> Model {
        Model::default()
    }
    pub fn add(&mut self, d: Def) -> Id {
        self.defs.push(d);
        self.defs.len() - 1
    }
    pub fn prim(&mut self, p: Prim) -> Id {
        // share primitives now and then would be fine too; duplicates are legal in a registry
        for (i, d) in self.defs.iter().enumerate() {
            if *d == Def::Prim(p) {
                return i;
            }
        }
        self.add(Def::Prim(p))
    }
    pub fn comp(&mut self, path: &[&str], fields: Vec<(Option<&str>, Id)>) -> Id {
        self.add(Def::Comp {
            path: path.iter().map(|s| s.to_string()).collect(),
            fields: fields.into_iter().map(|(n, ty)| FieldDef { name: n.map(|s| s.to_string()), ty }).collect(),
        })
    }
    pub fn def(&self, id: Id) -> Option<&Def> {
        self.defs.get(id)
    }
    /// The registry with model id `i` stored under portable id `map[i]` (a permutation of 0..n; aux types go behind).
    pub fn portable_with(&self, map: &[usize]) -> scale_info::PortableRegistry {
        use scale_info::{form::PortableForm, Field, Path, PortableType, Type, TypeDef, Variant};
        let n = self.defs.len();
        assert_eq!(map.len(), n);
        let mut out: Vec<Option<Type<PortableForm>>> = vec![None; n];
        // two order types and four store types for bit sequences, behind the others
        let order_id = |msb: bool| (n + msb as usize) as u32;
        let store_id = |s: usize| (n + 2 + s.trailing_zeros() as usize) as u32;
        // ids that dangle in the model (>= n) must dangle in the registry as well
        let m = |id: Id| -> u32 {
            if id < n {
                map[id] as u32
            } else {
                (id + 100_000) as u32
            }
        };
        let path = |p: &Vec<String>| Path::<PortableForm> { segments: p.clone() };
        let fields = |fs: &Vec<FieldDef>| -> Vec<Field<PortableForm>> {
            fs.iter().map(|f| Field::new(f.name.clone(), m(f.ty).into(), None, vec![])).collect()
        };
        let no_path = || Path::<PortableForm> { segments: vec![] };
        let mk = |p: Path<PortableForm>, d: TypeDef<PortableForm>| Type::new(p, vec![], d, vec![]);
        for (i, d) in self.defs.iter().enumerate() {
            let ty = match d {
                Def::Comp { path: p, fields: fs } => {
                    mk(path(p), TypeDef::Composite(scale_info::TypeDefComposite::new(fields(fs))))
                }
                Def::Var { path: p, variants } => mk(
                    path(p),
                    TypeDef::Variant(scale_info::TypeDefVariant::new(
                        variants.iter().map(|v| Variant::new(v.name.clone(), fields(&v.fields), v.index, vec![])),
                    )),
                ),
                Def::Seq(t) => mk(no_path(), TypeDef::Sequence(scale_info::TypeDefSequence::new(m(*t).into()))),
                Def::Array(t, l) => mk(no_path(), TypeDef::Array(scale_info::TypeDefArray::new(*l, m(*t).into()))),
                Def::Tuple(ts) => mk(
                    no_path(),
                    TypeDef::Tuple(scale_info::TypeDefTuple::new_portable(ts.iter().map(|t| m(*t).into()))),
                ),
                Def::Prim(p) => mk(no_path(), TypeDef::Primitive(p.info())),
                Def::Compact(t) => mk(no_path(), TypeDef::Compact(scale_info::TypeDefCompact::new(m(*t).into()))),
                Def::Bits(f) => mk(
                    no_path(),
                    TypeDef::BitSequence(scale_info::TypeDefBitSequence::new_portable(
                        store_id(f.store).into(),
                        order_id(f.msb).into(),
                    )),
                ),
            };
            out[map[i]] = Some(ty);
        }
        let mut types: Vec<Type<PortableForm>> = out.into_iter().map(|t| t.expect("map is a permutation")).collect();
        for name in ["Lsb0", "Msb0"] {
            types.push(mk(
                Path { segments: vec!["bitvec".into(), "order".into(), name.to_string()] },
                TypeDef::Composite(scale_info::TypeDefComposite::new(Vec::<Field<PortableForm>>::new())),
            ));
        }
        for p in [Prim::U8, Prim::U16, Prim::U32, Prim::U64] {
            types.push(mk(no_path(), TypeDef::Primitive(p.info())));
        }
        scale_info::PortableRegistry {
            types: types.into_iter().enumerate().map(|(i, t)| PortableType::new(i as u32, t)).collect(),
        }
    }
    pub fn portable(&self) -> scale_info::PortableRegistry {
        self.portable_with(&(0..self.defs.len()).collect::<Vec<_>>())
    }
    /// Compact description of a type, for reports.
    pub fn show(&self, id: Id) -> String {
        fn go(m: &Model, id: Id, depth: usize, out: &mut String) {
            if depth == 0 {
                out.push_str("..");
                return;
            }
            let fields = |fs: &Vec<FieldDef>, out: &mut String| {
                for (i, f) in fs.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    if i > 8 {
                        out.push_str("..");
                        break;
                    }
                    if let Some(n) = &f.name {
                        out.push_str(n);
                        out.push(':');
                    }
                    go(m, f.ty, depth - 1, out);
                }
            };
            match m.def(id) {
                None => out.push_str(&format!("?{id}")),
                Some(Def::Comp { path, fields: fs }) => {
                    out.push_str(&format!("#{id}{}{{", path.last().cloned().unwrap_or_default()));
                    fields(fs, out);
                    out.push('}');
                }
                Some(Def::Var { variants, .. }) => {
                    out.push_str(&format!("#{id}<"));
                    for (i, v) in variants.iter().enumerate() {
                        if i > 0 {
                            out.push('|');
                        }
                        if i > 5 {
                            out.push_str("..");
                            break;
                        }
                        out.push_str(&format!("{}={}(", v.name, v.index));
                        fields(&v.fields, out);
                        out.push(')');
                    }
                    out.push('>');
                }
                Some(Def::Seq(t)) => {
                    out.push_str("Seq[");
                    go(m, *t, depth - 1, out);
                    out.push(']');
                }
                Some(Def::Array(t, n)) => {
                    out.push_str("Arr[");
                    go(m, *t, depth - 1, out);
                    out.push_str(&format!(";{n}]"));
                }
                Some(Def::Tuple(ts)) => {
                    out.push('(');
                    for t in ts {
                        go(m, *t, depth - 1, out);
                        out.push(',');
                    }
                    out.push(')');
                }
                Some(Def::Prim(p)) => out.push_str(&format!("{p:?}")),
                Some(Def::Compact(t)) => {
                    out.push_str("Compact<");
                    go(m, *t, depth - 1, out);
                    out.push('>');
                }
                Some(Def::Bits(f)) => out.push_str(&format!("Bits{}{}", f.store * 8, if f.msb { "M" } else { "L" })),
            }
        }
        let mut s = String::new();
        go(self, id, 6, &mut s);
        s
    }
}

/// Options for random registries.
#[derive(Clone, Debug)]
pub struct GenOpts {
    /// number of types to aim for
    pub types: usize,
    /// dangling ids, compact on arbitrary types: registries nobody sane publishes
    pub hostile: bool,
    /// recursion through sequences, options and variants
    pub recursive: bool,
    /// allow zero-sized element types in sequences
    pub zst_lists: bool,
}
impl Default for GenOpts {
    fn default() -> Self {
        GenOpts { types: 12, hostile: false, recursive: true, zst_lists: true }
    }
}
const NAMES: [&str; 24] = [
    "a", "b", "c", "value", "index", "who", "amount", "hash", "inner", "x", "y", "é", "long_field_name_number_one", "r#type",
    "Some", "None", "Ok", "Err", "0", "len", "data", "flag", "", "名",
];
pub fn name(r: &mut Rng) -> String {
    NAMES[r.below(NAMES.len())].to_string()
}
/// A list of field names: distinct if named. All named, all unnamed, or (rarely) mixed.
pub fn field_names(r: &mut Rng, n: usize) -> Vec<Option<String>> {
    let mode = r.below(10);
    let mut used = std::collections::HashSet::new();
    (0..n)
        .map(|i| {
            let named = match mode {
                0..=5 => true,
                6..=8 => false,
                _ => r.chance(1, 2),
            };
            if !named {
                return None;
            }
            let mut s = name(r);
            while !used.insert(s.clone()) {
                s = format!("{s}{i}");
            }
            Some(s)
        })
        .collect()
}
fn few(r: &mut Rng) -> usize {
    match r.below(20) {
        0..=2 => 0,
        3..=8 => 1,
        9..=12 => 2,
        13..=15 => 3,
        16..=17 => r.range(4, 7),
        18 => r.range(8, 16),
        _ => r.range(15, 20),
    }
}
/// Random path for a struct or enum type.
fn path(r: &mut Rng) -> Vec<String> {
    let n = match r.below(6) {
        0 => 0,
        1..=4 => r.range(1, 3),
        _ => r.range(4, 8),
    };
    (0..n).map(|_| name(r)).collect()
}
/// Smallest number of bytes a value of each type takes; None where no finite value exists.
pub fn min_sizes(m: &Model) -> Vec<Option<u64>> {
    let n = m.defs.len();
    let mut plain: Vec<Option<u64>> = vec![None; n];
    let mut compact: Vec<Option<u64>> = vec![None; n];
    // least fixpoint by iteration (types are few)
    for _ in 0..n + 2 {
        let mut changed = false;
        for i in 0..n {
            let (p, c) = {
                let get = |t: &Id| -> Option<u64> { plain.get(*t).copied().flatten() };
                let getc = |t: &Id| -> Option<u64> { compact.get(*t).copied().flatten() };
                let sum = |ids: &mut dyn Iterator<Item = Id>| -> Option<u64> {
                    let mut s = 0u64;
                    for t in ids {
                        s = s.saturating_add(get(&t)?);
                    }
                    Some(s)
                };
                match &m.defs[i] {
                    Def::Comp { fields, .. } => (
                        sum(&mut fields.iter().map(|f| f.ty)),
                        if fields.len() == 1 { getc(&fields[0].ty) } else { None },
                    ),
                    Def::Tuple(ts) => {
                        (sum(&mut ts.iter().copied()), if ts.len() == 1 { getc(&ts[0]) } else { None })
                    }
                    Def::Var { variants, .. } => {
                        let mut best = None;
                        let mut seen = std::collections::HashSet::new();
                        for v in variants {
                            if !seen.insert(v.index) {
                                continue;
                            }
                            if let Some(s) = sum(&mut v.fields.iter().map(|f| f.ty)) {
                                let s = s.saturating_add(1);
                                best = Some(best.map_or(s, |b: u64| b.min(s)));
                            }
                        }
                        (best, None)
                    }
                    Def::Seq(_) => (Some(1), None),
                    Def::Array(_, 0) => (Some(0), None),
                    Def::Array(t, l) => (get(t).map(|s| s.saturating_mul(*l as u64)), None),
                    Def::Prim(p) => {
                        let s = match p {
                            Prim::Bool | Prim::Str => 1,
                            Prim::Char => 4,
                            Prim::U256 | Prim::I256 => 32,
                            _ => p.unsigned_bytes().or(p.signed_bytes()).unwrap_or(1) as u64,
                        };
                        (Some(s), p.unsigned_bytes().map(|_| 1))
                    }
                    Def::Compact(t) => (getc(t), getc(t)),
                    Def::Bits(_) => (Some(1), None),
                }
            };
            if p != plain[i] || c != compact[i] {
                changed = true;
                plain[i] = p;
                compact[i] = c;
            }
        }
        if !changed {
            break;
        }
    }
    plain
}
/// True if decoding the type can recurse into itself without consuming input (an infinitely large type).
pub fn left_recursive(m: &Model) -> bool {
    // edges taken without consuming a byte: composite/tuple/array/compact fields (in order, through zero-sized ones -
    // conservatively: any field). Sequences and variants consume a byte first.
    let n = m.defs.len();
    let mut state = vec![0u8; n];
    fn go(m: &Model, i: usize, state: &mut Vec<u8>) -> bool {
        if i >= m.defs.len() || state[i] == 2 {
            return false;
        }
        if state[i] == 1 {
            return true;
        }
        state[i] = 1;
        let next: Vec<Id> = match &m.defs[i] {
            Def::Comp { fields, .. } => fields.iter().map(|f| f.ty).collect(),
            Def::Tuple(ts) => ts.clone(),
            Def::Array(t, n) if *n > 0 => vec![*t],
            Def::Compact(t) => vec![*t],
            _ => vec![],
        };
        let r = next.into_iter().any(|t| go(m, t, state));
        state[i] = 2;
        r
    }
    (0..n).any(|i| go(m, i, &mut state))
}
fn wide_def(r: &mut Rng, prims: &[Id]) -> Def {
    let k = *r.pick(&[127, 128, 255, 256, 257, 258, 300, 513]);
    match r.below(5) {
        0 => Def::Tuple((0..k).map(|_| *r.pick(prims)).collect()),
        1 => Def::Array(*r.pick(prims), k as u32),
        2 => {
            // every index there is
            let mut idx: Vec<u8> = (0..=255).collect();
            r.shuffle(&mut idx);
            idx.truncate(r.range(128, 256));
            Def::Var {
                path: path(r),
                variants: idx
                    .iter()
                    .map(|i| {
                        let fields = (0..r.below(3)).map(|_| FieldDef { name: None, ty: *r.pick(prims) }).collect();
                        VariantDef { name: format!("V{i}"), index: *i, fields }
                    })
                    .collect(),
            }
        }
        x => {
            let named = r.chance(2, 3);
            let fields: Vec<FieldDef> = (0..k).map(|i| FieldDef { name: named.then(|| format!("f{i}")), ty: *r.pick(prims) }).collect();
            if x == 3 {
                Def::Comp { path: path(r), fields }
            } else {
                Def::Var { path: path(r), variants: vec![VariantDef { name: "Wide".into(), index: r.next() as u8, fields }] }
            }
        }
    }
}
pub fn gen_model(r: &mut Rng, o: &GenOpts) -> Model {
    loop {
        let m = gen_model_once(r, o);
        if !left_recursive(&m) {
            return m;
        }
    }
}
fn gen_model_once(r: &mut Rng, o: &GenOpts) -> Model {
    let mut m = Model::new();
    let n = r.range(3.min(o.types), o.types);
    // now and then one with more fields, variants or items than a byte counts
    let wide = if n > 3 && r.chance(1, 40) { r.range(2, n - 1) } else { n };
    for i in 0..n {
        if i == wide {
            let prims: Vec<Id> = (0..i).filter(|t| matches!(m.defs[*t], Def::Prim(_))).collect();
            if !prims.is_empty() {
                let d = wide_def(r, &prims);
                m.add(d);
                continue;
            }
        }
        // Mostly refer to earlier types so that values stay finite; sometimes to any type (recursion).
        let back = |r: &mut Rng| -> Id {
            if o.hostile && r.chance(1, 40) {
                return n + r.below(5);
            }
            if i == 0 || (o.recursive && r.chance(1, 14)) {
                r.below(n)
            } else if r.chance(1, 2) {
                // favour recent types: deeper nesting
                i - 1 - r.below(i.min(3))
            } else {
                r.below(i)
            }
        };
        let d = match r.below(if i < 2 { 6 } else { 22 }) {
            0..=4 => Def::Prim(*r.pick(&PRIMS)),
            5 => Def::Bits(*r.pick(&BIT_FMTS)),
            6..=10 => {
                let k = few(r);
                let names = field_names(r, k);
                Def::Comp { path: path(r), fields: names.into_iter().map(|name| FieldDef { name, ty: back(r) }).collect() }
            }
            11..=14 => {
                let k = match r.below(10) {
                    0 => 0,
                    1..=2 => 1,
                    3..=7 => r.range(2, 4),
                    _ => r.range(5, 12),
                };
                let mut idx: Vec<u8> = (0..=255u8).collect();
                if r.chance(2, 3) {
                    r.shuffle(&mut idx);
                }
                let mut used = std::collections::HashSet::new();
                Def::Var {
                    path: path(r),
                    variants: (0..k)
                        .map(|j| {
                            let mut nm = name(r);
                            while !used.insert(nm.clone()) {
                                nm = format!("{nm}{j}");
                            }
                            let nf = few(r);
                            let names = field_names(r, nf);
                            VariantDef {
                                name: nm,
                                index: idx[j],
                                fields: names.into_iter().map(|name| FieldDef { name, ty: back(r) }).collect(),
                            }
                        })
                        .collect(),
                }
            }
            15..=16 => Def::Seq(back(r)),
            17 => Def::Array(back(r), *r.pick(&[0, 1, 2, 3, 4, 7, 16, 17, 32, 33])),
            18..=19 => {
                let k = few(r);
                Def::Tuple((0..k).map(|_| back(r)).collect())
            }
            20 => {
                if o.hostile && r.chance(1, 2) {
                    Def::Compact(back(r))
                } else {
                    // a compact of a legal type, if there is one: search backwards
                    let mut c = None;
                    for _ in 0..6 {
                        let t = r.below(i);
                        if compactable(&m, t) {
                            c = Some(t);
                            break;
                        }
                    }
                    match c {
                        Some(t) => Def::Compact(t),
                        None => Def::Prim(*r.pick(&UNSIGNED)),
                    }
                }
            }
            _ => {
                // single-field wrapper of an unsigned integer: makes interesting compacts likely
                let t = r.below(i);
                Def::Comp { path: path(r), fields: vec![FieldDef { name: if r.chance(1, 2) { Some(name(r)) } else { None }, ty: t }] }
            }
        };
        m.add(d);
    }
    if !o.zst_lists {
        let sizes = min_sizes(&m);
        for i in 0..m.defs.len() {
            if let Def::Seq(t) = &m.defs[i] {
                if sizes.get(*t).copied().flatten() == Some(0) {
                    m.defs[i] = Def::Prim(Prim::U8);
                }
            }
        }
    }
    m
}
/// Can a value of this type be compact encoded?
pub fn compactable(m: &Model, id: Id) -> bool {
    let mut id = id;
    for _ in 0..64 {
        match m.def(id) {
            Some(Def::Prim(p)) => return p.unsigned_bytes().is_some(),
            Some(Def::Comp { fields, .. }) if fields.len() == 1 => id = fields[0].ty,
            Some(Def::Tuple(ts)) if ts.len() == 1 => id = ts[0],
            Some(Def::Compact(t)) => id = *t,
            _ => return false,
        }
    }
    false
}
impl Model {
    /// Each compact marker replaced by the type it marks (where that can be compact).
    pub fn plain(&self) -> Model {
        let mut m = self.clone();
        for i in 0..m.defs.len() {
            let mut t = i;
            for _ in 0..64 {
                match self.def(t) {
                    Some(Def::Compact(u)) if compactable(self, i) => t = *u,
                    _ => break,
                }
            }
            if t != i {
                if let Some(d) = self.def(t) {
                    m.defs[i] = d.clone();
                }
            }
        }
        m
    }
}
/// The model of a registry made elsewhere; ids are kept.
pub fn from_portable(reg: &scale_info::PortableRegistry) -> Model {
    use scale_info::TypeDef as D;
    let fields = |fs: &[scale_info::Field<scale_info::form::PortableForm>]| -> Vec<FieldDef> {
        fs.iter().map(|f| FieldDef { name: f.name.clone(), ty: f.ty.id as usize }).collect()
    };
    let last = |id: u32| reg.resolve(id).and_then(|t| t.path.segments.last().cloned()).unwrap_or_default();
    let mut m = Model::new();
    for (i, t) in reg.types.iter().enumerate() {
        assert_eq!(t.id as usize, i);
        let path = t.ty.path.segments.clone();
        m.add(match &t.ty.type_def {
            D::Composite(c) => Def::Comp { path, fields: fields(&c.fields) },
            D::Variant(v) => Def::Var {
                path,
                variants: v.variants.iter().map(|v| VariantDef { name: v.name.clone(), index: v.index, fields: fields(&v.fields) }).collect(),
            },
            D::Sequence(s) => Def::Seq(s.type_param.id as usize),
            D::Array(a) => Def::Array(a.type_param.id as usize, a.len),
            D::Tuple(t) => Def::Tuple(t.fields.iter().map(|f| f.id as usize).collect()),
            D::Primitive(p) => Def::Prim(*PRIMS.iter().find(|x| x.info() == *p).unwrap()),
            D::Compact(c) => Def::Compact(c.type_param.id as usize),
            D::BitSequence(b) => {
                let store = match reg.resolve(b.bit_store_type.id).map(|t| &t.type_def) {
                    Some(D::Primitive(scale_info::TypeDefPrimitive::U8)) => 1,
                    Some(D::Primitive(scale_info::TypeDefPrimitive::U16)) => 2,
                    Some(D::Primitive(scale_info::TypeDefPrimitive::U32)) => 4,
                    _ => 8,
                };
                Def::Bits(BitFmt { store, msb: last(b.bit_order_type.id) == "Msb0" })
            }
        });
    }
    m
}
