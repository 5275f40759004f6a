//! What a decode costs: bytes allocated, types looked up and processor time, against the bytes and items that are really there.
use mon::any::AnyVal;
use mon::conv::*;
use mon::model::*;
use mon::resolvers::*;
use mon::run::{self, cut, hex, Alloc, Case};
use mon::targets::*;
use mon::val::*;
use scale_decode::visitor::{decode_with_visitor, IgnoreVisitor};
use scale_decode::DecodeAsType;
use scale_info::PortableRegistry as P;
#[global_allocator]
static A: run::Counting = run::Counting;
mod gen {
    include!(concat!(env!("GEN_DIR"), "/types.rs"));
}
type W = Wrap<P>;
struct T {
    s: Vec<SEntry<W>>,
    e: Vec<Entry<W>>,
    b: Vec<Entry<W>>,
    d: Vec<(&'static str, fn(&mut &[u8], u32, &W) -> bool)>,
}
/// How much is really there.
struct Size {
    bytes: u64,
    items: u64,
    depth: u64,
    arity: u64,
    /// where the input is refused: bytes that lists may go on reading behind the item that failed
    slack: u64,
}
impl Size {
    fn of(m: &Model, id: Id, b: &[u8]) -> Option<Size> {
        let mut d = RefDec::new(m, b);
        let r = d.decode(id);
        if r == Err(RErr::Budget) {
            return None;
        }
        let slack = match r {
            Ok(_) => 0,
            // behind a failed item there may be lists of any length of items that take no bytes
            Err(_) if weightless(m) => return None,
            Err(_) => 2 * b.len() as u64,
        };
        let arity = m.defs.iter().map(|d| match d {
            Def::Comp { fields, .. } => fields.len(),
            Def::Tuple(ts) => ts.len(),
            Def::Var { variants, .. } => variants.len() + variants.iter().map(|v| v.fields.len()).max().unwrap_or(0),
            _ => 0,
        });
        Some(Size { bytes: b.len() as u64, items: d.items, depth: d.depth_seen as u64, arity: arity.max().unwrap_or(0) as u64, slack })
    }
    /// Very generous: a cost that grows with a declared length, or with the square of the items, is far beyond.
    fn lookups(&self) -> u64 {
        64 + 4 * (self.items + self.slack + 2) * (self.depth + 2)
    }
    fn alloc(&self) -> u64 {
        (64 << 10) + 2048 * (self.bytes + self.items + self.depth) * (1 + self.arity / 16)
    }
    fn cpu_ms(&self) -> u64 {
        400 + (self.bytes + self.items * (self.depth + 2)) / 20
    }
}
fn weightless(m: &Model) -> bool {
    let min = min_sizes(m);
    m.defs.iter().any(|d| matches!(d, Def::Seq(t) | Def::Array(t, _) if min.get(*t).copied().flatten() == Some(0)))
}
fn cpu_ms() -> u64 {
    extern "C" {
        fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t[0] as u64 * 1000 + t[1] as u64 / 1_000_000
}
fn cost(c: &mut Case, what: &str, w: &W, z: &Size, b: &[u8], mut f: impl FnMut(&mut &[u8]) -> bool) {
    w.reset();
    // a runaway is stopped soon after the bound
    w.budget.set(z.lookups() + 1);
    let t0 = cpu_ms();
    let (ok, a): (bool, Alloc) = run::measure(|| f(&mut &*b));
    let mut t = cpu_ms() - t0;
    let looked = w.lookups.get();
    if looked > z.lookups() {
        c.viol(format!("{what}: more than {} type lookups ({looked}) for {} bytes, {} items, depth {}", z.lookups(), z.bytes, z.items, z.depth));
    }
    if a.total > z.alloc() {
        c.viol(format!("{what}: {} bytes allocated (at most {} at once) for {} bytes, {} items, depth {}", a.total, a.peak, z.bytes, z.items, z.depth));
    }
    if t > z.cpu_ms() {
        for _ in 0..2 {
            w.reset();
            w.budget.set(z.lookups() + 1);
            let t0 = cpu_ms();
            f(&mut &*b);
            t = t.min(cpu_ms() - t0);
        }
        if t > z.cpu_ms() {
            c.viol(format!("{what}: takes {t} ms of processor time for {} bytes, {} items, depth {}", z.bytes, z.items, z.depth));
        }
    }
    c.max("alloc_permille_of_bound", a.total * 1000 / z.alloc());
    c.max("lookups_permille_of_bound", looked * 1000 / z.lookups());
    c.max("items", z.items);
    c.max("depth", z.depth);
    c.max("bytes", z.bytes);
    c.count(if ok { "decoded" } else { "refused" }, 1);
    c.count("lookups", looked);
    c.count("allocated_bytes", a.total);
    c.eval();
}
fn all(t: &T, c: &mut Case, m: &Model, id: Id, b: &[u8], e: Option<&Entry<W>>) {
    let Some(z) = Size::of(m, id, b) else {
        c.skipped();
        return;
    };
    let w = Wrap::new(m.portable());
    let wid = w.make_id(id);
    c.context(|| format!("{} type {} input ({} bytes) {}", e.map(|e| e.name).unwrap_or(""), cut(&m.show(id), 600), b.len(), hex(b)));
    cost(c, "skipping", &w, &z, b, |x| decode_with_visitor(x, wid, &w, IgnoreVisitor::new()).is_ok());
    cost(c, "reading everything", &w, &z, b, |x| AnyVal::decode_as_type(x, wid, &w).is_ok());
    if let Some(e) = e {
        cost(c, e.name, &w, &z, b, |x| (e.decode)(x, wid, &w).is_ok());
    } else {
        for _ in 0..2 {
            let (n, f) = *c.rng.pick(&t.d);
            cost(c, n, &w, &z, b, |x| f(x, wid, &w));
            let e = c.rng.pick(&t.b);
            cost(c, e.name, &w, &z, b, |x| (e.decode)(x, wid, &w).is_ok());
        }
    }
    // once over by handles: each item stepped over, then decoded
    cost(c, "stepping over items", &w, &z, b, |x| decode_with_visitor(x, wid, &w, Stepper::<W>(std::marker::PhantomData)).is_ok());
    c.distinct(&[m.show(id).as_bytes(), b, e.map(|e| e.name).unwrap_or("").as_bytes()]);
    c.sample(|| format!("{} ({} bytes, {} items, depth {}) {}", cut(&m.show(id), 200), z.bytes, z.items, z.depth, cut(&hex(b), 100)));
}
/// Steps over the items of each container with `next`, then visits each handle: the cost of a level is twice its size.
struct Stepper<R>(std::marker::PhantomData<fn() -> R>);
mod stepper {
    use super::Stepper;
    use mon::explore::{Cont, Handle, XErr};
    use scale_decode::visitor::{types::*, TypeIdFor, Visitor};
    use scale_decode::TypeResolver;
    fn step<'s, 'r, R: TypeResolver, C: Cont<'s, 'r, R>>(c: &mut C) -> Result<(), XErr> {
        let mut hs = vec![];
        while let Some(h) = c.handle() {
            hs.push(h?);
        }
        for h in hs {
            h.visit(Stepper::<R>(std::marker::PhantomData))?;
        }
        Ok(())
    }
    macro_rules! unit {
        ($($f:ident $t:ty;)*) => {$( fn $f<'s, 'r>(self, _: $t, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, XErr> { Ok(()) } )*};
    }
    impl<R: TypeResolver> Visitor for Stepper<R> {
        type Value<'s, 'r> = ();
        type Error = XErr;
        type TypeResolver = R;
        unit! { visit_bool bool; visit_char char; visit_u8 u8; visit_u16 u16; visit_u32 u32; visit_u64 u64; visit_u128 u128;
            visit_i8 i8; visit_i16 i16; visit_i32 i32; visit_i64 i64; visit_i128 i128; }
        fn visit_u256<'r>(self, _: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, XErr> {
            Ok(())
        }
        fn visit_i256<'r>(self, _: &[u8; 32], _: TypeIdFor<Self>) -> Result<Self::Value<'_, 'r>, XErr> {
            Ok(())
        }
        fn visit_str<'s, 'r>(self, v: &mut Str<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, XErr> {
            v.as_str()?;
            Ok(())
        }
        fn visit_bitsequence<'s, 'r>(self, v: &mut BitSequence<'s>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, XErr> {
            for b in v.decode()? {
                b.map_err(scale_decode::visitor::DecodeError::from)?;
            }
            Ok(())
        }
        fn visit_sequence<'s, 'r>(self, v: &mut Sequence<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, XErr> {
            step(v)
        }
        fn visit_array<'s, 'r>(self, v: &mut Array<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, XErr> {
            step(v)
        }
        fn visit_tuple<'s, 'r>(self, v: &mut Tuple<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, XErr> {
            step(v)
        }
        fn visit_composite<'s, 'r>(self, v: &mut Composite<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, XErr> {
            step(v)
        }
        fn visit_variant<'s, 'r>(self, v: &mut Variant<'s, 'r, R>, _: TypeIdFor<Self>) -> Result<Self::Value<'s, 'r>, XErr> {
            step(v.fields())
        }
    }
}
/// Lengths nothing backs.
fn unbacked(t: &T, c: &mut Case) {
    let (mut m, id, hints, e) = if c.rng.chance(2, 3) {
        let e = match c.rng.below(4) {
            0 => c.rng.pick(&t.s).e.clone(),
            1 => c.rng.pick(&t.e).clone(),
            _ => c.rng.pick(&t.b).clone(),
        };
        let mut src = Src::new(&mut c.rng, Bend { wrong: 20, ..Default::default() });
        let id = src.source(&(e.shape)());
        (src.m.clone(), id, src.hints.clone(), Some(e))
    } else {
        let o = GenOpts { types: c.rng.range(5, 20), zst_lists: false, ..Default::default() };
        let m = gen_model(&mut c.rng, &o);
        let id = c.rng.below(m.defs.len());
        (m, id, Hints::default(), None)
    };
    let v = ValOpts { budget: 60, long_lists: false };
    let Some((node, bytes)) = gen_value_hinted(&mut c.rng, &m, id, &v, &hints) else {
        c.skipped();
        return;
    };
    // places where a length is written
    let mut at = vec![];
    node.walk(&mut |n: &Node| match &n.k {
        K::Seq { body, .. } => at.push((n.start, *body, 64)),
        K::Str { off, .. } => at.push((n.start, *off, 32)),
        K::Bits(_) => at.push((n.start, n.start + if bytes[n.start] & 3 == 0 { 1 } else { 2 }, 32)),
        _ => {}
    });
    let mut b = bytes.clone();
    if !at.is_empty() && c.rng.chance(4, 5) {
        let (s, e, bits) = *c.rng.pick(&at);
        if e <= b.len() {
            let max = if bits == 64 { u64::MAX } else { u32::MAX as u64 };
            let n = match c.rng.below(6) {
                0 => max,
                1 => (1 << 28) - 1,
                2 => (1 << 20) + c.rng.below(9) as u64,
                3 => 1 << c.rng.range(16, bits - 1),
                4 => (1 << 30) - 1,
                _ => gen_uint(&mut c.rng, bits as u32) as u64,
            };
            let mut x = vec![];
            enc_compact(n as u128, &mut x);
            b.splice(s..e, x);
            let k = c.rng.below(40);
            b.extend(c.rng.bytes(k));
            c.count("huge_lengths", 1);
        }
    } else {
        let arrays: Vec<usize> = (0..m.defs.len()).filter(|i| matches!(m.defs[*i], Def::Array(..))).collect();
        if !arrays.is_empty() {
            let i = *c.rng.pick(&arrays);
            if let Def::Array(t, _) = m.defs[i] {
                m.defs[i] = Def::Array(t, *c.rng.pick(&[1 << 20, 1 << 24, 1 << 30, u32::MAX, 70_000]));
                c.count("huge_arrays", 1);
            }
            if left_recursive(&m) {
                return;
            }
        }
    }
    all(t, c, &m, id, &b, e.as_ref());
}
/// Deep values.
fn deep(t: &T, c: &mut Case) {
    let mut m = Model::new();
    let u8t = m.add(Def::Prim(Prim::U8));
    let st = m.add(Def::Prim(Prim::Str));
    let depth = c.rng.range(5, 120);
    if c.rng.chance(1, 2) {
        // one recursive type: a named struct around an option of itself, a list of itself, or an enum
        let me = m.defs.len() + 1;
        match c.rng.below(4) {
            0 => {
                m.add(Def::Var { path: vec!["Option".into()], variants: vec![VariantDef { name: "None".into(), index: 0, fields: vec![] }, VariantDef { name: "Some".into(), index: 1, fields: vec![FieldDef { name: None, ty: me }] }] });
            }
            1 => {
                m.add(Def::Seq(me));
            }
            2 => {
                m.add(Def::Var {
                    path: vec![],
                    variants: vec![
                        VariantDef { name: "Leaf".into(), index: 0, fields: vec![] },
                        VariantDef { name: "Node".into(), index: 1, fields: vec![FieldDef { name: Some("next".into()), ty: me }, FieldDef { name: Some("b".into()), ty: u8t }] },
                    ],
                });
            }
            _ => {
                let s = m.add(Def::Seq(me + 1));
                assert_eq!(s + 1, me);
                m.add(Def::Tuple(vec![u8t, s]));
            }
        }
        if m.defs.len() == me {
            let names = [(Some("next"), me - 1), (Some("b"), u8t), (Some("c"), u8t)];
            let mut f: Vec<_> = names.to_vec();
            c.rng.shuffle(&mut f);
            m.comp(&["Deep"], f);
        }
        // a value of that depth, by nesting the encoding
        let mut b: Vec<u8> = vec![];
        let top = match (&m.defs[me - 1], m.def(me)) {
            (Def::Seq(_), Some(Def::Tuple(_))) => {
                for _ in 0..depth {
                    b.extend([7, 4]);
                }
                b.extend([7, 0]);
                m.defs.len() - 1
            }
            (_, Some(Def::Comp { fields, .. })) => {
                let open = match &m.defs[me - 1] {
                    Def::Seq(_) => 4u8,
                    _ => 1,
                };
                let wrapped = matches!(&m.defs[me - 1], Def::Var { variants, .. } if variants[1].name == "Node");
                let k = fields.iter().position(|f| f.ty == me - 1).unwrap();
                let (pre, post) = (vec![9u8; k], vec![9u8; 2 - k]);
                let mut tail = vec![];
                for _ in 0..depth {
                    b.extend(&pre);
                    b.push(open);
                    let mut p = post.clone();
                    if wrapped {
                        p.insert(0, 3);
                    }
                    tail.push(p);
                }
                b.extend(&pre);
                b.push(0);
                b.extend(&post);
                for p in tail.iter().rev() {
                    b.extend(p);
                }
                me
            }
            _ => return,
        };
        c.count("recursive_values", 1);
        if c.rng.chance(1, 3) {
            let n = c.rng.below(b.len() + 1);
            b.truncate(n);
        }
        return all(t, c, &m, top, &b, None);
    }
    // a tower of different types
    let mut top = if c.rng.chance(1, 2) { u8t } else { st };
    for _ in 0..depth {
        top = match c.rng.below(9) {
            0 => m.comp(&["T"], vec![(Some("next"), top)]),
            1 => m.comp(&["T"], vec![(Some("b"), u8t), (Some("next"), top)]),
            2 => m.comp(&["T"], vec![(Some("next"), top), (Some("b"), u8t)]),
            3 => m.add(Def::Tuple(vec![top])),
            4 => m.add(Def::Tuple(vec![u8t, top])),
            5 => m.add(Def::Array(top, 1)),
            6 => m.add(Def::Seq(top)),
            7 => m.comp(&["T"], vec![(None, top)]),
            _ => m.add(Def::Var { path: vec![], variants: vec![VariantDef { name: "Node".into(), index: 1, fields: vec![FieldDef { name: Some("next".into()), ty: top }] }] }),
        };
    }
    if c.rng.chance(1, 4) && compactable(&m, top) {
        top = m.add(Def::Compact(top));
    }
    let v = ValOpts { budget: 400, long_lists: false };
    let Some((_, mut b)) = gen_value_hinted(&mut c.rng, &m, top, &v, &Hints::default()) else {
        c.skipped();
        return;
    };
    if c.rng.chance(1, 4) {
        mutate(&mut c.rng, &mut b);
    }
    c.count("towers", 1);
    all(t, c, &m, top, &b, None);
}
/// Honest, long lists.
fn long(t: &T, c: &mut Case) {
    let e = match c.rng.below(4) {
        0 => c.rng.pick(&t.s).e.clone(),
        1 => c.rng.pick(&t.e).clone(),
        _ => c.rng.pick(&t.b).clone(),
    };
    let mut src = Src::new(&mut c.rng, Bend { wrong: 0, missing: 0, ..Default::default() });
    let elem = src.source(&(e.shape)());
    let (mut m, hints) = (src.m.clone(), src.hints.clone());
    let Some((_, one)) = gen_value_hinted(&mut c.rng, &m, elem, &ValOpts { budget: 10, long_lists: false }, &hints) else {
        c.skipped();
        return;
    };
    let list = m.add(Def::Seq(elem));
    let n = (40_000 / (one.len() + 20)).clamp(1, 2500);
    let mut b = vec![];
    enc_compact(n as u128, &mut b);
    for _ in 0..n {
        b.extend(&one);
    }
    if c.rng.chance(1, 3) {
        let k = c.rng.below(b.len() + 1);
        b.truncate(k);
    }
    c.count("long_lists", 1);
    all(t, c, &m, list, &b, None);
}
fn case(t: &T, c: &mut Case) {
    match c.rng.below(20) {
        0..=11 => unbacked(t, c),
        12..=17 => deep(t, c),
        _ => long(t, c),
    }
}
/// Recursive targets.
mod rec {
    use scale_decode::DecodeAsType;
    #[derive(DecodeAsType)]
    pub struct Deep {
        pub next: Option<Box<Deep>>,
        pub b: u8,
    }
    #[derive(DecodeAsType)]
    pub struct DeepL {
        pub b: u8,
        pub next: Vec<DeepL>,
    }
    #[derive(DecodeAsType)]
    pub enum DeepE {
        Leaf,
        Node { b: u8, next: Box<DeepS> },
    }
    #[derive(DecodeAsType)]
    pub struct DeepS {
        pub c: u8,
        pub next: DeepE,
    }
    #[derive(DecodeAsType)]
    pub struct DeepT(pub u8, pub Vec<DeepT>);
    #[derive(DecodeAsType)]
    pub struct Tower {
        pub next: Box<Tower>,
    }
    #[derive(DecodeAsType)]
    pub enum TowerE {
        Node(Box<TowerE>),
        Other { next: Box<TowerE> },
    }
}
fn dec<X: DecodeAsType>(b: &mut &[u8], id: u32, w: &W) -> bool {
    X::decode_as_type(b, id, w).is_ok()
}
type Ones = (((((((((((((((((((u8,),),),),),),),),),),),),),),),),),),);
fn main() {
    let mut e: Vec<Entry<W>> = gen::decls::enums();
    e.extend(gen::decls::others());
    let t = T {
        s: gen::decls::structs(),
        e,
        b: builtin_entries(),
        d: vec![
            ("Deep", dec::<rec::Deep>),
            ("DeepL", dec::<rec::DeepL>),
            ("DeepS", dec::<rec::DeepS>),
            ("DeepT", dec::<rec::DeepT>),
            ("Tower", dec::<rec::Tower>),
            ("TowerE", dec::<rec::TowerE>),
            ("u8", dec::<u8>),
            ("String", dec::<String>),
            ("ones", dec::<Ones>),
            ("vecs", dec::<Vec<Vec<Vec<Vec<Vec<Vec<u8>>>>>>>),
        ],
    };
    run::run("C05", run::Opts { quick: 40_000, thorough: 1_000_000, ..Default::default() }, |c| case(&t, c))
}
