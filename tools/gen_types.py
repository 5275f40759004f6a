#!/usr/bin/env python3
"""gen_types.py SEED OUT [exotic]: writes Rust declarations that derive DecodeAsType, each with its Target description.

exotic: also fields of types that cannot be decoded at all, unusual generics, bounds and attribute combinations."""
import random, sys

seed, out = sys.argv[1], sys.argv[2]
EXO = "exotic" in sys.argv
r = random.Random(f"types-{seed}-{EXO}")
FIELDS = ["a", "b", "c", "value", "val", "vals", "type_id", "fields", "index", "name", "input", "x1", "foo_bar", "Foo",
          "result", "composite", "e", "skip", "types", "_under", "aa", "b_", "scale", "item", "key", "remaining", "A", "ab"]
VARIANTS = ["A", "B", "C", "Foo", "Bar", "foo", "Some", "None", "Ok", "Err", "Value", "Visitor", "Aa", "AB", "X1", "X2", "Self_",
            "Unit", "Longer_Name", "Z", "Option", "Vec", "A1", "a"]
INTS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"]
PLAIN = INTS + ["bool", "String", "char", "Bits"]
# generated so far: (name, uses) where name is a usable concrete type
made = []


def ordleaf():
    return r.choice(INTS + ["String", "bool", "char"])


def leaf():
    return r.choice(PLAIN * 3 + ["NonZeroU8", "NonZeroU32", "NonZeroI16", "H160", "H256", "AnyVal", "PhantomData<u8>", "Duration",
                                 "Cow<'static, str>", "()", "Compact<u32>", "Compact<u128>"])


def ty(d=2, me=None):
    k = r.random()
    if d == 0 or k < 0.42:
        return leaf()
    if k < 0.60 and made:
        return r.choice(made)
    sub = lambda: ty(d - 1)
    x = r.randrange(16)
    if x == 0: return f"Vec<{sub()}>"
    if x == 1: return f"Option<{sub()}>"
    if x == 2: return f"Result<{sub()}, {sub()}>"
    if x == 3: return f"Box<{sub()}>"
    if x == 4: return f"[{sub()}; {r.randrange(5)}]"
    if x == 5: return f"({sub()}, {sub()})"
    if x == 6: return f"({sub()},)"
    if x == 7: return f"BTreeMap<String, {sub()}>"
    if x == 8: return f"BTreeSet<{ordleaf()}>"
    if x == 9: return f"Range<{r.choice(INTS)}>"
    if x == 10: return f"Compact<{sub()}>"
    if x == 11: return f"{r.choice(['Rc', 'Arc'])}<{sub()}>"
    if x == 12: return f"Cow<'static, {sub()}>"
    if x == 13: return f"VecDeque<{sub()}>"
    if x == 14: return f"({sub()}, {leaf()}, {leaf()})"
    return f"Vec<Option<{leaf()}>>"


DEFAULTS = INTS + ["bool", "String", "Vec<u8>", "Option<u16>", "PhantomData<u8>", "(u8, bool)", "Duration", "Mark", "Mark", "Mark"]
OTHER_ATTRS = ["#[codec(compact)]", "#[codec(index = 3)]", "#[codec(encoded_as = \"u8\")]", "/// a comment", "#[allow(dead_code)]",
               "#[doc(hidden)]"]


def skip_attrs():
    """A mark to skip, with company."""
    marks = ["#[codec(skip)]", "#[decode_as_type(skip)]"]
    x = r.randrange(8)
    if x == 0: return [r.choice(marks), r.choice(OTHER_ATTRS)]
    if x == 1: return [r.choice(OTHER_ATTRS), r.choice(marks)]
    if x == 2: return [r.choice(OTHER_ATTRS), r.choice(marks), r.choice(OTHER_ATTRS)]
    if x == 3: return ["#[codec(skip, index = 4)]"]
    if x == 4: return ["#[codec(compact, skip)]"]
    if x == 5: return r.sample(marks, 2)
    return [r.choice(marks)]


class F:
    def __init__(s, name, t, skip):
        s.name, s.t, s.skip = name, t, skip
        s.attrs = skip_attrs() if skip else ([r.choice(OTHER_ATTRS)] if r.random() < 0.2 else [])
        if r.random() < 0.1: s.attrs = s.attrs  # keep
        s.vis = r.choice(["", "pub ", "pub(crate) "])

    def decl(s, named, vis=True):
        a = "\n        ".join(s.attrs) + ("\n        " if s.attrs else "")
        v = s.vis if vis else ""
        return a + v + (f"{s.name}: {s.t}" if named else s.t)

    def reify(s, e):
        return f"TVal::U(({e}).0 as u128)" if s.t == "NotDec" else f"TVal::Unit" if s.t.startswith("PhantomData<T") and s.skip else f"Target::reify({e})"

    def tf(s):
        if s.t == "NotDec":
            sh, sk = "Shape::Bool", "Some(TVal::U(4242))"
        elif s.skip and s.t.startswith("PhantomData<T"):
            sh, sk = "Shape::Phantom", "Some(TVal::Unit)"
        else:
            sh = f"<{s.t} as Target>::shape()"
            sk = f"Some(Target::reify(&<{s.t} as Default>::default()))" if s.skip else "None"
        return f'TF {{ name: "{s.name}".into(), shape: {sh}, skip: {sk} }}'


def fields(kind, n, skips, extra_types=(), me=None, d=2):
    names = r.sample(FIELDS, n) if kind == "Named" else [str(i) for i in range(n)]
    ts = [ty(d) for _ in range(n)]
    for i, t in enumerate(extra_types):
        if i < n: ts[i] = t
    order = list(range(n)); r.shuffle(order)
    ts = [ts[i] for i in order]
    fs = []
    for nm, t in zip(names, ts):
        sk = t not in extra_types and r.random() < skips
        if sk: t = r.choice(DEFAULTS + (["NotDec"] * 4 if EXO else []))
        fs.append(F(nm, t, sk))
    return fs


src = []
structs, enums, others = [], [], []
count = 0


def body(kind, fs, vis=True):
    if kind == "Unit": return ""
    b = ",\n        ".join(f.decl(kind == "Named", vis) for f in fs)
    return (" {\n        " + b + "\n    }") if kind == "Named" else ("(\n        " + b + "\n    )")


def top_attrs():
    a = []
    if r.random() < 0.12: a.append('#[decode_as_type(crate_path = "crate::gen::alias::sd")]')
    if r.random() < 0.1: a.append("#[codec(mel_bound())]")
    return a


def struct(kind=None, n=None, skips=0.0, generics="", where="", extra=(), inst=None, attrs=None, clone=True, mark=None):
    global count
    name = f"S{count}"; count += 1
    kind = kind or r.choice(["Named"] * 5 + ["Unnamed"] * 3 + ["Unit"])
    n = 0 if kind == "Unit" else (r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 9]) if n is None else n)
    fs = fields(kind, n, skips, extra)
    if mark:
        for f in fs: f.attrs = [mark]
    gd = f"<{generics}>" if generics else ""
    gn = generics.replace("const ", "")
    gn = ", ".join(x.split(":")[0].strip() for x in gn.split(",")) if generics else ""
    gn = f"<{gn}>" if gn else ""
    vis = r.choice(["pub ", "", "pub(crate) "])
    at = "\n    ".join((attrs if attrs is not None else top_attrs()))
    w = f" where {where}" if where else ""
    b = body(kind, fs)
    src.append(f"""
    #[derive(Clone, DecodeAsType)]
    {at}
    {vis}struct {name}{gd}{w if kind == 'Named' else ''}{b}{(w if kind != 'Named' else '') + (';' if kind != 'Named' else '')}""")
    emit_target(name, generics, gn, where, "struct", [(name, kind, fs)])
    return finish(name, inst, structs)


def target_generics(generics):
    ps = []
    for p in [x.strip() for x in generics.split(",")] if generics else []:
        if p.startswith("const") or p.startswith("'"): ps.append(p)
        else:
            nm, _, b = p.partition(":")
            extra = [] if nm.strip() in ("TX",) else ["Target"]
            bs = [b.strip()] if b.strip() else []
            ps.append(f"{nm.strip()}: " + " + ".join(extra + bs + ["Clone", "'static"]))
    return f"<{', '.join(ps)}>" if ps else ""


def emit_target(name, generics, gn, where, what, vs):
    w = f" where {where}" if where else ""
    gn2 = gn.replace("'a", "'static")
    tg = target_generics(", ".join(x for x in generics.split(",") if not x.strip().startswith("'")).strip()) if generics else ""
    if what == "struct":
        _, kind, fs = vs[0]
        tfs = ", ".join(f.tf() for f in fs)
        sh = f'Shape::Lazy(|| Shape::Struct(std::sync::Arc::new(SDef {{ name: "{name}", kind: FKind::{kind}, fields: vec![{tfs}] }})))'
        re = ", ".join(f.reify(f"&self.{f.name}") for f in fs)
        body = f"TVal::List(vec![{re}])"
    else:
        tv = ", ".join(f'("{v}".to_string(), FKind::{k}, vec![{", ".join(f.tf() for f in fs)}])' for v, k, fs in vs)
        sh = f'Shape::Lazy(|| Shape::Enum(std::sync::Arc::new(EDef {{ name: "{name}", variants: vec![{tv}] }})))'
        arms = []
        for v, k, fs in vs:
            bind = [f"f{i}" for i in range(len(fs))]
            re = ", ".join(f.reify(b) for f, b in zip(fs, bind))
            if k == "Named": pat = f"{name}::{v} {{ " + ", ".join(f"{f.name}: {b}" for f, b in zip(fs, bind)) + " }"
            elif k == "Unnamed": pat = f"{name}::{v}(" + ", ".join(bind) + ")"
            else: pat = f"{name}::{v}"
            arms.append(f'{pat} => TVal::Enum("{v}".to_string(), vec![{re}])')
        body = "match self { " + ", ".join(arms) + " }"
    if "'a" in generics: sh, body = sh.replace("'a,", "'static,"), body.replace("'a,", "'static,")
    src.append(f"""    impl{tg} Target for {name}{gn2}{w} {{
        fn shape() -> Shape {{ {sh} }}
        fn reify(&self) -> TVal {{ {body} }}
    }}""")


def finish(name, inst, reg):
    full = [name] if not inst else [f"{name}<{i}>" for i in inst]
    for f in full:
        reg.append(f); made.append(f)
    return full


def enum(n=None, skips=0.0, generics="", where="", extra=(), inst=None, attrs=None, big=False, recur=False):
    global count
    name = f"E{count}"; count += 1
    n = n if n is not None else r.choice([1, 2, 3, 4, 5, 6])
    names = r.sample(VARIANTS, min(n, len(VARIANTS))) if not big else [f"V{i}" for i in range(n)]
    vs = []
    for i, v in enumerate(names):
        k = r.choice(["Unit", "Unnamed", "Unnamed", "Named", "Named"])
        if big: k = r.choice(["Unit"] * 6 + ["Unnamed", "Named"])
        if i == 0 and extra: k = "Unnamed"
        m = 0 if k == "Unit" else r.choice([0, 1, 1, 1, 2, 2, 3, 4])
        if i == 0 and extra: m = max(m, len(extra))
        fs = fields(k, m, skips, extra if i == 0 else (), d=1)
        if recur and i == len(names) - 1:
            k = "Named"
            fs = [F("next", f"Box<{name}>", False), F("n", "u8", False), F("kids", f"Vec<{name}>", False)]
        vs.append((v, k, fs))
    gd = f"<{generics}>" if generics else ""
    gn = generics.replace("const ", "")
    gn = ", ".join(x.split(":")[0].strip() for x in gn.split(",")) if generics else ""
    gn = f"<{gn}>" if gn else ""
    w = f" where {where}" if where else ""
    vis = r.choice(["pub ", "", "pub(crate) "])
    at = "\n    ".join((attrs if attrs is not None else top_attrs()))
    decls = []
    idx = r.sample(range(200), len(vs))
    for i, (v, k, fs) in enumerate(vs):
        a = f"#[codec(index = {idx[i]})]\n        " if r.random() < 0.2 else ""
        decls.append(a + v + body(k, fs, vis=False))
    src.append(f"""
    #[derive(Clone, DecodeAsType)]
    {at}
    {vis}enum {name}{gd}{w} {{
        """ + ",\n        ".join(decls) + "\n    }")
    emit_target(name, generics, gn, where, "enum", vs)
    return finish(name, inst, enums)


# a first layer of each kind, then mixtures of them
for k in ("Named", "Unnamed"):
    for n in (0, 1, 2, 3):
        struct(k, n)
struct("Unit")
# one field, with each attribute that has nothing to do with decoding
for a in OTHER_ATTRS[:4]:
    for k in ("Named", "Unnamed"):
        struct(k, 1, extra=(r.choice(["u8", "u32", "u64", "u128", "Option<u16>"]),), mark=a)
for _ in range(8): struct()
for _ in range(8): enum()
for _ in range(10): struct(skips=0.35)
for _ in range(7): enum(skips=0.35)
struct("Named", 14, skips=0.2)
struct("Unnamed", 12, skips=0.2)
enum(40, big=True)
enum(9, big=True, skips=0.3)
enum(3, recur=True)
enum(4, recur=True, skips=0.2)
struct("Named", 3, extra=("T",), generics="T", inst=["u8", "Vec<bool>"])
struct("Named", 3, extra=("Vec<T>", "Option<U>"), generics="T, U", inst=["u32, String"])
struct("Unnamed", 2, extra=("[T; N]",), generics="T, const N: usize", inst=["u16, 3"])
struct("Unnamed", 2, extra=("Cow<'a, str>",), generics="'a", inst=["'static"])
struct("Named", 2, extra=("R", "Box<R>"), generics="R", inst=["u64"])
enum(3, extra=("T", "U"), generics="T, U: Clone", inst=["i64, Vec<u8>", "bool, (u8, u8)"])
enum(2, extra=("T",), generics="T", where="T: Clone", inst=["i16"], skips=0.2)
struct("Named", 4, extra=("T",), generics="T: Clone", where="T: PartialEq", inst=["u32"], skips=0.4)
for _ in range(8): struct(skips=0.1)
for _ in range(6): enum(skips=0.1)
if EXO:
    # parameters that are not decodable at all, behind skipped fields
    for k, n in (("Named", 3), ("Unnamed", 3), ("Named", 1)):
        global_name = f"S{count}"
        nm = f"S{count}"; count += 1
        ff = fields(k, n, 0.3)
        at = r.randrange(len(ff) + 1)
        ff.insert(at, F("marker" if k == "Named" else "0", "PhantomData<TX>", True))
        if k == "Unnamed":
            for i, f in enumerate(ff): f.name = str(i)
        src.append(f"""
    #[derive(DecodeAsType)]
    #[decode_as_type(trait_bounds = "")]
    pub struct {nm}<TX>{body(k, ff)}{';' if k != 'Named' else ''}
    impl Clone for {nm}<NoIv> {{ fn clone(&self) -> Self {{ unimplemented!() }} }}""")
        emit_target(nm, "", "<NoIv>", "", "struct", [(nm, k, [f if f.t != "PhantomData<TX>" else f for f in ff])])
        src[-1] = src[-1].replace("TX", "NoIv")
        structs.append(f"{nm}<NoIv>"); made.append(f"{nm}<NoIv>")
    nm = f"E{count}"; count += 1
    src.append(f"""
    #[derive(DecodeAsType)]
    #[decode_as_type(trait_bounds = "U: ::scale_decode::IntoVisitor")]
    pub enum {nm}<TX, U> where U: Clone {{
        A(U, #[codec(skip)] PhantomData<TX>),
        B {{ #[decode_as_type(skip)] p: NotDec, #[codec(compact)] q: u32, r: U }},
        C(#[codec(index = 1)] #[codec(skip)] NotDec, #[doc(hidden)] bool),
    }}
    impl Target for {nm}<NoIv, u16> {{
        fn shape() -> Shape {{ Shape::Lazy(|| Shape::Enum(std::sync::Arc::new(EDef {{ name: "{nm}", variants: vec![
            ("A".to_string(), FKind::Unnamed, vec![TF {{ name: "0".into(), shape: u16::shape(), skip: None }}, TF {{ name: "1".into(), shape: Shape::Phantom, skip: Some(TVal::Unit) }}]),
            ("B".to_string(), FKind::Named, vec![TF {{ name: "p".into(), shape: Shape::Bool, skip: Some(TVal::U(4242)) }}, TF {{ name: "q".into(), shape: u32::shape(), skip: None }}, TF {{ name: "r".into(), shape: u16::shape(), skip: None }}]),
            ("C".to_string(), FKind::Unnamed, vec![TF {{ name: "0".into(), shape: Shape::Bool, skip: Some(TVal::U(4242)) }}, TF {{ name: "1".into(), shape: bool::shape(), skip: None }}]),
        ] }}))) }}
        fn reify(&self) -> TVal {{ match self {{
            {nm}::A(a, _) => TVal::Enum("A".into(), vec![a.reify(), TVal::Unit]),
            {nm}::B {{ p, q, r }} => TVal::Enum("B".into(), vec![TVal::U(p.0 as u128), q.reify(), r.reify()]),
            {nm}::C(a, b) => TVal::Enum("C".into(), vec![TVal::U(a.0 as u128), b.reify()]),
        }} }}
    }}""")
    enums.append(f"{nm}<NoIv, u16>")
for _ in range(14):
    a, b = r.choice(structs), r.choice(enums)
    if EXO: a = r.choice([s for s in structs if "NoIv" not in s]); b = r.choice([s for s in enums if "NoIv" not in s])
    others.append(r.choice([f"Vec<{a}>", f"Option<{a}>", f"Box<{a}>", f"({a},)", f"({a}, {b})", f"Result<{a}, {b}>", f"[{b}; 2]",
                            f"BTreeMap<String, {a}>", f"Arc<{b}>", f"Vec<Option<{b}>>", f"Compact<{a}>", f"Cow<'static, {b}>",
                            f"Range<{r.choice(INTS)}>", f"VecDeque<({a}, {b})>"]))
grouped = r.sample([x for x in structs + enums if "NoIv" not in x], 16)
text = """// generated: declarations deriving DecodeAsType, with their description
pub mod alias { pub use ::scale_decode as sd; }
pub mod decls {
    #![allow(dead_code, unused, non_camel_case_types, non_snake_case, clippy::all)]
    use mon::any::AnyVal;
    use mon::conv::{EDef, FKind, SDef, Shape, TVal, TF};
    use mon::targets::{self, Entry, SEntry, Target};
    use codec::Compact;
    use primitive_types::{H160, H256};
    use scale_bits::Bits;
    use scale_decode::{DecodeAsType, TypeResolver};
    use std::borrow::Cow;
    use std::collections::{BTreeMap, BTreeSet, VecDeque};
    use std::marker::PhantomData;
    use std::num::*;
    use std::ops::Range;
    use std::rc::Rc;
    use std::sync::Arc;
    use std::time::Duration;
    /// a default unlike anything decoded by accident
    #[derive(Clone, DecodeAsType)]
    pub struct Mark(pub u32);
    impl Default for Mark { fn default() -> Self { Mark(0xDEFA) } }
    impl Target for Mark {
        fn shape() -> Shape { Shape::Lazy(|| Shape::Struct(std::sync::Arc::new(SDef { name: "Mark", kind: FKind::Unnamed, fields: vec![TF { name: "0".into(), shape: u32::shape(), skip: None }] }))) }
        fn reify(&self) -> TVal { TVal::List(vec![self.0.reify()]) }
    }
    /// cannot be decoded
    #[derive(Clone)]
    pub struct NotDec(pub u32);
    impl Default for NotDec { fn default() -> Self { NotDec(4242) } }
    pub struct NoIv;
"""
text += "\n".join(src)
lst = lambda fn, xs: ", ".join(f"targets::{fn}::<{x}, R>()" for x in xs)
text += f"""
    pub fn structs<R: TypeResolver>() -> Vec<SEntry<R>> {{ vec![{lst('sentry', structs)}] }}
    pub fn enums<R: TypeResolver>() -> Vec<Entry<R>> {{ vec![{lst('entry', enums)}] }}
    /// a target and what is transparent around it
    pub fn group<T: Target + Clone, R: TypeResolver>() -> Vec<Entry<R>> {{
        vec![targets::entry::<T, R>(), targets::entry::<Box<T>, R>(), targets::entry::<Rc<T>, R>(), targets::entry::<Arc<T>, R>(),
            targets::entry::<Cow<'static, T>, R>(), targets::entry::<Compact<T>, R>(), targets::entry::<Box<Arc<T>>, R>(), targets::entry::<(T,), R>()]
    }}
    pub fn groups<R: TypeResolver>() -> Vec<Vec<Entry<R>>> {{ vec![{", ".join(f"group::<{x}, R>()" for x in grouped)}] }}
    pub fn others<R: TypeResolver>() -> Vec<Entry<R>> {{ vec![{lst('entry', others)}] }}
}}
"""
old = None
try:
    old = open(out).read()
except OSError:
    pass
if old != text:
    open(out, "w").write(text)
