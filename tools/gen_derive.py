#!/usr/bin/env python3
"""gen_derive.py SEED OUT N [renamed]: writes N modules of types that derive DecodeAsType in awkward surroundings (names, generics,
attributes, macros), each beside a twin: the same fields, declared plainly."""
import random, re, sys

seed, out, N = sys.argv[1], sys.argv[2], int(sys.argv[3])
RENAMED = "renamed" in sys.argv  # for a crate that does not know scale-decode by that name
r = random.Random(f"derive-{seed}{RENAMED}")
ROOTS = ["crate::alias::sd", "crate::alias::deep::er::sd", "::renamed", "renamed"] if RENAMED else ["crate::alias::sd", "::scale_decode", "crate::alias::deep::er::sd"]
FIELDS = ["a", "b", "value", "val", "vals", "type_id", "fields", "index", "name", "input", "types", "composite", "skip_res", "e", "item",
          "res", "r#type", "r#match", "r#fn", "self_", "Foo", "_x", "remaining", "result", "path", "x1", "is_compact", "visitor", "größe", "ß", "r#gen", "r#async"]
VARIANTS = ["A", "B", "C", "Ok", "Err", "Some", "None", "Visitor", "Value", "Error", "TypeResolver", "Result", "Option", "String", "Foo",
            "r#fn", "r#Type", "X1", "lower", "Default", "Composite", "Ärger", "r#async"]
NAMES = ["Visitor", "Value", "Error", "Option", "Result", "String", "Vec", "Box", "Composite", "Variant", "Tuple", "Sequence", "Default",
         "PhantomData", "R", "Self_", "TypeResolver", "Resolver", "TypeId", "Foo", "Bar", "ToString", "IntoVisitor", "DecodeAsFields",
         "FieldIter", "Field", "BTreeMap", "Iterator", "Some_", "Clone", "Send", "From", "Into", "ErrorKind", "Ok_", "Debug", "r#Fn", "lower", "Größe", "Iter", "Map", "Str"]
PARAMS = ["T", "U", "R", "V", "Visitor", "Value", "Error", "TypeResolver", "Resolver", "Scale", "A", "F", "Fields", "Path", "Result",
          "Option", "String", "Composite", "TypeId", "Self_", "Info", "D", "E"]
LIFES = ["a", "scale", "info", "resolver", "b", "temp", "de", "r", "x"]
CONSTS = ["N", "LEN", "SIZE", "M"]
BOUNDS = ["::core::clone::Clone", "::core::fmt::Debug", "::core::marker::Sized", "::core::cmp::PartialEq", "crate::Plainest"]
INTS = ["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128"]
# what else may be in the module: (names taken, text)
SCOPE = [
    (["Result"], "pub type Result<T> = ::core::result::Result<T, ()>;"),
    (["Result"], "pub type Result = ::core::result::Result<(), ()>;"),
    (["Result"], "pub struct Result;"),
    (["Option"], "pub enum Option<A, B> { None(A), Some(B) }"),
    (["Option"], "pub struct Option;"),
    (["String"], "pub struct String;"), (["Vec"], "pub struct Vec<A, B>(pub A, pub B);"), (["Box"], "pub trait Box {}"),
    (["core"], "pub mod core {}"), (["std"], "pub mod std {}"), (["alloc"], "pub mod alloc {}"), (["scale_decode"], "pub mod scale_decode {}"),
    (["vec!"], "macro_rules! vec { () => { compile_error!() } }"), (["format!"], "macro_rules! format { () => {} }"),
    (["Visitor"], "pub trait Visitor {}"), (["IntoVisitor"], "pub trait IntoVisitor {}"), (["ToString"], "pub trait ToString {}"),
    (["Visitor"], "pub struct Visitor<'a>(pub &'a u8);"), (["Visitor"], "pub fn Visitor() {}"),
    (["Error"], "pub struct Error;"), (["Value"], "pub struct Value;"), (["Default"], "pub trait Default {}"), (["Clone"], "pub struct Clone;"),
    (["PhantomData"], "pub struct PhantomData;"), (["BTreeMap"], "pub struct BTreeMap;"), (["DecodeAsType"], "pub struct DecodeAsType;"),
    (["Iterator"], "pub trait Iterator {}"), (["Composite"], "pub struct Composite;"), (["TypeResolver"], "pub struct TypeResolver;"),
    (["Ok", "Err"], "pub enum Outcome { Ok, Err(u8) } pub use self::Outcome::*;"),
    (["Some", "None"], "pub enum Maybe { Some, None } pub use self::Maybe::*;"),
    (["Ok"], "pub fn Ok() {}"), (["Err"], "pub struct Err(pub u8, pub u8);"), (["Some"], "pub const fn Some() {}"),
    (["str"], "pub struct str;"), (["str"], "pub mod str {}"), (["Self_"], "pub struct Self_;"), (["greedy"], "pub use crate::greedy::*;"),
    (["From"], "pub struct From;"), (["Into"], "pub trait Into {}"), (["Send"], "pub trait Send {}"), (["drop"], "pub fn drop() {}"),
]
STATS = {}


def stat(k):
    STATS[k] = STATS.get(k, 0) + 1


class G:
    """the generics of a declaration"""
    def __init__(s, taken):
        s.lifes, s.types, s.consts, s.where = [], [], [], []
        if r.random() < 0.35:
            s.lifes = r.sample(LIFES, r.choice([1, 1, 2]))
            for l in s.lifes: stat(f"lifetime '{l}")
        if r.random() < 0.6:
            for n in r.sample([p for p in PARAMS if p not in taken], r.choice([1, 1, 2, 3])):
                b = r.sample(BOUNDS, r.choice([0, 0, 1, 2]))
                s.types.append([n, b, plain()])
                stat(f"type parameter {n}")
        if r.random() < 0.25:
            s.consts = [[n, *r.choice([(r.randrange(4), "usize")] * 3 + [("true", "bool"), ("'%'", "char"), (-3, "i64"), (200, "u8")])] for n in r.sample([c for c in CONSTS if c not in taken and c not in [t[0] for t in s.types]], r.choice([1, 1, 2]))]
            stat("const parameter")
        for t in s.types:
            if r.random() < 0.25:
                s.where.append(r.choice([f"{t[0]}: ::core::clone::Clone", f"::std::vec::Vec<{t[0]}>: ::core::clone::Clone", f"{t[0]}: 'static + crate::Plainest",
                                         f"for<'q> &'q {t[0]}: ::core::marker::Copy"]))
                stat("where clause")
        if len(s.lifes) == 2 and r.random() < 0.5:
            s.where.append(f"'{s.lifes[0]}: '{s.lifes[1]}")
            stat("lifetime bound")

    def decl(s, defaults=True):
        ps = [f"'{l}" for l in s.lifes]
        # defaults come last
        k = r.randrange(len(s.types) + len(s.consts) + 1) if defaults and r.random() < 0.3 else 99
        i = 0
        for n, b, t in s.types:
            ps.append(n + (": " + " + ".join(b) if b else "") + (f" = {t[0]}" if i >= k else ""))
            i += 1
        for n, v, t in s.consts:
            ps.append(f"const {n}: {t}" + (f" = {v}" if i >= k else ""))
            i += 1
        if k < i: stat("default of a parameter")
        if ps and r.random() < 0.2:
            ps[-1] += ","
        if ps and r.random() < 0.1:
            ps[0] = "#[allow(unused)] " + ps[0]
            stat("attribute on a parameter")
        return f"<{', '.join(ps)}>" if ps else ""

    def where_text(s):
        if not s.where:
            return r.choice([""] * 6 + [" where "])
        return " where " + ", ".join(s.where) + r.choice(["", ","])

    def inst(s):
        ps = ["'static" for l in s.lifes] + [t[0] for n, b, t in s.types] + [str(v) for n, v, t in s.consts]
        return f"<{', '.join(ps)}>" if ps else ""

    def me(s):
        ps = [f"'{l}" for l in s.lifes] + [n for n, b, t in s.types] + [n for n, v, t in s.consts]
        return f"<{', '.join(ps)}>" if ps else ""


def plain():
    """a type that is written the same on both sides"""
    x = r.randrange(8)
    t = r.choice(INTS + ["bool", "char", "::std::string::String"])
    if x < 5: pass
    elif x == 5: t = f"::std::vec::Vec<{t}>"
    elif x == 6: t = f"::core::option::Option<{t}>"
    else: t = f"({t}, {r.choice(INTS)})"
    return (t, t)


class Mod:
    def __init__(m, i):
        m.i = i
        m.taken, m.scope = set(), []
        for ns, t in r.sample(SCOPE, r.choice([0, 1, 1, 2, 3, 4])):
            if not m.taken & set(ns):
                m.taken |= set(ns)
                m.scope.append(t)
                stat("in scope: " + t.split("{")[0].split("(")[0].split(";")[0].strip()[:60])
        m.infn = r.random() < 0.15
        m.inmacro = not m.infn and r.random() < 0.15
        if m.infn: stat("within a function")
        m.plain, m.odd, m.made, m.pairs, m.renames = [], [], [], [], []

    def ty(m, g, d=2):
        k = r.random()
        if g.types and k < 0.35:
            n, b, t = r.choice(g.types)
            return (n, t[1])
        sizes = [c for c in g.consts if c[2] == "usize"]
        if sizes and k < 0.45:
            n, v, _ = r.choice(sizes)
            a = m.ty(g, 0)
            return (f"[{a[0]}; {n}]", f"[{a[1]}; {v}]")
        if g.lifes and k < 0.6:
            l = r.choice(g.lifes)
            return (f"::std::borrow::Cow<'{l}, ::core::primitive::str>", "::std::borrow::Cow<'static, str>")
        if m.made and k < 0.7: return r.choice(m.made)
        if d == 0 or k < 0.85: return plain()
        a = m.ty(g, d - 1)
        return r.choice([(f"::std::vec::Vec<{a[0]}>", f"::std::vec::Vec<{a[1]}>"), (f"::core::option::Option<{a[0]}>", f"::core::option::Option<{a[1]}>"),
                         (f"::std::boxed::Box<{a[0]}>",) * 1 + (f"::std::boxed::Box<{a[1]}>",), (f"({a[0]}, u8)", f"({a[1]}, u8)")])

    def fields(m, g, n, name=None, plainname=None):
        fs = []
        for f in r.sample(FIELDS, n):
            t = m.ty(g)
            skip = ""
            if r.random() < 0.12:
                skip = r.choice(["#[codec(skip)] ", "#[decode_as_type(skip)] "])
                p = r.choice(INTS)
                t = (p, p)
                if g.types and r.random() < 0.6:
                    n, b, conc = r.choice(g.types)
                    t = (f"::core::marker::PhantomData<{n}>", f"::core::marker::PhantomData<{conc[1]}>")
                stat("skipped field")
            elif name and r.random() < 0.1:
                b = r.choice(["::core::option::Option<::std::boxed::Box<{}>>", "::std::vec::Vec<{}>"])
                t = (b.format(name), b.format(plainname))
                stat("recursive")
            fs.append((f, t, skip))
        # every lifetime and type parameter has to be used
        for l in g.lifes:
            if not any(re.search(rf"'{l}\b", t[0]) for _, t, _ in fs if not (name and name in t[0])):
                fs.append((m.fresh(fs), (f"::std::borrow::Cow<'{l}, ::core::primitive::str>", "::std::borrow::Cow<'static, str>"), ""))
        for n, b, t in g.types:
            fs.append((m.fresh(fs), r.choice([(n, t[1]), (f"::std::vec::Vec<{n}>", f"::std::vec::Vec<{t[1]}>")]), ""))
        return fs

    def fresh(m, fs):
        return next(f for f in r.sample(FIELDS, len(FIELDS)) if f not in [x[0] for x in fs])

    def body(m, kind, fs, side, vis=True):
        v = lambda: (r.choice(["pub ", "", "pub(crate) "]) if side == 0 else "pub ") if vis else ""
        # without the derive there is nobody to understand it
        sk = lambda s: f'#[cfg_attr(not(feature = "control"), {s[2:-2]})] ' if side == 0 and s else s.replace("decode_as_type", "codec")
        gone = side == 0 and r.random() < 0.08
        if gone: stat("field that is configured away")
        if kind == "named": return "{ " + ("#[cfg(any())] not_there: Nothing, " if gone else "") + "".join(f"{sk(s)}{v()}{n}: {t[side]}, " for n, t, s in fs) + "}"
        if kind == "tuple": return "(" + ("#[cfg(any())] Nothing, " if gone else "") + "".join(f"{sk(s)}{v()}{t[side]}, " for n, t, s in fs) + ")"
        return ""

    def attrs(m, g, path):
        parts = []
        root = r.choice(ROOTS)
        alias = RENAMED or r.random() < 0.25
        if alias:
            parts.append(f'crate_path = "{root}"')
            stat("crate_path")
        if r.random() < 0.2:
            if not alias: root = "::scale_decode"
            bs = ", ".join(f"{n}: {root}::IntoVisitor" for n, b, t in g.types)
            parts.append(f'trait_bounds = "{bs}"')
            stat("trait_bounds")
        r.shuffle(parts)
        if len(parts) == 2 and r.random() < 0.5:
            stat("attributes apart")
            return [f"#[decode_as_type({p})]" for p in parts]
        return [f"#[decode_as_type({', '.join(parts)})]"] if parts else []

    def add(m, k):
        name = r.choice([n for n in NAMES if n not in m.taken] )
        m.taken.add(name)
        stat(f"type {name}")
        pname = f"Plain{m.i}x{k}"
        g = G(m.taken | {name})
        m.renames.append((pname, name.replace("r#", "")))
        enum = r.random() < 0.45
        me, inst = name + g.me(), name + g.inst()
        srcs = []
        head = m.attrs(g, None)
        path = r.choice(ROOTS) + "::DecodeAsType"
        derive = [f"#[cfg_attr(not(feature = \"control\"), derive({path}))]", "#[cfg_attr(feature = \"control\", crate::nothing)]"]
        derive = [f"#[cfg(not(feature = \"control\"))]"]
        vis = r.choice(["pub ", "pub(crate) ", "pub(in crate::decls) ", ""]) if not m.infn else ""
        if not enum:
            kind = r.choice(["named", "named", "tuple", "tuple", "unit"])
            n = r.choice([0, 1, 1, 2, 3, 5])
            fs = m.fields(g, n, me, pname)
            if kind == "unit" and fs: kind = "named"
            semi = "" if kind == "named" else ";"
            w = g.where_text()
            decl = f"{vis}struct {name}{g.decl()}" + (f"{w} {m.body(kind, fs, 0)}" if kind == "named" else f"{m.body(kind, fs, 0)}{w};")
            m.plain.append(f"#[derive(Debug, crate::alias::sd::DecodeAsType, scale_info::TypeInfo)] #[decode_as_type(crate_path = \"crate::alias::sd\")] pub struct {pname} {m.body(kind, fs, 1)}{semi}")
            used = [f for f in fs if not f[2]]
            for j, (sk, sf) in enumerate([(kind, used), ("named", r.sample(used, len(used)) + [("extra", ("u16", "u16"), "")]),
                                          ("tuple", used), ("named", used[1:])]):
                sname = f"Src{m.i}x{k}x{j}"
                m.plain.append(f"#[derive(scale_info::TypeInfo)] pub struct {sname} {m.body(sk, sf, 1)}{'' if sk == 'named' else ';'}")
                srcs.append(sname)
            stat(f"struct, {kind}")
        else:
            vs = []
            for vn in r.sample(VARIANTS, r.choice([0, 1, 2, 3, 5])):
                kind = r.choice(["named", "tuple", "unit"])
                fs = [] if kind == "unit" else m.fields(g if not vs else Bare(g), r.choice([0, 1, 2, 3]), me, pname)
                vs.append((vn, kind, fs))
            # parameters want to be used somewhere
            if (g.lifes or g.types) and not any(v[2] for v in vs):
                vs.append(("Last", "named", m.fields(g, 0)))
            elif g.lifes or g.types:
                vs.append(("Last", "tuple", m.fields(g, 0)))
            w = g.where_text()
            bare = all(v[1] == "unit" for v in vs) and vs and r.random() < 0.5
            if bare: stat("discriminants")
            vt = lambda side: "".join(f"{v[0]} {m.body(v[1], v[2], side, False)}{f' = {7 * i + 3}' if bare else ''}, " for i, v in enumerate(vs)) + ("#[cfg(any())] NotThere(Nothing), " if side == 0 and r.random() < 0.1 else "")
            decl = f"{vis}enum {name}{g.decl()}{w} {{ {vt(0)}}}"
            m.plain.append(f"#[derive(Debug, crate::alias::sd::DecodeAsType, scale_info::TypeInfo)] #[decode_as_type(crate_path = \"crate::alias::sd\")] pub enum {pname} {{ {vt(1)}}}")
            sv = []
            for vn, kind, fs in r.sample(vs, len(vs)):
                used = [f for f in fs if not f[2]]
                if kind == "named" and r.random() < 0.5: used = r.sample(used, len(used))
                if kind == "named" and r.random() < 0.2: kind = "tuple"
                sv.append(f"{vn} {m.body(kind, used, 1, False)}")
            sv.insert(r.randrange(len(sv) + 1), "Stranger(u8)")
            m.plain.append(f"#[derive(scale_info::TypeInfo)] pub enum Src{m.i}x{k} {{ {', '.join(sv)} }}")
            srcs = [f"Src{m.i}x{k}", pname]
            kind = "enum"
            stat("enum")
        others = r.sample(["/// A doc comment.", "#[allow(dead_code)]", "#[non_exhaustive]", "#[must_use]", "#[doc(hidden)]"], r.choice([0, 0, 1, 2]))
        text = "\n".join([f"#[cfg_attr(not(feature = \"control\"), derive({path}))]", "#[derive(::core::fmt::Debug)]"]
                         + [f"#[cfg_attr(not(feature = \"control\"), {h[2:-1]})]" for h in head] + others + [decl])
        if not (g.types or g.consts or g.lifes) and not enum and r.random() < 0.5 and m.inmacro:
            pass
        if m.inmacro:
            stat("from a macro")
            tys = sorted({t[0] for t in [f[1] for f in (fs if not enum else [])] if t[0] in INTS})
            mk = f"mk{m.i}x{k}"
            body = text.replace(f"struct {name}", "struct $n").replace(f"enum {name}", "enum $n")
            # one field's type, a visibility and the name come from without
            pub, first = "", ""
            if vis and body.count(f"\n{vis}struct") == 1:
                body = body.replace(f"\n{vis}struct", "\n$v struct")
                pub = vis
            for n, t, sk in (fs if not enum else []):
                if body.count(f"{n}: {t[0]}, ") == 1 and r.random() < 0.7:
                    body = body.replace(f"{n}: {t[0]}, ", f"{n}: $t, ")
                    first = t[0]
                    stat("fragments in a macro")
                    break
            text = f"macro_rules! {mk} {{ ($v:vis, $n:ident{', $t:ty' if first else ''}) => {{ {body} }} }}\n{mk}!({pub}, {name}{', ' + first if first else ''});"
        # the twin is written out first, so nothing may be left that depends on the order
        m.odd.append(text)
        if not g.lifes or True:
            m.made.append((inst, pname))
        for s in srcs:
            f = "fields" if not enum and s.startswith("Src") else "pair"
            m.pairs.append(f"v.push(crate::{f}::<super::p{m.i}::{s}, super::p{m.i}::{pname}, {inst}>({m.i}, \"{name}\", RENAMES));")

    def text(m):
        ren = ", ".join(f'("{a}", "{b}")' for a, b in m.renames)
        nl = "\n"
        odd = nl.join(m.odd)
        pairs = nl.join(m.pairs)
        ctl = '#[cfg(not(feature = "control"))]'
        inner = f"const RENAMES: &[(&::core::primitive::str, &::core::primitive::str)] = &[{ren}];\n{pairs}"
        if m.infn:
            body = f"{ctl} pub fn pairs(v: &mut ::std::vec::Vec<crate::Pair>) {{\n{odd}\n{inner}\n}}\n#[cfg(feature = \"control\")] pub fn pairs(_: &mut ::std::vec::Vec<crate::Pair>) {{\n{odd}\n}}"
        else:
            body = f"{odd}\n{ctl} pub fn pairs(v: &mut ::std::vec::Vec<crate::Pair>) {{\n{inner}\n}}\n#[cfg(feature = \"control\")] pub fn pairs(_: &mut ::std::vec::Vec<crate::Pair>) {{}}"
        return f"pub mod p{m.i} {{\n{nl.join(m.plain)}\n}}\npub mod h{m.i} {{\n{nl.join(m.scope)}\n{body}\n}} // end {m.i}\n"


class Bare:
    """only the values of a declaration's generics; they are used elsewhere already"""
    def __init__(s, g):
        s.types, s.consts, s.lifes = [], [], []


res = []
for i in range(N):
    m = Mod(i)
    for k in range(r.choice([1, 2, 2, 3])): m.add(k)
    res.append(m.text())
calls = "".join(f"h{i}::pairs(&mut v); " for i in range(N))
res.append(f"pub fn all() -> Vec<crate::Pair> {{ let mut v = vec![]; {calls} v }}\n")
res.append("pub const STATS: &[(&str, u64)] = &[" + ", ".join(f"({k!r:s}, {v})".replace("'", '"', 1) if False else f'("{k}", {v})' for k, v in sorted(STATS.items())) + "];\n")
open(out, "w").write("\n".join(res))
