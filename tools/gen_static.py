#!/usr/bin/env python3
"""gen_static.py SEED OUT: writes Rust declarations that derive both the static codec and DecodeAsType."""
import random, sys

seed, out = sys.argv[1], sys.argv[2]
r = random.Random(f"static-{seed}")
UINTS = ["u8", "u16", "u32", "u64", "u128"]
INTS = UINTS + ["i8", "i16", "i32", "i64", "i128"]
NAMES = ["a", "b", "c", "value", "x1", "foo_bar", "_under", "inner", "e", "input", "index", "B", "scale", "key", "fields", "val"]
VARS = ["A", "B", "C", "Some", "None", "Ok", "Err", "Foo", "foo", "Unit", "Longer_Name", "X1", "Z", "Visitor"]
# concrete types by whether they have an order, or can be cloned cheaply
made, compacts = [], []
src, entries = [], []
count = 0


def leaf():
    return r.choice(INTS * 2 + ["bool", "bool", "String", "String", "()", "NonZeroU8", "NonZeroU16", "NonZeroI32", "NonZeroU64", "NonZeroI128", "H128", "H160", "H256", "H512", "Bits",
                                "Compact<u8>", "Compact<u16>", "Compact<u32>", "Compact<u64>", "Compact<u128>"] + [f"Compact<{x}>" for x in compacts])


def ordleaf():
    return r.choice(INTS + ["bool", "String", "(u8, u16)", "Vec<u8>", "Option<u8>", "[u8; 3]"])


def ty(d=2):
    k = r.random()
    if d == 0 or k < 0.35: return leaf()
    if k < 0.55 and made: return r.choice(made)
    s = lambda: ty(d - 1)
    x = r.randrange(16)
    if x == 0: return f"Vec<{s()}>"
    if x == 1: return f"Option<{s()}>"
    if x == 2: return f"Result<{s()}, {s()}>"
    if x == 3: return f"Box<{s()}>"
    if x == 4: return f"[{s()}; {r.choice([0, 1, 2, 3, 5, 32])}]"
    if x == 5: return f"({s()}, {s()})"
    if x == 6: return f"({s()},)"
    if x == 7: return f"Arc<{s()}>"
    if x == 8: return f"BTreeSet<{ordleaf()}>"
    if x == 9: return f"Range<{r.choice(INTS)}>"
    if x == 10: return f"RangeInclusive<{r.choice(INTS)}>"
    if x == 11: return f"Rc<{s()}>"
    if x == 12: return f"Cow<'static, {r.choice(INTS + ['str', '[u16]', '[bool]', 'Vec<u8>', 'Option<u8>', 'String', '[u8; 3]'] + [x for x in made if x[0] == 'Q'])}>"
    if x == 13: return f"VecDeque<{s()}>"
    if x == 14: return f"({s()}, {leaf()}, {leaf()}, {s()})"
    return f"Vec<Option<{leaf()}>>"


def field(named, name, i, vis):
    k = r.random()
    if k < 0.14:
        t = r.choice(UINTS + compacts)
        a = "#[codec(compact)] "
    elif k < 0.24:
        t = r.choice(INTS + ["String", "Vec<u8>", "Option<bool>"])
        a = "#[codec(skip)] "
    else:
        t, a = ty(), ""
    v = "pub " if vis else ""
    return f"{a}{v}{name}: {t}" if named else f"{a}{v}{t}"


def body(kind, n, vis):
    if kind == "unit": return ""
    ns = r.sample(NAMES, n)
    fs = [field(kind == "named", ns[i], i, vis) for i in range(n)]
    return " { " + ", ".join(fs) + " }" if kind == "named" else "(" + ", ".join(fs) + ")"


D = "#[derive(Clone, Debug, PartialEq, Encode, Decode, TypeInfo, DecodeAsType)]"


def struct(kind=None, n=None):
    global count
    name = f"P{count}"; count += 1
    kind = kind or r.choice(["named"] * 4 + ["tuple"] * 3 + ["unit"])
    n = r.choice([0, 1, 1, 2, 2, 3, 4, 6, 9]) if n is None else n
    b = body(kind, n, True)
    src.append(f"    {D}\n    pub struct {name}{b}{'' if kind == 'named' else ';'}")
    made.append(name); entries.append(name)


def enum(n=None, disc=False):
    global count
    name = f"Q{count}"; count += 1
    n = n or r.choice([1, 2, 3, 4, 6])
    vs = r.sample(VARS, n) if n <= len(VARS) else [f"V{i}" for i in range(n)]
    idx = r.sample(range(256), n)
    out = []
    mode = "disc" if disc else r.choice(["none", "all", "none"])
    for i, v in enumerate(vs):
        kind = "unit" if mode == "disc" else r.choice(["unit", "tuple", "tuple", "named"])
        m = r.choice([0, 1, 1, 2, 3])
        s = v + body(kind, m, False)
        if mode == "disc": s += f" = {idx[i]}"
        if mode == "all": s = f"#[codec(index = {idx[i]})] " + s
        out.append(s)
    src.append(f"    {D}\n    pub enum {name} {{ " + ", ".join(out) + " }")
    made.append(name); entries.append(name)


for i, t in enumerate(r.sample(UINTS, 4)):
    n = f"K{i}"
    b = f"(pub {t});" if i % 2 else f" {{ pub {r.choice(NAMES)}: {t} }}"
    src.append(f"    #[derive(Clone, Debug, PartialEq, Encode, Decode, TypeInfo, DecodeAsType, CompactAs)]\n    pub struct {n}{b}")
    compacts.append(n); made.append(n); entries.append(n); entries.append(f"Compact<{n}>")
for k in ("named", "tuple", "unit"):
    for n in (0, 1, 2, 3): struct(k, n)
for _ in range(8): enum()
enum(5, disc=True)
enum(60)
for _ in range(14): struct()
for _ in range(12): enum()
# recursion
src.append(f"    {D}\n    pub enum Tree {{ Leaf(u8), #[codec(index = 7)] Two {{ l: Box<Tree>, r: Box<Tree> }}, Many(Vec<Tree>) }}")
src.append(f"    {D}\n    pub struct Chain {{ pub next: Option<Box<Chain>>, #[codec(compact)] pub n: u64 }}")
entries += ["Tree", "Chain"]
src.append(f"    {D}\n    pub struct Gen<T, const N: usize> {{ pub a: T, pub b: [T; N], pub c: Vec<T> }}")
entries += ["Gen<u16, 2>", "Gen<Option<bool>, 0>", "Gen<(u8, Compact<u32>), 1>"]
for _ in range(40):
    t = ty(3)
    if t not in entries: entries.append(t)
BUILTIN = INTS + ["bool", "String", "()", "Bits", "H128", "H160", "H256", "H384", "H512", "H768", "PhantomData<String>", "Vec<PhantomData<u8>>", "[PhantomData<u8>; 3]", "Box<PhantomData<u8>>"] + [
    f"NonZero{x.upper()}" for x in INTS] + [f"Compact<{x}>" for x in UINTS] + ["(u8,)", "(u8, u16, String)", "Vec<u8>", "Vec<u64>", "Vec<()>", "Vec<String>", "Vec<Vec<bool>>",
    "VecDeque<u16>", "BTreeSet<u32>", "BTreeSet<String>", "[u8; 0]", "[u8; 1]", "[u32; 4]", "[bool; 33]", "Option<u8>", "Option<Option<bool>>", "Result<u8, String>",
    "Box<u32>", "Arc<String>", "Rc<Vec<u8>>", "Cow<'static, str>", "Cow<'static, [u8]>", "Cow<'static, u64>", "Range<u8>", "RangeInclusive<i64>", "(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, String)"]
for b in BUILTIN:
    if b not in entries: entries.append(b)
text = "pub mod st {\n    #![allow(dead_code, unused, non_camel_case_types, non_snake_case, clippy::all)]\n    use super::*;\n" + "\n".join(src)
text += "\n    pub fn all() -> Vec<St> { vec![" + ", ".join(f"entry::<{t}>(|a, b| a == b)" for t in entries) + "] }\n}\n"
try:
    old = open(out).read()
except OSError:
    old = None
if old != text: open(out, "w").write(text)
