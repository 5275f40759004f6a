"""Per property: how its cases are made and what makes one non-trivial, and what the manifest says of it."""
GEN = "random registries (structs, enums, tuples, sequences, arrays, compacts, bit sequences, recursion) and random values encoded by our own encoder; "
RULES = {
    "C01": {
        "rule": GEN + "an evaluation is one decode by the recording visitor reading everything, compared step by step with the value; non-trivial: the value has at least two nodes; distinct by type and bytes",
        "technique": "runtime monitoring: recording visitor checked online against an independent model of the value, randomised workloads",
        "note": "Holds on every execution observed; trusts our own encoder and model (cross-checked with the static codec in C06).",
    },
    "C02": {
        "rule": GEN + "an evaluation is one value visited by visitors that read a random mixture of all, part and none of it at each level, or one value of a stream decoded back to back on a single cursor; non-trivial: at least two nodes; distinct by type and bytes",
        "technique": "runtime monitoring: randomly partial readers, cursor position checked against the reference decoder's extent",
        "note": "Exploration of random reading patterns; trusts the reference decoder's extents.",
    },
    "C03": {
        "rule": "well-formed encodings of random types spoiled by our mutator (flips, truncations at every byte of short ones, length and index edits) and random bytes; an evaluation offers one input to a full visit, a decode into a take-everything target and a skip, and compares acceptance with the reference decoder; non-trivial: the reference calls the input malformed; distinct by type and bytes",
        "technique": "runtime monitoring: acceptance, value and consumption of each decode judged against an independent strict reference decoder",
        "note": "Trusts the reference decoder (cross-checked against the static codec in C06 and C18); decodes that read only part make no acceptance claim.",
    },
    "C14": {
        "rule": GEN + "an evaluation is one value walked with every cursor operation mixed at random, the counters and views compared with the model after each step; non-trivial: at least two nodes; distinct by type and bytes",
        "technique": "runtime monitoring: online assertions on cursor state (remaining, views, item ranges, handles) after each operation of a random history",
        "note": "Histories are random, not exhaustive.",
    },
    "C15": {
        "rule": GEN + "an evaluation is one value whose borrowed pieces (strings, 256-bit integers, item ranges, position views, names) are carried out of the decode and compared by address, offset and content; non-trivial: at least two nodes; distinct by type and bytes",
        "technique": "runtime monitoring: addresses and contents of every borrowed slice recorded and judged after the decode, other decodes in between",
        "note": "Zero-length slices are judged by length only.",
    },
    "C16": {
        "rule": GEN + "an evaluation is one decode in which a visitor (or a target inside a built-in or derived container) fails on purpose at a chosen callback and every caller propagates, or in which callers tolerate failures and carry on; non-trivial: a failure was injected into spoiled bytes or inside a target; distinct by type, bytes and failure point",
        "technique": "runtime monitoring with fault injection: visitors failing at chosen callbacks, the error received and everything decoded afterwards checked against the model",
        "note": "Failure points and tolerating patterns are sampled.",
    },
    "C18": {
        "rule": "bit strings of every length to 200 and selected longer ones in the eight formats, encoded by the static codec, with spoiled and truncated variants, alone and inside lists; an evaluation decodes one input by target, by partial reader and by skipping; non-trivial: at least one bit, or malformed; distinct by format and bytes",
        "technique": "runtime monitoring: differential oracle (own bit arithmetic and the static codec) on bits and consumption",
        "note": "The reference and the static codec must agree with each other on every input as well.",
    },
}
DECL = "built-in targets and freshly generated derived declarations against sources made to fit them or deliberately bent (other widths, compact, wrapped, renamed, reordered, extended, shortened); "
NT = "non-trivial and distinct: by target, source type and input bytes"
TRUST = "Trusts the reference conversion (written from the documentation, independent of the crate's code); sources and values are sampled."
RULES.update({
    "C07": {
        "rule": "integers of all widths at and around every power of two and target bound, plain and compact, alone, wrapped and inside containers, into all 22 integer targets; an evaluation is one decode; " + NT,
        "technique": "runtime monitoring: each decode's value or error judged online against exact integer arithmetic",
        "note": "Boundary values of every source width meet every target on each run; other values are sampled.",
    },
    "C08": {
        "rule": DECL + "an evaluation is one pair of decodes of the same value stored plain and compact (or one decode of an impossible compact type); " + NT,
        "technique": "runtime monitoring: twin executions (compact and plain) compared with each other and with a reference conversion",
        "note": TRUST,
    },
    "C09": {
        "rule": DECL + "an evaluation is one pair of decodes, wrapped and unwrapped source or pointer and plain target; " + NT,
        "technique": "runtime monitoring: twin executions (wrapped and unwrapped) compared with each other and with a reference conversion",
        "note": TRUST,
    },
    "C10": {
        "rule": DECL + "an evaluation is one decode into an enum target; " + NT,
        "technique": "runtime monitoring: decodes into generated enums judged online against a reference conversion matching variants by name",
        "note": TRUST,
    },
    "C11": {
        "rule": DECL + "an evaluation is one decode into a struct target; " + NT,
        "technique": "runtime monitoring: decodes into generated structs judged online against a reference conversion matching fields by name or position",
        "note": TRUST,
    },
    "C12": {
        "rule": DECL + "an evaluation is one decode into a list, array, set, tuple or map target; " + NT,
        "technique": "runtime monitoring: decodes into list-like targets judged online against a reference conversion with exact lengths",
        "note": TRUST,
    },
    "C13": {
        "rule": DECL + "an evaluation is one pair of decodes of the same bytes, from the struct type and from the list of its fields; " + NT,
        "technique": "runtime monitoring: twin executions (field list and struct type) compared in value, error and consumption, and with a reference conversion",
        "note": TRUST,
    },
    "C17": {
        "rule": DECL + "an evaluation is one decode whose failure's location is compared with the expected steps; " + NT,
        "technique": "runtime monitoring: the error path of each failing decode judged against the path the reference conversion predicts",
        "note": TRUST,
    },
})
RULES.update({
    "C04": {
        "rule": "random registries made hostile (dangling ids, impossible compacts, repeated indices and names, gigantic arrays) and inputs valid, spoiled, repeated or random, offered to a visitor that does anything the public API allows in any order and to every built-in and generated target and field list; an evaluation is one decode; non-trivial and distinct: by target, type and bytes",
        "technique": "runtime monitoring: panic hook, crash and hang monitors and AddressSanitizer over hostile workloads; every slice handed out checked to lie in the input",
        "note": "Stack exhaustion by unbounded nesting is a known finding shown separately; the workloads stay below that depth. Overflow checks and debug assertions are on.",
    },
    "C05": {
        "rule": "lengths and array sizes that nothing backs, at every place a length is written; recursive values and towers of types up to 120 levels deep; honest long lists; each skipped, read in full, stepped over by handles and decoded into targets; an evaluation is one decode whose allocations, lookups and processor time are measured; distinct by type, target and bytes",
        "technique": "runtime monitoring: counting allocator, counting and budgeted type resolver and thread CPU clock around each decode, judged against bounds computed from the bytes and items really present",
        "note": "Bounds are generous (2 kB per byte or item, 4 lookups per item and level): only cost that grows with a declaration or faster than the items is reported. Lists of zero-sized items are a known finding.",
    },
})
RULES["C06"] = {
    "rule": "about 150 Rust types (all built-in ones, and generated structs and enums with skipped, compact and indexed parts, deriving the static codec, its type information and the type-guided decode) on the static encoder's bytes, on values made from the type information, on truncations, changed bytes and noise; an evaluation is one byte string decoded by both; distinct by type and bytes",
    "technique": "runtime monitoring: online differential comparison of parity-scale-codec's Decode with DecodeAsType, value, consumption and acceptance, on overflow-checked builds",
    "note": "Trusted: parity-scale-codec and scale-info. Left out of the generator and shown separately as known findings: Cow of a struct, PhantomData elements not marked as skipped, BTreeMap<String, T>, Compact<()>.",
}
RULES["C23"] = {
    "rule": "generated structs and enums with fields marked to be skipped (both spellings, other attributes before, after and within the same attribute, undecodable field types, parameters used in skipped fields only, restricted bounds) against sources with and without fields of those names, by type and by field list; an evaluation is one decode; " + NT,
    "technique": "runtime monitoring: decodes into generated declarations judged online against a reference conversion that gives skipped fields their default; a declaration that fails to compile is reported as well",
    "note": TRUST,
}
RULES["C25"] = {
    "rule": "targets (built-in and generated) and sources that do not fit them; good bytes with one value spoiled or cut off, good bytes whose types are unknown, unresolvable or wrongly said to be compact, each read in full, through adaptors, skipped, and into fitting targets; visitors that handle nothing, or only containers, at values of every kind; errors of every kind converted, adapted and located; an evaluation is one failure whose cause is judged; distinct: by target, type and bytes",
    "technique": "runtime monitoring: single faults injected into known-good decodes, and misfits known from a reference conversion; the cause each error names judged online against the injected or predicted one",
    "note": TRUST + " Running out of input may be reported as NotEnoughInput or as the codec's own error. Wording is not judged, only that the text contains the numbers and names in question.",
}
RULES["C19"] = {
    "rule": "the same types behind a PortableRegistry, a renumbered one, and a resolver of our own with ids of another kind (ids with lifetimes of their own, several ids for one type), and resolvers that fail at, or from, any lookup, at one type, or do not know a type; every target, skip, whole read and field list; an evaluation is one decode compared across resolvers or judged under a fault; " + NT,
    "technique": "runtime monitoring: online differential comparison of decodes of one value behind different resolvers, and resolver fault injection with a monitor of what must come back",
    "note": "Trusts the three resolvers of the harness to describe the same types (each is generated from one model). Faults are persistent or one-shot at sampled lookups.",
}
RULES["C20"] = {
    "rule": "visitors whose hooks accept, delegate, fail, return another value, step over bytes and then decline, at random ids, over random types and values, with error adaptors placed at random levels; targets whose own visitor is adapted once or twice, inside containers; an evaluation is one decode judged against the reference decoder's positions and values; " + NT,
    "technique": "runtime monitoring: a spying visitor records hook arguments (id, bytes, resolver) and results, judged online against a reference decoder; adapted and plain visitors compared",
    "note": "Hooks inside compact structs cannot know that they are in a compact context; the workload accounts for that. Trusts the reference decoder.",
}
RULES["C21"] = {
    "rule": "a corpus of small and medium decodes (built-in and generated targets, field lists, skips, the explorer and the wild visitor; well-formed, spoiled, truncated, and with other lengths written over the real ones, among them 2^31, 2^32-1 and 2^32+n over n real items) played on 64-bit little-endian (compiled), 32-bit little-endian (compiled to WebAssembly), 64-bit big-endian, 32-bit and 64-bit little-endian (interpreted); an evaluation is one decode played on one platform and compared; distinct: by what is done, target, type and bytes",
    "technique": "runtime monitoring: outcomes recorded on one platform compared with those on others; undefined-behaviour interpreter (Miri) for s390x, i686 and x86_64; overflow and trap monitors under WebAssembly",
    "note": "The interpreted platforms see small values only and far fewer of them. Outcomes compared: value, kind and place of the error, bytes left, and the visitors' event counts. Lengths beyond 32 bits must be errors where pointers have 32 bits.",
}
RULES["C22"] = {
    "rule": "sets of two to four registries with about ten decodes each (built-in and generated targets, field lists, skips, the explorer, the wild visitor; well-formed, spoiled and truncated inputs, the same bytes for several types), each done alone and then again in other orders, in a fresh thread, inside each other's lookups and callbacks up to four deep, with registries and inputs taking each other's places in memory, on two to five threads at once, and in fresh processes; an evaluation is one decode compared with what it gave alone; distinct: by what is done, target, type and bytes",
    "technique": "runtime monitoring: outcomes of repeated, nested, displaced and concurrent decodes compared with a solo run and with fresh processes; ThreadSanitizer over the whole program and standard library",
    "note": "Compared: values, whole error texts, bytes left, visitor events. Interleavings are provoked by yields at every lookup and callback, not enumerated; the evidence counts the thread switches and distinct switch orders seen.",
}
RULES["C24"] = {
    "rule": "generated modules of structs and enums that derive DecodeAsType in awkward surroundings (types, parameters, lifetimes, fields and variants named like what derived code uses; local items that shadow the prelude; generics, bounds, where clauses, defaults; crate_path, trait_bounds and other attributes; in functions and macros; visibility; recursion; blanket traits with the methods derived code calls; editions 2018, 2021 and 2024; a no_std crate; a crate that has scale-decode under another name), each compiled and then compared with a plainly declared twin on the same bytes, by type and by field list; an evaluation is one pair of decodes, or one declaration the compiler has to refuse or take; distinct by declaration and bytes",
    "technique": "runtime monitoring: differential comparison of derived decoders with plainly declared twins while decoding valid and spoiled values; the compiler's own diagnostics on generated declarations taken as events and judged (accepted with the derive exactly if accepted without, refusals without a panic and at the declaration)",
    "note": "Whether a declaration compiles is observed from the compiler, not at run time of the decoder. The twin itself is judged by C10, C11 and C23. Out of scope: names that start with ScaleDecode, constants named in lower case like locals of the derived code, edition 2015.",
}
