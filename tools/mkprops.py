#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os
V="scale-decode/src/visitor/"; T=V+"types/"; I="scale-decode/src/impls/mod.rs"; D="scale-decode-derive/src/lib.rs"
L="scale-decode/src/lib.rs"; DEC=V+"decode.rs"; VM=V+"mod.rs"; E="scale-decode/src/error/"
CONT=[T+x for x in ("composite.rs","tuple.rs","array.rs","sequence.rs","variant.rs")]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

p("C01","A full visit reports exactly the encoded value and consumes exactly it",
 "For any type registry and any value of any type in it, decoding the value's SCALE encoding with a visitor that reads everything reports exactly that value: every number, bool, char, string, 256-bit integer, bit, field name, variant name and index, type id and type path, in order, with nothing missing or invented. Afterwards the input points at exactly the first byte behind the value, whatever bytes follow it.",
 ["inputs","programs"],"all registries, types, values and trailing bytes",
 "The tests visit a few dozen hand-written values, nearly always with nothing after them; no test quantifies over type shapes, nesting or trailing bytes.",
 [DEC,VM]+CONT+[T+"str.rs",T+"bit_sequence.rs"],
 [("type-directed dispatch to visitor callbacks",DEC+": ResolvedTypeVisitor for Decoder"),("cursor advance after each value",DEC+": skip_decoding_and_return!")],
 [dict(name="input cursor",meaning="first byte not yet consumed",where=DEC)],["decode_with_visitor result and remaining input"])
p("C02","However much a visitor reads, the cursor ends right after the value",
 "A visitor may read all, none or some of any value, at every nesting level, in any mixture of item decoding, item iteration, explicit skipping and simply ignoring what it was given. If the decode succeeds, the input is left at exactly the end of that value, the same position as after a full read, and everything decoded afterwards is unaffected.",
 ["inputs","histories"],"all types, values, and all sequences of cursor operations a visitor can perform at each level",
 "The tests skip a handful of values in one or two fixed ways; partial reads mixed with skipping inside nested values are not exercised.",
 [DEC]+CONT+[T+"str.rs",T+"bit_sequence.rs"],[("skip whatever the visitor left",DEC+": skip_decoding_and_return!"),("IgnoreVisitor",VM),("per-container skip_decoding",T)],
 [dict(name="item_bytes / next_field_idx / remaining",meaning="position of the undecoded items",where=T)],["remaining input after decode_with_visitor"])
p("C03","Malformed or truncated bytes never decode to a value",
 "A decode that reads a whole value succeeds only if the input starts with a well-formed SCALE encoding of that type: truncation at any byte, an invalid bool, char or UTF-8 string, an unknown variant index, a non-minimal or too-wide compact integer, or a type id the registry cannot resolve always yields an error, never a value. Stepping through a container likewise hands out exactly the items before the one that is cut short or spoiled, and an error for that one. Whether it succeeds or fails, the input that is left is a tail of the original input.",
 ["inputs"],"all byte strings and all types",
 "Two proptests feed short random bytes to bit sequences and strings only and check for the absence of panics, not that the answer is right.",
 [DEC,T+"str.rs",T+"sequence.rs",T+"array.rs",T+"variant.rs",T+"bit_sequence.rs"],[("length and availability checks",T+"str.rs: bytes_after/as_str"),("variant lookup",T+"variant.rs: Variant::new"),("primitive decoding",DEC+": visit_primitive")],
 None,["Ok/Err of decode_with_visitor and remaining input"])
p("C04","Hostile input never panics, aborts or touches memory out of bounds",
 "For any input bytes, any registry (including dangling type ids, impossible compact types and enormous declared lengths) and any target type or visitor, decoding returns a value or an error. It never panics, overflows, aborts or reads memory outside the input.",
 ["inputs","programs"],"all byte strings, registries (well formed or not) and target types",
 "The existing proptests cover strings and bit sequences of a few bytes; no test feeds hostile bytes to composites, sequences, compact values or the high-level target types, and none runs under a sanitizer.",
 [DEC,I,D]+CONT+[T+"str.rs",T+"bit_sequence.rs"],[("checked slicing",T),("arity checks before expect/unwrap",I+": tuple_method_impl!"),("field count check before expect",D)],None,["panic hook, ASan report, exit status of the workload process"])
p("C05","Decoding cost follows the input, not the lengths it declares",
 "The memory allocated while decoding, and the number of type lookups made, are bounded by a small multiple of the number of bytes and items actually present in the input (with an extra factor of at most the nesting depth for lookups). A declared length or item count that the input does not back with bytes never causes allocation or work in proportion to it.",
 ["inputs","programs"],"all byte strings, types and targets",
 "No test measures allocation or work; every test input is small and honest about its lengths.",
 [T+"array.rs",T+"sequence.rs",I,D,DEC],[("incremental collection, no pre-allocation from declared length",I+": decode_items_using"),("skip stops at the first failure",T+"array.rs: skip_decoding"),("linear skipping",VM+": IgnoreVisitor")],None,["counting global allocator, counting type resolver"])
p("C06","Type-guided decoding agrees with the static codec",
 "For every Rust type that has a static SCALE codec, type information for it, and a type-guided decode, bytes produced by the static encoder decode through the type information to the identical value with identical consumption. On arbitrary bytes both decoders accept or reject alike and, when they accept, agree on value and consumption (only Duration's sub-second field is normalised rather than refused).",
 ["inputs","programs"],"all values of, and all byte strings offered to, the types implementing both decoders, including derived structs and enums",
 "Tests round-trip one to three literals per type; rejection behaviour is never compared.",
 [I,"scale-decode/src/impls/primitive_types.rs",D,DEC],[("built-in target visitors",I),("derived visitors",D)],None,["DecodeAsType::decode_as_type against parity_scale_codec::Decode"])
p("C07","Integers convert exactly or are refused",
 "Decoding an encoded integer of any width and signedness, compact or not, into any integer target type (including usize, isize and the NonZero types) yields exactly the same mathematical number when the target can represent it. Otherwise it yields an out-of-range error naming that number; it never wraps, truncates, saturates or changes sign.",
 ["inputs"],"all source integers of all ten widths and compact forms, all 22 integer targets",
 "Tests convert a few small literals and check very few out-of-range cases.",
 [I,DEC],[("checked conversion",I+": visit_number_impl!"),("width dispatch",DEC+": visit_primitive")],None,["value or error kind of decode_as_type"])
p("C08","Compact encoding is transparent to the target",
 "If a value is stored compact-encoded, whether directly or as a chain of single-field structs or tuples around an unsigned integer, then every target type decodes it to exactly the result it would give for the same value stored non-compact, at every position and through every wrapper or pointer type in the target (a one-element tuple target counts the compact marker itself as a wrapper it may look through). A compact marker on a type that cannot be compact (anything but an unsigned integer inside single-field wrappers) is always an error.",
 ["inputs","programs"],"all compact source types, values, positions inside larger values, and targets",
 "Tests cover a handful of compact values into plain integers and derived structs with plain integer fields.",
 [DEC,T+"composite.rs",T+"tuple.rs",I,D],[("compact flag threaded through nested decoding",DEC+": decode_with_visitor_maybe_compact"),("items remember compactness",T+"composite.rs: CompositeField")],
 [dict(name="is_compact",meaning="the value at the cursor is compact encoded",where=DEC)],["decode_as_type on compact and plain twins"])
p("C09","Single-field wrappers and smart pointers are transparent",
 "Wrapping the encoded type in any number of single-field structs or one-element tuples does not change what it decodes to for scalar, string, list, bit-sequence, option, result and enum targets. Box, Rc, Arc and Cow of a target, its Compact wrapper, and a one-element tuple of it over a non-struct, non-tuple source, decode exactly when the target itself does, to the same value and with the same consumption.",
 ["inputs","programs"],"all source types, wrapper chains, values and transparent targets",
 "Tests wrap a couple of values one level deep.",
 [I,D],[("look through single-field composite/tuple",I+": visit_single_field_composite_tuple_impls!"),("delegating targets",I+": impl_into_visitor_like!")],None,["decode_as_type on wrapped and unwrapped twins"])
p("C10","Enum variants are matched by name, never by index or position",
 "When decoding into an enum (derived, Option or Result), the variant chosen is the one whose name equals the name the registry gives the encoded index, whatever the indices and order on either side, and its fields are matched as for structs (a target variant without fields ignores any the source has). A name the target lacks is an error reporting that name, and an index the registry lacks is an error; neither ever yields some other variant.",
 ["inputs","programs"],"all enum declarations and source enums related by permutation, renaming, insertion and removal of variants, all values",
 "Tests use a few enums with identical declaration order on both sides.",
 [D,I,T+"variant.rs"],[("name comparison per variant",D+": generate_enum_impl"),("index lookup in registry",T+"variant.rs: Variant::new")],None,["decoded value or error kind"])
p("C11","Struct fields are matched by name, or strictly by position if unnamed",
 "When the encoded struct or variant has named fields, each named field of the target takes the value of the source field with that name, regardless of order; extra source fields are stepped over and a missing one is an error naming it. When either side lacks names (tuples, unnamed fields), fields pair up by position and the counts must match exactly, otherwise it is a length error; values are never taken from a different field.",
 ["inputs","programs"],"all derived struct and variant declarations, source field permutations, extensions, removals, and values",
 "Tests use a handful of structs, mostly with the same fields on both sides and in the same order.",
 [D,T+"composite.rs",T+"tuple.rs"],[("name-keyed field map",D+": named_field_keyvals"),("positional fallback with count check",D+": unnamed_field_vals")],None,["decoded value or error kind"])
p("C12","Lists and tuples convert element-wise with exact lengths",
 "Sequences and arrays decode into any list-like target (growable lists, sets, heaps, fixed arrays, byte hashes) holding exactly the encoded elements, in order where the target has one; a fixed-length target accepts exactly its own length and otherwise reports a length error giving both lengths. Tuples decode from tuples and structs of exactly the same arity, position by position, and a string-keyed map decodes from a struct's named fields, one entry per name.",
 ["inputs","programs"],"all element types, lengths, arities up to 20, and list targets",
 "Tests use short literal lists and tuples with a single mismatch case.",
 [I,"scale-decode/src/impls/primitive_types.rs"],[("collect items",I+": decode_items_using"),("length check",I+": array_method_impl!, tuple_method_impl!")],None,["decoded value or error kind"])
p("C13","Decoding from a field list equals decoding from the struct type",
 "Decoding a struct or tuple target from an explicit list of fields gives the same value, the same failure and the same consumption as decoding it from a struct type having those fields (an empty list is a struct type without fields). On success every listed field's bytes are consumed, read by the target or not, and nothing more; a failure reported is the target's own, not one from stepping over leftovers.",
 ["inputs","programs"],"all derived structs and tuples, field lists (named or not, compact, extra, missing) and bytes",
 "A few tests decode one list that matches the target exactly.",
 [L,I,D],[("field-list entry point for derived types",D+": DecodeAsFields"),("field-list entry point for tuples",I+": impl_decode_tuple!")],None,["decode_as_fields against decode_as_type"])
p("C14","Item cursors account for every item and every byte",
 "While a visitor steps through a struct, tuple, variant, sequence or array, the reported number of remaining items falls by one per item from the true count to zero, after which no item is produced; the undecoded-bytes view always starts at the next item, and the start view never moves. The byte ranges handed out for items are consecutive and exactly cover the items; decoding an item from its handle (by visitor or into a type, any number of times) equals decoding it in place, and the handle says rightly whether the item is stored compact; converting a partly read struct to a tuple covers exactly its unread fields.",
 ["inputs","histories"],"all container values and all interleavings of item decoding, iteration, peeking, conversion and skipping",
 "Tests iterate a few containers start to end in one way and never look at the counters midway.",
 CONT,[("cursor bookkeeping",T+"*.rs: decode_item/next"),("item handles",T+"composite.rs: CompositeField, tuple.rs: TupleField, array.rs: ArrayItem")],
 [dict(name="remaining()",meaning="number of undecoded items",where=T)],["remaining(), bytes_from_undecoded(), item.bytes(), item re-decode"])
p("C15","Borrowed data points into the caller's input and registry",
 "Strings, 256-bit integers, item byte ranges and position views handed to a visitor are the very bytes of the caller's input at the offset of the encoded item, not copies or neighbours. They stay valid and unchanged after decoding has finished, as do borrowed names.",
 ["inputs"],"all types and values",
 "Two tests borrow a pair of strings; none checks addresses or offsets.",
 [DEC,T+"str.rs"]+CONT+[T+"bit_sequence.rs"],[("lifetime-preserving slicing",DEC+": decode_32_bytes, "+T+"str.rs: as_str")],None,["addresses and offsets of borrowed slices"])
p("C16","Visitor errors come back unchanged and never misalign later items",
 "If a visitor returns an error at any level and every enclosing visitor passes it on, the caller receives exactly that error, never one caused by stepping over leftover bytes, even when those bytes are malformed. If an enclosing visitor instead tolerates a failed item of well-formed input and carries on, everything decoded afterwards comes from its own bytes: items after a failed list element decode correctly, a struct or tuple yields no further items, and the decode ends at the end of the whole value.",
 ["inputs","histories","fault_sequences"],"all values, all points at which a visitor call can fail, all mixtures of propagating and tolerating callers",
 "Five tests fail every item at the first callback with propagation only; tolerant callers, failures at other points and bit sequences are not covered.",
 [DEC]+CONT+[I,D],[("prioritise visitor errors",DEC+": skip_decoding_and_return!"),("stop iteration after failure",T+"composite.rs: decode_item"),("continue after failure",T+"array.rs: decode_item")],None,["error returned; items and cursor after a tolerated failure"])
p("C17","Errors name the place they happened, outermost step first",
 "When decoding into a built-in or derived target fails inside a value, the error's location lists the steps leading from the outermost value to the failing one, in that order: the target's field name for a named field, the position for an element of a list, tuple or array or an unnamed field, and the variant for the built-in Option and Result. Locations never include steps that do not lead to the failure. (Where the bytes themselves are malformed, rather than of a kind, size or number that does not fit, the steps may stop at the struct whose fields were being looked over, but every step named leads to the malformed value.) The location's text lists the same steps, none running into the next.",
 ["inputs","programs"],"all failing decodes into nested targets",
 "No test reads an error's location.",
 [E+"context.rs",E+"mod.rs",I,D],[("location pushed while unwinding",E+"mod.rs: at_idx/at_field/at_variant"),("path display",E+"context.rs: Path")],None,["Error::context().path() and Display"])
p("C18","Bit sequences decode bit for bit in every storage format",
 "A bit sequence in any of the eight store and order formats decodes to exactly the encoded bits in order, and decoding or skipping it consumes exactly its encoded size (length prefix plus whole storage words), whether or not the bits were read, and agreeing with the static codec. Truncated storage or an invalid length prefix is an error.",
 ["inputs"],"all bit strings, eight formats, positions inside larger values, truncations",
 "A test skips five bit strings per format; a proptest feeds random bytes only for absence of panics.",
 [T+"bit_sequence.rs",DEC,I],[("format selection",DEC+": visit_bit_sequence"),("size computation and bounds check",T+"bit_sequence.rs: bytes_after/decode")],None,["decoded bits and remaining input"])
p("C19","The result depends on the types, not on who resolves them",
 "Any resolver describing the same types leads to the same result and consumption: renumbering type ids, using other id types, duplicating types or adding unrelated ones changes nothing. If the resolver fails or does not know a type that is needed, decoding reports an error mentioning it, and types that are not needed for the encoded value are not required to resolve.",
 ["inputs","programs","fault_sequences"],"all resolvers, id types, renumberings, and resolver failures at any lookup",
 "All tests use one resolver with freshly generated ids and no failures.",
 [DEC,L,I]+CONT,[("resolver-generic decoding",DEC+": Decoder")],None,["results across resolvers; resolver fault injection"])
p("C20","Custom decode hooks and error adaptors keep the decode intact",
 "A visitor's hook is asked about every value before the value is decoded, under the type the value is then visited with. A visitor that takes over decoding at its hook receives the untouched input position, the right type id and registry, its result is returned as is and the input continues from where it left off; a visitor that declines without consuming anything leaves the ordinary decode unchanged (one that declines after stepping over some bytes has the ordinary decode go on from there). Asking the hook of a built-in or derived target's visitor first, as a visitor does that hands a value on to it, and decoding with that visitor where it declines, gives what decoding into the target gives. Adapting a visitor's error type gives the same values, consumption and callbacks as the visitor alone, with the error converted, wherever it is used.",
 ["inputs","programs"],"all types and values, hooks accepting or declining at any level, adapted and plain visitors",
 "One test bails out at the top level and one wraps a visitor once.",
 [VM,DEC],[("hook before dispatch",DEC+": unchecked_decode_as_type call"),("error adaptor",VM+": VisitorWithCrateError")],None,["hook arguments, result and cursor"])
p("C21","Results do not depend on the platform",
 "The same bytes, type and registry give the same value, error kind and consumption on 32-bit and 64-bit, little-endian and big-endian targets (apart from the range of pointer-sized integer targets), and without undefined behaviour on any of them. In particular lengths too large for the platform's pointer size are errors, not silently shortened.",
 ["inputs","configurations"],"all inputs and types, on the supported pointer widths and byte orders",
 "Tests run on one 64-bit little-endian machine.",
 [T+"sequence.rs",T+"str.rs",T+"array.rs",I,DEC],[("length conversion",T+"sequence.rs: Sequence::new"),("offset arithmetic",T+"str.rs")],None,["digest of results under the UB interpreter on x86_64, i686 and s390x"])
p("C22","Decoding is a pure function of bytes, type and registry",
 "Repeating a decode, running it after or in between others with different registries or targets, nesting one decode inside another's visitor, or running many at once on several threads sharing one registry and one input, always gives the result of running it alone. Nothing is remembered between decodes, and no data race occurs.",
 ["schedules","histories","inputs"],"all histories and thread interleavings of decodes sharing registries and inputs",
 "Every test performs independent single-threaded decodes and compares each once.",
 [L,DEC,I,D]+CONT,[("no shared mutable state",DEC)],None,["results of concurrent and repeated decodes against a solo run"])
p("C23","Skipped target fields take their default and are never looked for",
 "A target field marked to be skipped, in a struct or an enum variant and whatever other codec attributes accompany the mark, always takes its default value: no source field is read for it, required for it or counted for it, even if the source has a field of that name. All other fields decode as if the skipped one were not declared, for any generic parameters and bounds.",
 ["inputs","programs"],"all derived declarations with skipped fields, sources with and without same-named fields, values",
 "Three tests skip fields in fixed declarations where the source simply lacks them.",
 [D],[("skip attribute",D+": FieldAttrs"),("count excludes skipped fields",D+": named_field_keyvals/unnamed_field_vals")],None,["decoded value"])
p("C24","The derive macro works for every struct and enum, wherever it is written",
 "Deriving DecodeAsType compiles for every struct and enum whose fields can be decoded (or are skipped and have a default), whatever it, its parameters, lifetimes, fields and variants are called, whatever else is in scope, with any generics, bounds, attributes and visibility, from macros, in functions, in crates without the standard library and with the crate under another path; the result decodes exactly like a plainly declared type with the same fields. What cannot be derived (unions, bad attributes, undecodable fields) is refused with a compile error at the declaration, never by a panic of the macro and never silently. (Names starting with ScaleDecode, and constants named in lower case like locals, are the macro's own.)",
 ["programs","inputs"],"all declarations a crate may contain, and all values decoded into them",
 "Some thirty plain declarations in the tests' own modules.",
 [D],[("generated impls",D+": generate_struct_impl/generate_enum_impl"),("generics",D+": handle_generics"),("attributes",D+": TopLevelAttrs::parse")],None,["whether it compiles; decoded values compared with a twin"])
p("C25","Errors name what was wrong",
 "When a decode fails, the error tells the actual cause, and the right one. Where the target (or visitor) does not handle what it meets, the error is `Unexpected` with exactly the kind of value met, and visit_unexpected is asked once, with that kind. Where the bytes are wrong in one place, the error is that fault: the unknown variant index, the invalid char's number, invalid UTF-8, a bool or compact that cannot be, input that ran out; where a type cannot be had, its id or the resolver's own message; where something cannot be compact, that. A variant the target lacks is named together with exactly the names the target has; a missing field is named; a number out of range is quoted; both lengths are given where lengths differ. Converting, adapting and locating an error, custom ones included, never changes what it says is wrong, and its text says so too.",
 ["inputs","programs"],"all types, values, single faults in them, and targets or visitors that do not fit",
 "The tests assert that some decodes fail; the few that look at the error do so for one value each.",
 [E+"mod.rs",VM,DEC,I,D]+[T+x for x in ("str.rs","variant.rs","bit_sequence.rs","sequence.rs")],[("default visit methods",VM+": Visitor"),("decode faults",DEC),("target mismatches",I),("derived mismatches",D),("conversions",E+"mod.rs")],None,["Error::kind(), DecodeError and their Display"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
