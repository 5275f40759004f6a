// Included by the corpus maker and the player: both must number the targets alike.
mod gen {
    include!(concat!(env!("GEN_DIR"), "/types.rs"));
}
fn targets<R: scale_decode::TypeResolver>() -> Targets<R> {
    use mon::targets::*;
    let mut e = builtin_entries();
    e.extend(gen::decls::enums());
    e.extend(gen::decls::others());
    let s: Vec<SEntry<R>> = gen::decls::structs();
    e.extend(s.iter().map(|x| x.e.clone()));
    Targets { e, s }
}
