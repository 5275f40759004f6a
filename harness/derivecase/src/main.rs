//! Types that derive DecodeAsType in awkward surroundings against their plainly declared twins, on the same input.
use mon::model::{from_portable, Model};
use mon::run::{self, cut, hex, Case};
use mon::val::{gen_value, mutate, RErr, RefDec, ValOpts};
use alias::sd::{DecodeAsFields, DecodeAsType, Field};
use scale_info::{PortableRegistry as P, TypeDef, TypeInfo};
#[global_allocator]
static A: run::Counting = run::Counting;

/// For crates that have scale-decode under another name.
pub mod alias {
    #[cfg(feature = "renamed")]
    pub use renamed as sd;
    #[cfg(not(feature = "renamed"))]
    pub use scale_decode as sd;
    pub mod deep {
        pub mod er {
            pub use super::super::sd;
        }
    }
}
/// Every type has methods by these names.
pub mod greedy {
    macro_rules! greedy {
        ($($n:ident)*) => {
            pub trait ByRef { $(fn $n(&self) {})* }
            impl<T: ?Sized> ByRef for T {}
            pub trait ByValue: Sized { $(fn $n(self) {})* }
            impl<T> ByValue for T {}
        };
    }
    greedy! { name remaining has_unnamed_fields as_tuple to_string get fields next map collect visit_tuple visit_composite visit_unexpected decode_item
        decode_as_type at_field at_idx map_err ok_or_else unwrap expect is_ok skip_decoding bytes_from_undecoded clone into_visitor }
}
/// A bound that means nothing.
pub trait Plainest {}
impl<T: ?Sized> Plainest for T {}
#[allow(warnings)]
pub mod decls {
    include!(concat!(env!("GEN_DIR"), "/derive.rs"));
}
#[path = "bounds.rs"]
#[cfg(not(any(feature = "control", feature = "renamed")))]
mod bounds;

type Out = (Result<String, String>, usize);
type Dec = fn(&[u8], u32, &P) -> Out;
pub struct Pair {
    module: usize,
    name: &'static str,
    renames: &'static [(&'static str, &'static str)],
    ty: fn() -> (u32, P),
    /// the twin, the odd one
    sides: [(Dec, Option<Dec>); 2],
}
fn ty<S: TypeInfo + 'static>() -> (u32, P) {
    let mut reg = scale_info::Registry::new();
    let id = reg.register_type(&scale_info::meta_type::<S>()).id;
    (id, reg.into())
}
fn whole<T: DecodeAsType + std::fmt::Debug>(b: &[u8], id: u32, types: &P) -> Out {
    let c = &mut &*b;
    let r = T::decode_as_type(c, id, types);
    (r.map(|v| format!("{v:?}")).map_err(|e| format!("{e} {e:?}")), c.len())
}
fn from_fields<T: DecodeAsFields + std::fmt::Debug>(b: &[u8], id: u32, types: &P) -> Out {
    let TypeDef::Composite(d) = &types.resolve(id).unwrap().type_def else { unreachable!() };
    let c = &mut &*b;
    let mut fs = d.fields.iter().map(|f| Field { id: f.ty.id, name: f.name.as_deref() });
    let r = T::decode_as_fields(c, &mut fs, types);
    (r.map(|v| format!("{v:?}")).map_err(|e| format!("{e} {e:?}")), c.len())
}
type Renames = &'static [(&'static str, &'static str)];
pub fn pair<S, A, B>(module: usize, name: &'static str, renames: Renames) -> Pair
where
    S: TypeInfo + 'static,
    A: DecodeAsType + std::fmt::Debug,
    B: DecodeAsType + std::fmt::Debug,
{
    Pair { module, name, renames, ty: ty::<S>, sides: [(whole::<A>, None), (whole::<B>, None)] }
}
pub fn fields<S, A, B>(module: usize, name: &'static str, renames: Renames) -> Pair
where
    S: TypeInfo + 'static,
    A: DecodeAsType + DecodeAsFields + std::fmt::Debug,
    B: DecodeAsType + DecodeAsFields + std::fmt::Debug,
{
    Pair { module, name, renames, ty: ty::<S>, sides: [(whole::<A>, Some(from_fields::<A>)), (whole::<B>, Some(from_fields::<B>))] }
}
struct Made {
    p: Pair,
    id: u32,
    reg: P,
    m: Model,
}
fn renamed(s: &str, by: Renames) -> String {
    // longest names first, so that none is taken for the start of another
    let mut by = by.to_vec();
    by.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
    by.iter().fold(s.to_string(), |s, (a, b)| s.replace(a, b))
}
fn case(ps: &[Made], c: &mut Case) {
    let x = c.rng.pick(ps);
    let Some((_, mut b)) = gen_value(&mut c.rng, &x.m, x.id as usize, &ValOpts { budget: 60, long_lists: false }) else {
        return c.skipped();
    };
    if c.rng.chance(1, 5) {
        mutate(&mut c.rng, &mut b);
        c.count("mutated_inputs", 1);
    }
    let n = c.rng.below(6);
    b.extend(c.rng.bytes(n));
    // a changed length may ask for any number of empty items
    let mut d = RefDec::new(&x.m, &b);
    d.max_steps = 20_000;
    if matches!(d.decode(x.id as usize), Err(RErr::Budget)) {
        return c.skipped();
    }
    let which = |s: usize, f: bool| if f { x.p.sides[s].1 } else { Some(x.p.sides[s].0) };
    for f in [false, true] {
        let (Some(twin), Some(odd)) = (which(0, f), which(1, f)) else { continue };
        c.context(|| format!("{} of module {}, {} from {} input {}", x.p.name, x.p.module, if f { "fields" } else { "type" }, x.m.show(x.id as usize), hex(&b)));
        let (want, wl) = twin(&b, x.id, &x.reg);
        let (got, gl) = odd(&b, x.id, &x.reg);
        let (want, got) = (want.map(|s| renamed(&s, x.p.renames)), got.map(|s| renamed(&s, x.p.renames)));
        if want != got {
            c.viol(format!("decodes to {}, its twin to {}", cut(&format!("{got:?}"), 400), cut(&format!("{want:?}"), 400)));
        }
        if wl != gl {
            c.viol(format!("leaves {gl} bytes, its twin {wl}"));
        }
        c.eval();
        c.count(if want.is_ok() { "values" } else { "errors" }, 1);
        if f {
            c.count("from_field_lists", 1);
        }
        c.distinct(&[x.p.name.as_bytes(), &x.p.module.to_le_bytes(), &b, &[f as u8]]);
        if want.is_ok() && b.len() > 6 {
            c.sample(|| format!("{} of module {} from {}: {}", x.p.name, x.p.module, hex(&b), cut(got.as_ref().unwrap(), 200)));
        }
    }
}
fn main() {
    let made: Vec<Made> = decls::all()
        .into_iter()
        .map(|p| {
            let (id, reg) = (p.ty)();
            let m = from_portable(&reg);
            Made { p, id, reg, m }
        })
        .collect();
    run::run("C24", run::Opts { quick: 200_000, thorough: 3_000_000, ..Default::default() }, |c| {
        #[cfg(not(feature = "control"))]
        if c.n == 0 {
            #[cfg(not(feature = "renamed"))]
            for v in bounds::check() {
                c.viol(v);
            }
            for (k, n) in decls::STATS {
                c.count(k, *n);
            }
            c.count("pairs", made.len() as u64);
        }
        case(&made, c)
    })
}
