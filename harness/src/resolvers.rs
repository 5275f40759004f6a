//! Type resolvers used by the workloads: the registry itself, our own resolver over the model with non-Copy ids,
//! a permuted registry, and an instrumented wrapper that counts, budgets and injects faults.
use crate::model::*;
use scale_decode::ext::scale_type_resolver as tr;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;
use tr::{Field, ResolvedTypeVisitor, TypeResolver, Variant};

/// Relates a resolver's ids to the model's.
pub trait MapId: TypeResolver {
    /// None if the id is not one of this registry's
    fn model_id(&self, id: &Self::TypeId) -> Option<usize>;
    fn make_id(&self, id: usize) -> Self::TypeId;
}
impl MapId for scale_info::PortableRegistry {
    fn model_id(&self, id: &u32) -> Option<usize> {
        Some(*id as usize)
    }
    fn make_id(&self, id: usize) -> u32 {
        // ids dangling in the model dangle in the registry
        if id < self.types.len().saturating_sub(6) {
            id as u32
        } else {
            (id + 100_000) as u32
        }
    }
}
/// A registry in which model ids are permuted.
pub struct Perm {
    pub reg: scale_info::PortableRegistry,
    pub map: Vec<usize>,
    pub inv: Vec<usize>,
}
impl Perm {
    pub fn new(m: &Model, r: &mut crate::rng::Rng) -> Perm {
        let mut map: Vec<usize> = (0..m.defs.len()).collect();
        r.shuffle(&mut map);
        let mut inv = vec![0; map.len()];
        for (i, x) in map.iter().enumerate() {
            inv[*x] = i;
        }
        Perm { reg: m.portable_with(&map), map, inv }
    }
}
impl TypeResolver for Perm {
    type TypeId = u32;
    type Error = <scale_info::PortableRegistry as TypeResolver>::Error;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = u32>>(
        &'this self,
        id: u32,
        v: V,
    ) -> Result<V::Value, Self::Error> {
        self.reg.resolve_type(id, v)
    }
}
impl MapId for Perm {
    fn model_id(&self, id: &u32) -> Option<usize> {
        self.inv.get(*id as usize).copied()
    }
    fn make_id(&self, id: usize) -> u32 {
        self.map.get(id).map(|x| *x as u32).unwrap_or((id + 100_000) as u32)
    }
}

/// A type id that is neither Copy nor a number.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct SId(pub String);
/// Our own resolver, straight from the model.
pub struct ModelResolver<M: std::borrow::Borrow<Model>>(pub M);
#[derive(Debug)]
pub struct MErr(pub String);
impl std::fmt::Display for MErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
pub fn sid(id: usize) -> SId {
    SId(format!("type::{id}"))
}
fn fid(s: &SId) -> Option<usize> {
    s.0.strip_prefix("type::")?.parse().ok()
}
fn mfields<'a>(fs: &'a [FieldDef]) -> impl ExactSizeIterator<Item = Field<'a, SId>> + 'a {
    fs.iter().map(|f| Field { name: f.name.as_deref(), id: sid(f.ty) })
}
impl<M: std::borrow::Borrow<Model>> TypeResolver for ModelResolver<M> {
    type TypeId = SId;
    type Error = MErr;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = SId>>(
        &'this self,
        id: SId,
        v: V,
    ) -> Result<V::Value, MErr> {
        let Some(d) = fid(&id).and_then(|i| self.0.borrow().def(i)) else { return Ok(v.visit_not_found()) };
        Ok(match d {
            Def::Comp { path, fields } => v.visit_composite(path.iter().map(|s| s.as_str()), mfields(fields)),
            Def::Var { path, variants } => v.visit_variant(
                path.iter().map(|s| s.as_str()),
                variants.iter().map(|x| Variant { index: x.index, name: &x.name, fields: mfields(&x.fields) }),
            ),
            Def::Seq(t) => v.visit_sequence(core::iter::empty(), sid(*t)),
            Def::Array(t, n) => v.visit_array(sid(*t), *n as usize),
            Def::Tuple(ts) => v.visit_tuple(ts.iter().map(|t| sid(*t))),
            Def::Prim(p) => v.visit_primitive(p.resolver()),
            Def::Compact(t) => v.visit_compact(sid(*t)),
            Def::Bits(f) => {
                let (s, o) = f.resolver();
                v.visit_bit_sequence(s, o)
            }
        })
    }
}
impl<M: std::borrow::Borrow<Model>> MapId for ModelResolver<M> {
    fn model_id(&self, id: &SId) -> Option<usize> {
        fid(id)
    }
    fn make_id(&self, id: usize) -> SId {
        sid(id)
    }
}

/// Counts lookups, enforces a budget, and injects faults.
pub struct Wrap<R> {
    pub inner: R,
    pub lookups: Cell<u64>,
    pub budget: Cell<u64>,
    pub over_budget: Cell<bool>,
    /// fail exactly the k-th lookup (counted from 0)
    pub fail_at: Cell<Option<u64>>,
    /// fail the k-th lookup and all after it
    pub fail_from: Cell<Option<u64>>,
    /// do not know this model type
    pub unknown: Cell<Option<usize>>,
    /// fail every lookup of another model type
    pub only: RefCell<Option<HashSet<usize>>>,
    /// fail every lookup of this model type
    pub fail_type: Cell<Option<usize>>,
    pub faulted: Cell<bool>,
    pub touched: RefCell<HashSet<usize>>,
}
pub const FAULT: &str = "injected-fault-7f3a";
pub const OVER: &str = "lookup-budget-exhausted-51c9";
impl<R> Wrap<R> {
    pub fn new(inner: R) -> Wrap<R> {
        Wrap {
            inner,
            lookups: Cell::new(0),
            budget: Cell::new(u64::MAX),
            over_budget: Cell::new(false),
            fail_at: Cell::new(None),
            fail_from: Cell::new(None),
            unknown: Cell::new(None),
            only: RefCell::new(None),
            fail_type: Cell::new(None),
            faulted: Cell::new(false),
            touched: RefCell::new(HashSet::new()),
        }
    }
    pub fn reset(&self) {
        self.lookups.set(0);
        self.over_budget.set(false);
        self.fail_at.set(None);
        self.fail_from.set(None);
        self.unknown.set(None);
        *self.only.borrow_mut() = None;
        self.fail_type.set(None);
        self.faulted.set(false);
        self.touched.borrow_mut().clear();
    }
}
#[derive(Debug)]
pub enum WErr<E> {
    Fault(String),
    Inner(E),
}
impl<E: std::fmt::Display> std::fmt::Display for WErr<E> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            WErr::Fault(s) => f.write_str(s),
            WErr::Inner(e) => e.fmt(f),
        }
    }
}
impl<R: MapId> TypeResolver for Wrap<R> {
    type TypeId = R::TypeId;
    type Error = WErr<R::Error>;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = R::TypeId>>(
        &'this self,
        id: R::TypeId,
        v: V,
    ) -> Result<V::Value, Self::Error> {
        let k = self.lookups.get();
        self.lookups.set(k + 1);
        if k >= self.budget.get() {
            self.over_budget.set(true);
            return Err(WErr::Fault(OVER.into()));
        }
        let mid = self.inner.model_id(&id);
        if let Some(m) = mid {
            self.touched.borrow_mut().insert(m);
        }
        if self.fail_at.get() == Some(k) || (mid.is_some() && self.fail_type.get() == mid) {
            self.faulted.set(true);
            return Err(WErr::Fault(format!("{FAULT} {id:?}")));
        }
        if self.fail_from.get().is_some_and(|f| k >= f) || self.only.borrow().as_ref().is_some_and(|o| mid.is_none_or(|m| !o.contains(&m))) {
            self.faulted.set(true);
            return Err(WErr::Fault(format!("{FAULT} {id:?}")));
        }
        if mid.is_some() && self.unknown.get() == mid {
            self.faulted.set(true);
            return Ok(v.visit_not_found());
        }
        self.inner.resolve_type(id, v).map_err(WErr::Inner)
    }
}
impl<R: MapId> MapId for Wrap<R> {
    fn model_id(&self, id: &R::TypeId) -> Option<usize> {
        self.inner.model_id(id)
    }
    fn make_id(&self, id: usize) -> R::TypeId {
        self.inner.make_id(id)
    }
}
impl<'a, R: MapId> MapId for Ref<'a, R> {
    fn model_id(&self, id: &R::TypeId) -> Option<usize> {
        self.0.model_id(id)
    }
    fn make_id(&self, id: usize) -> R::TypeId {
        self.0.make_id(id)
    }
}
/// A resolver by reference.
pub struct Ref<'a, R>(pub &'a R);
impl<'a, R: TypeResolver> TypeResolver for Ref<'a, R> {
    type TypeId = R::TypeId;
    type Error = R::Error;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = R::TypeId>>(
        &'this self,
        id: R::TypeId,
        v: V,
    ) -> Result<V::Value, Self::Error> {
        self.0.resolve_type(id, v)
    }
}
