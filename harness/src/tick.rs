//! Something to do in the middle of a decode: called at every lookup of a [`Ticking`] resolver and in the callbacks of our visitors.
use crate::resolvers::MapId;
use scale_decode::ext::scale_type_resolver::{ResolvedTypeVisitor, TypeResolver};
use std::cell::RefCell;
use std::rc::Rc;

thread_local! {
    static HOOK: RefCell<Option<Rc<dyn Fn()>>> = const { RefCell::new(None) };
}
pub fn tick() {
    let f = HOOK.with(|h| h.borrow().clone());
    if let Some(f) = f {
        f();
    }
}
struct Back(Option<Rc<dyn Fn()>>);
impl Drop for Back {
    fn drop(&mut self) {
        let old = self.0.take();
        let _ = HOOK.try_with(|h| *h.borrow_mut() = old);
    }
}
/// Runs `body` with `hook` in place.
pub fn with<T>(hook: Rc<dyn Fn()>, body: impl FnOnce() -> T) -> T {
    let _back = Back(HOOK.with(|h| h.borrow_mut().replace(hook)));
    body()
}
/// Runs `body` with nothing to do in its middle.
pub fn without<T>(body: impl FnOnce() -> T) -> T {
    let _back = Back(HOOK.with(|h| h.borrow_mut().take()));
    body()
}
pub struct Ticking<R>(pub R);
impl<R: TypeResolver> TypeResolver for Ticking<R> {
    type TypeId = R::TypeId;
    type Error = R::Error;
    fn resolve_type<'this, V: ResolvedTypeVisitor<'this, TypeId = R::TypeId>>(
        &'this self,
        id: R::TypeId,
        v: V,
    ) -> Result<V::Value, Self::Error> {
        tick();
        let r = self.0.resolve_type(id, v);
        tick();
        r
    }
}
impl<R: MapId> MapId for Ticking<R> {
    fn model_id(&self, id: &R::TypeId) -> Option<usize> {
        self.0.model_id(id)
    }
    fn make_id(&self, id: usize) -> R::TypeId {
        self.0.make_id(id)
    }
}
