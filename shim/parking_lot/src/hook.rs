//! Added by /verif: lets a harness decide what a blocking acquisition does.
//!
//! With no hook installed on the current thread the locks behave exactly like upstream
//! parking_lot. A hook sees every blocking acquisition (with a closure that tries it once,
//! without blocking) and every release made by its thread.
#![allow(missing_docs)]
use std::cell::RefCell;
use std::sync::Arc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Shared,
    SharedRecursive,
    Upgradable,
    Upgrade,
    Exclusive,
}

pub trait LockHook: Send + Sync {
    /// Must either acquire the lock through `attempt` and return true, or panic,
    /// or return false to fall back to the ordinary blocking path.
    fn acquire(&self, addr: usize, kind: Kind, attempt: &mut dyn FnMut() -> bool) -> bool;
    /// Called after a lock (or part of it) was released.
    fn released(&self, addr: usize);
    /// Called after an exclusive hold became a shared one.
    fn downgraded(&self, _addr: usize) {}
}

thread_local! {
    static PATIENCE: RefCell<Option<(Duration, fn())>> = const { RefCell::new(None) };
}
/// From now on, when this thread has waited for a lock for so long, the function is called,
/// which may panic; if it returns, the thread waits again.
pub fn patience(p: Option<(Duration, fn())>) {
    let _ = PATIENCE.try_with(|x| *x.borrow_mut() = p);
}
pub(crate) fn wait(lock: &mut dyn FnMut(Option<Instant>) -> bool) -> bool {
    loop {
        match PATIENCE.try_with(|x| *x.borrow()).ok().flatten() {
            None => return lock(None),
            Some((d, out)) => {
                if lock(Some(Instant::now() + d)) {
                    return true;
                }
                out()
            }
        }
    }
}

thread_local! {
    static HOOK: RefCell<Option<Arc<dyn LockHook>>> = const { RefCell::new(None) };
}

pub fn set(hook: Option<Arc<dyn LockHook>>) {
    let _ = HOOK.try_with(|h| *h.borrow_mut() = hook);
}

fn current() -> Option<Arc<dyn LockHook>> {
    HOOK.try_with(|h| h.try_borrow().ok().and_then(|h| h.clone()))
        .ok()
        .flatten()
}

#[inline]
pub(crate) fn acquire(addr: usize, kind: Kind, attempt: &mut dyn FnMut() -> bool) -> bool {
    match current() {
        Some(h) => h.acquire(addr, kind, attempt),
        None => false,
    }
}

pub(crate) struct OnDowngrade(pub(crate) usize);
impl Drop for OnDowngrade {
    fn drop(&mut self) {
        if let Some(h) = current() {
            h.downgraded(self.0);
        }
    }
}

pub(crate) struct OnRelease(pub(crate) usize);
impl Drop for OnRelease {
    fn drop(&mut self) {
        if let Some(h) = current() {
            h.released(self.0);
        }
    }
}
