//! Sequential model of crossbeam-epoch: tagged pointers are (pointer, tag) pairs, deferred
//! destruction only records the pointer (a second destruction of the same pointer is an error).
//! Every atomic operation first calls `YIELD`, which a harness may set to run another thread's
//! operation at that point.
#![allow(static_mut_refs)]
use std::{cell::Cell, fmt, marker::PhantomData, mem::ManuallyDrop, ops::{Deref, DerefMut}, sync::atomic::Ordering};

pub static mut YIELD: Option<fn()> = None;
#[inline(always)]
fn step() { unsafe { if let Some(f) = YIELD { f() } } }
pub const DEAD_MAX: usize = 16;
pub static mut DEAD: [*const (); DEAD_MAX] = [std::ptr::null(); DEAD_MAX];
pub static mut DEAD_N: usize = 0;
/// was this pointer handed over for destruction?
pub fn is_dead(p: *const ()) -> bool {
    let mut i = 0;
    unsafe { while i < DEAD_N { if DEAD[i] == p { return true; } i += 1; } }
    false
}

pub trait Pointable {}
impl<T> Pointable for T {}
pub trait Pointer<T> {
    fn into_pt(self) -> (*mut T, usize);
    unsafe fn from_pt(p: *mut T, t: usize) -> Self;
}

pub struct Guard(());
impl Guard {
    pub fn flush(&self) {}
    pub fn repin(&mut self) {}
    pub unsafe fn defer_destroy<T>(&self, p: Shared<'_, T>) {
        assert!(!p.p.is_null(), "destroying null");
        let q = p.p as *const ();
        assert!(!is_dead(q), "the same memory is destroyed twice");
        if DEAD_N < DEAD_MAX { DEAD[DEAD_N] = q; DEAD_N += 1; }
    }
}
impl Drop for Guard { fn drop(&mut self) {} }
static G: Guard = Guard(());
pub fn pin() -> Guard { Guard(()) }
pub unsafe fn unprotected() -> &'static Guard { &G }

pub struct Atomic<T> { p: Cell<*mut T>, t: Cell<usize> }
unsafe impl<T: Send + Sync> Send for Atomic<T> {}
unsafe impl<T: Send + Sync> Sync for Atomic<T> {}
impl<T> Atomic<T> {
    pub const fn null() -> Self { Self { p: Cell::new(std::ptr::null_mut()), t: Cell::new(0) } }
    pub fn new(v: T) -> Self { Self::from(Owned::new(v)) }
    pub fn load<'g>(&self, _: Ordering, _: &'g Guard) -> Shared<'g, T> { step(); Shared::mk(self.p.get(), self.t.get()) }
    pub fn store<P: Pointer<T>>(&self, n: P, _: Ordering) { step(); let (p, t) = n.into_pt(); self.p.set(p); self.t.set(t); }
    pub fn swap<'g, P: Pointer<T>>(&self, n: P, _: Ordering, _: &'g Guard) -> Shared<'g, T> {
        step();
        let r = Shared::mk(self.p.get(), self.t.get());
        let (p, t) = n.into_pt();
        self.p.set(p); self.t.set(t);
        r
    }
    pub fn compare_exchange<'g, P: Pointer<T>>(&self, c: Shared<'_, T>, n: P, _: Ordering, _: Ordering, _: &'g Guard) -> Result<Shared<'g, T>, CompareExchangeError<'g, T, P>> {
        step();
        if self.p.get() == c.p && self.t.get() == c.t {
            let (p, t) = n.into_pt();
            self.p.set(p); self.t.set(t);
            Ok(Shared::mk(p, t))
        } else {
            Err(CompareExchangeError { current: Shared::mk(self.p.get(), self.t.get()), new: n })
        }
    }
    pub fn fetch_or<'g>(&self, t: usize, _: Ordering, _: &'g Guard) -> Shared<'g, T> {
        step();
        let r = Shared::mk(self.p.get(), self.t.get());
        self.t.set(self.t.get() | t);
        r
    }
}
impl<T> fmt::Debug for Atomic<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Atomic") } }
impl<T> Default for Atomic<T> { fn default() -> Self { Self::null() } }
impl<T> From<Owned<T>> for Atomic<T> { fn from(o: Owned<T>) -> Self { let (p, t) = o.into_pt(); Self { p: Cell::new(p), t: Cell::new(t) } } }
impl<'g, T> From<Shared<'g, T>> for Atomic<T> { fn from(s: Shared<'g, T>) -> Self { Self { p: Cell::new(s.p), t: Cell::new(s.t) } } }

pub struct CompareExchangeError<'g, T, P: Pointer<T>> { pub current: Shared<'g, T>, pub new: P }

pub struct Owned<T> { p: *mut T, t: usize, _m: PhantomData<Box<T>> }
impl<T> Owned<T> {
    pub fn new(v: T) -> Self { Self { p: Box::into_raw(Box::new(v)), t: 0, _m: PhantomData } }
    pub unsafe fn from_raw(p: *mut T) -> Self { Self { p, t: 0, _m: PhantomData } }
    pub fn with_tag(self, t: usize) -> Self { let m = ManuallyDrop::new(self); Self { p: m.p, t, _m: PhantomData } }
    pub fn tag(&self) -> usize { self.t }
    pub fn into_shared<'g>(self, _: &'g Guard) -> Shared<'g, T> { let m = ManuallyDrop::new(self); Shared::mk(m.p, m.t) }
    pub fn into_box(self) -> Box<T> { let m = ManuallyDrop::new(self); unsafe { Box::from_raw(m.p) } }
}
impl<T> Drop for Owned<T> {
    fn drop(&mut self) {
        assert!(!is_dead(self.p as *const ()), "memory already handed over for destruction is destroyed again");
        unsafe { drop(Box::from_raw(self.p)) }
    }
}
impl<T> Deref for Owned<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.p } } }
impl<T> DerefMut for Owned<T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.p } } }
impl<T> Pointer<T> for Owned<T> {
    fn into_pt(self) -> (*mut T, usize) { let m = ManuallyDrop::new(self); (m.p, m.t) }
    unsafe fn from_pt(p: *mut T, t: usize) -> Self { Self { p, t, _m: PhantomData } }
}

pub struct Shared<'g, T> { p: *mut T, t: usize, _m: PhantomData<(&'g (), *const T)> }
impl<'g, T> Shared<'g, T> {
    fn mk(p: *mut T, t: usize) -> Self { Self { p, t, _m: PhantomData } }
    pub fn null() -> Self { Self::mk(std::ptr::null_mut(), 0) }
    pub fn is_null(&self) -> bool { self.p.is_null() }
    pub fn tag(&self) -> usize { self.t }
    pub fn with_tag(&self, t: usize) -> Self { Self::mk(self.p, t) }
    pub fn as_raw(&self) -> *const T { self.p }
    pub unsafe fn deref(&self) -> &'g T { &*self.p }
    pub unsafe fn as_ref(&self) -> Option<&'g T> { self.p.as_ref() }
    pub unsafe fn into_owned(self) -> Owned<T> { Owned { p: self.p, t: self.t, _m: PhantomData } }
}
impl<'g, T> Clone for Shared<'g, T> { fn clone(&self) -> Self { *self } }
impl<'g, T> Copy for Shared<'g, T> {}
impl<'g, T> PartialEq for Shared<'g, T> { fn eq(&self, o: &Self) -> bool { self.p == o.p && self.t == o.t } }
impl<'g, T> Eq for Shared<'g, T> {}
impl<'g, T> From<*const T> for Shared<'g, T> { fn from(p: *const T) -> Self { Self::mk(p as *mut T, 0) } }
impl<'g, T> fmt::Debug for Shared<'g, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Shared") } }
impl<'g, T> Pointer<T> for Shared<'g, T> {
    fn into_pt(self) -> (*mut T, usize) { (self.p, self.t) }
    unsafe fn from_pt(p: *mut T, t: usize) -> Self { Self::mk(p, t) }
}
