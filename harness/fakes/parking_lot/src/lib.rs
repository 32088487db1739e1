#![allow(dead_code)]
use std::{
    cell::{Cell, UnsafeCell},
    fmt,
    ops::{Deref, DerefMut},
};

/// state: -1 exclusively locked, n >= 0 readers; an upgradable reader counts as 1 reader and
/// sets `ug`
pub struct RwLock<T: ?Sized> {
    st: Cell<i32>,
    ug: Cell<bool>,
    d: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockUpgradableReadGuard<'a, T: ?Sized>(&'a RwLock<T>);

impl<T> RwLock<T> {
    pub const fn new(d: T) -> Self {
        Self { st: Cell::new(0), ug: Cell::new(false), d: UnsafeCell::new(d) }
    }
    pub fn into_inner(self) -> T {
        self.d.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        assert!(self.st.get() >= 0, "deadlock: shared lock while exclusively locked");
        self.st.set(self.st.get() + 1);
        RwLockReadGuard(self)
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        assert!(self.st.get() == 0, "deadlock: exclusive lock while locked");
        self.st.set(-1);
        RwLockWriteGuard(self)
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        if self.st.get() >= 0 { Some(self.read()) } else { None }
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        if self.st.get() == 0 { Some(self.write()) } else { None }
    }
    pub fn upgradable_read(&self) -> RwLockUpgradableReadGuard<'_, T> {
        assert!(self.st.get() >= 0 && !self.ug.get(), "deadlock: upgradable lock while locked");
        self.st.set(self.st.get() + 1);
        self.ug.set(true);
        RwLockUpgradableReadGuard(self)
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.d.get_mut()
    }
    pub fn data_ptr(&self) -> *mut T {
        self.d.get()
    }
    pub fn is_locked(&self) -> bool {
        self.st.get() != 0
    }
    pub fn is_locked_exclusive(&self) -> bool {
        self.st.get() < 0
    }
}
impl<'a, T: ?Sized> RwLockUpgradableReadGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.0;
        std::mem::forget(s);
        l.ug.set(false);
        RwLockReadGuard(l)
    }
    pub fn upgrade(s: Self) -> RwLockWriteGuard<'a, T> {
        let l = s.0;
        std::mem::forget(s);
        assert!(l.st.get() == 1, "deadlock: upgrade with other readers");
        l.ug.set(false);
        l.st.set(-1);
        RwLockWriteGuard(l)
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.0;
        std::mem::forget(s);
        l.st.set(1);
        RwLockReadGuard(l)
    }
}
impl<'a, T: ?Sized> Drop for RwLockReadGuard<'a, T> {
    fn drop(&mut self) {
        self.0.st.set(self.0.st.get() - 1);
    }
}
impl<'a, T: ?Sized> Drop for RwLockUpgradableReadGuard<'a, T> {
    fn drop(&mut self) {
        self.0.ug.set(false);
        self.0.st.set(self.0.st.get() - 1);
    }
}
impl<'a, T: ?Sized> Drop for RwLockWriteGuard<'a, T> {
    fn drop(&mut self) {
        self.0.st.set(0);
    }
}
macro_rules! guard { ($($g:ident),*) => {$(
    impl<'a, T: ?Sized> Deref for $g<'a, T> {
        type Target = T;
        fn deref(&self) -> &T { unsafe { &*self.0.d.get() } }
    }
    impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for $g<'a, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) }
    }
)*}}
guard!(RwLockReadGuard, RwLockWriteGuard, RwLockUpgradableReadGuard);
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.d.get() }
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        unsafe { &*self.d.get() }.fmt(f)
    }
}

pub struct Mutex<T: ?Sized>(RwLock<T>);
pub type MutexGuard<'a, T> = RwLockWriteGuard<'a, T>;
impl<T> Mutex<T> {
    pub const fn new(d: T) -> Self {
        Self(RwLock::new(d))
    }
    pub fn into_inner(self) -> T {
        self.0.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.0.write()
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        self.0.try_write()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.0.get_mut()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
