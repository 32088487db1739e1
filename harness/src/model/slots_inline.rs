// entries without heap memory (the encoder tracks constants through typed memory only)
use core::{mem::{ManuallyDrop, MaybeUninit}, ptr};
pub struct Slots<K, V> { a: ManuallyDrop<[(K, V); CAP]>, pub(super) n: usize }
impl<K, V> Slots<K, V> {
    pub const fn new() -> Self { Self { a: ManuallyDrop::new(unsafe { MaybeUninit::uninit().assume_init() }), n: 0 } }
    pub(super) fn at(&self, i: usize) -> &(K, V) { &self.a[i] }
    pub(super) fn at_mut(&mut self, i: usize) -> &mut (K, V) { &mut self.a[i] }
    pub(super) fn push(&mut self, k: K, v: V) -> usize {
        if self.n >= CAP { full() }
        let i = self.n;
        unsafe { ptr::write(&mut self.a[i], (k, v)) }
        self.n = i + 1;
        i
    }
    pub(super) fn insert_at(&mut self, p: usize, k: K, v: V) {
        self.push(k, v);
        let mut i = self.n - 1;
        while i > p { self.a.swap(i, i - 1); i -= 1; }
    }
    pub(super) fn take(&mut self, p: usize) -> (K, V) {
        let r = unsafe { ptr::read(&self.a[p]) };
        let mut i = p;
        while i + 1 < self.n { unsafe { let x = ptr::read(&self.a[i + 1]); ptr::write(&mut self.a[i], x); } i += 1; }
        self.n -= 1;
        r
    }
    pub(super) fn clear(&mut self) { let n = self.n; self.n = 0; let mut i = 0; while i < n { unsafe { ptr::drop_in_place(&mut self.a[i]) }; i += 1; } }
}
impl<K, V> Drop for Slots<K, V> { fn drop(&mut self) { self.clear() } }
// (the key waits in the slot after the last: an enum's payload would hide it from constant propagation)
pub struct VacantEntry<'a, K, V> { s: &'a mut Slots<K, V> }
impl<'a, K, V> VacantEntry<'a, K, V> {
    fn at(s: &'a mut Slots<K, V>, k: K) -> Self {
        if s.n >= CAP { full() }
        let n = s.n;
        unsafe { ptr::write(&mut s.a[n].0, k) }
        Self { s }
    }
    pub fn key(&self) -> &K { &self.s.a[self.s.n].0 }
    pub fn into_key(self) -> K { unsafe { ptr::read(self.key()) } }
    pub fn insert(self, v: V) -> &'a mut V {
        let n = self.s.n;
        self.s.n = n + 1;
        unsafe { ptr::write(&mut self.s.a[n].1, v) }
        &mut self.s.a[n].1
    }
}
