// entries in a heap vector
pub struct Slots<K, V> { a: Vec<(K, V)>, pub(super) n: usize }
impl<K, V> Slots<K, V> {
    pub const fn new() -> Self { Self { a: Vec::new(), n: 0 } }
    pub(super) fn at(&self, i: usize) -> &(K, V) { &self.a[i] }
    pub(super) fn at_mut(&mut self, i: usize) -> &mut (K, V) { &mut self.a[i] }
    pub(super) fn push(&mut self, k: K, v: V) -> usize {
        if self.n >= CAP { full() }
        let i = self.n;
        if i == 0 && self.a.capacity() == 0 { self.a = Vec::with_capacity(CAP); }
        self.a.push((k, v));
        self.n = i + 1;
        i
    }
    pub(super) fn insert_at(&mut self, p: usize, k: K, v: V) {
        self.push(k, v);
        let mut i = self.n - 1;
        while i > p { self.a.swap(i, i - 1); i -= 1; }
    }
    pub(super) fn take(&mut self, p: usize) -> (K, V) {
        let mut i = p;
        while i + 1 < self.n { self.a.swap(i, i + 1); i += 1; }
        self.n -= 1;
        self.a.pop().unwrap()
    }
    pub(super) fn clear(&mut self) { self.n = 0; self.a.clear() }
}
pub struct VacantEntry<'a, K, V> { s: &'a mut Slots<K, V>, k: K }
impl<'a, K, V> VacantEntry<'a, K, V> {
    fn at(s: &'a mut Slots<K, V>, k: K) -> Self { Self { s, k } }
    pub fn key(&self) -> &K { &self.k }
    pub fn into_key(self) -> K { self.k }
    pub fn insert(self, v: V) -> &'a mut V { let i = self.s.push(self.k, v); &mut self.s.at_mut(i).1 }
}
