// Association-list models of std's maps and sets: same API, at most CAP entries, insertion order
// (sorted for the B-tree).  Used instead of hashbrown, which is outside the encoder's reach.
use core::{borrow::Borrow, fmt, hash::{BuildHasher, Hash}, marker::PhantomData, ops::{Index, RangeBounds, Bound}};
pub use crate::vstd::hashmodel::RandomState;

pub const CAP: usize = 4;
#[cfg(kani)]
fn full() -> ! { kani::assume(false); loop {} }
#[cfg(not(kani))]
fn full() -> ! { eprintln!("MODEL-MAP-FULL"); ::std::process::exit(79) }

impl<K: Clone, V: Clone> Clone for Slots<K, V> {
    fn clone(&self) -> Self {
        let mut s = Self::new();
        let mut i = 0;
        while i < self.n { let (k, v) = self.at(i); s.push(k.clone(), v.clone()); i += 1; }
        s
    }
}

pub struct Iter<'a, K, V> { s: &'a Slots<K, V>, i: usize, e: usize }
impl<'a, K, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { Iter { s: self.s, i: self.i, e: self.e } } }
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        if self.i < self.e { let (k, v) = self.s.at(self.i); self.i += 1; Some((k, v)) } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.e - self.i, Some(self.e - self.i)) }
}
impl<'a, K, V> DoubleEndedIterator for Iter<'a, K, V> {
    fn next_back(&mut self) -> Option<Self::Item> {
        if self.i < self.e { self.e -= 1; let (k, v) = self.s.at(self.e); Some((k, v)) } else { None }
    }
}
impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
impl<'a, K, V> core::iter::FusedIterator for Iter<'a, K, V> {}
impl<'a, K: fmt::Debug, V: fmt::Debug> fmt::Debug for Iter<'a, K, V> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
macro_rules! proj { ($n:ident, $t:ty, $f:expr) => {
    pub struct $n<'a, K, V>(Iter<'a, K, V>);
    impl<'a, K, V> Clone for $n<'a, K, V> { fn clone(&self) -> Self { $n(self.0.clone()) } }
    impl<'a, K, V> Iterator for $n<'a, K, V> {
        type Item = $t;
        fn next(&mut self) -> Option<$t> { self.0.next().map($f) }
        fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    }
    impl<'a, K, V> DoubleEndedIterator for $n<'a, K, V> { fn next_back(&mut self) -> Option<$t> { self.0.next_back().map($f) } }
    impl<'a, K, V> ExactSizeIterator for $n<'a, K, V> {}
    impl<'a, K, V> fmt::Debug for $n<'a, K, V> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
} }
proj!(Keys, &'a K, |x| x.0);
proj!(Values, &'a V, |x| x.1);
pub struct IterMut<'a, K, V> { s: *mut Slots<K, V>, i: usize, _m: PhantomData<&'a mut (K, V)> }
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    fn next(&mut self) -> Option<Self::Item> {
        let s = unsafe { &mut *self.s };
        if self.i < s.n { let x = s.at_mut(self.i); self.i += 1; Some((&x.0, &mut x.1)) } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = unsafe { (*self.s).n } - self.i; (n, Some(n)) }
}
impl<'a, K, V> ExactSizeIterator for IterMut<'a, K, V> {}
pub struct ValuesMut<'a, K, V>(IterMut<'a, K, V>);
impl<'a, K, V> Iterator for ValuesMut<'a, K, V> { type Item = &'a mut V; fn next(&mut self) -> Option<&'a mut V> { self.0.next().map(|x| x.1) } }
pub struct IntoIter<K, V> { s: Slots<K, V> }
impl<K, V> Iterator for IntoIter<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> { if self.s.n == 0 { None } else { Some(self.s.take(0)) } }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.s.n, Some(self.s.n)) }
}
impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
pub struct IntoKeys<K, V>(IntoIter<K, V>);
impl<K, V> Iterator for IntoKeys<K, V> { type Item = K; fn next(&mut self) -> Option<K> { self.0.next().map(|x| x.0) } }
pub struct IntoValues<K, V>(IntoIter<K, V>);
impl<K, V> Iterator for IntoValues<K, V> { type Item = V; fn next(&mut self) -> Option<V> { self.0.next().map(|x| x.1) } }

// ---- hash map -------------------------------------------------------------------------------
pub struct HashMap<K, V, S = RandomState> { s: Slots<K, V>, h: S }
pub struct HMIntoIter;
impl<K, V> HashMap<K, V, RandomState> {
    pub fn new() -> Self { Self::with_hasher(rs()) }
    pub fn with_capacity(_: usize) -> Self { Self::with_hasher(rs()) }
}
fn rs() -> RandomState { RandomState }
impl<K, V, S> HashMap<K, V, S> {
    pub const fn with_hasher(h: S) -> Self { Self { s: Slots::new(), h } }
    pub fn with_capacity_and_hasher(_: usize, h: S) -> Self { Self::with_hasher(h) }
    pub fn len(&self) -> usize { self.s.n }
    pub fn is_empty(&self) -> bool { self.s.n == 0 }
    pub fn capacity(&self) -> usize { CAP }
    pub fn clear(&mut self) { self.s.clear() }
    pub fn hasher(&self) -> &S { &self.h }
    pub fn iter(&self) -> Iter<'_, K, V> { Iter { s: &self.s, i: 0, e: self.s.n } }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { IterMut { s: &mut self.s, i: 0, _m: PhantomData } }
    pub fn keys(&self) -> Keys<'_, K, V> { Keys(self.iter()) }
    pub fn values(&self) -> Values<'_, K, V> { Values(self.iter()) }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { ValuesMut(self.iter_mut()) }
    pub fn into_keys(self) -> IntoKeys<K, V> { IntoKeys(self.into_iter()) }
    pub fn into_values(self) -> IntoValues<K, V> { IntoValues(self.into_iter()) }
    pub fn drain(&mut self) -> IntoIter<K, V> { IntoIter { s: core::mem::replace(&mut self.s, Slots::new()) } }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn retain(&mut self, mut f: impl FnMut(&K, &mut V) -> bool) {
        let mut i = 0;
        while i < self.s.n {
            let x = self.s.at_mut(i);
            if f(&x.0, &mut x.1) { i += 1 } else { drop(self.s.take(i)) }
        }
    }
    fn find<Q: ?Sized + Eq>(&self, q: &Q) -> Option<usize> where K: Borrow<Q> {
        let mut i = 0;
        while i < self.s.n { if self.s.at(i).0.borrow() == q { return Some(i); } i += 1; }
        None
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> HashMap<K, V, S> {
    pub fn get<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> Option<&V> where K: Borrow<Q> { match self.find(q) { Some(i) => Some(&self.s.at(i).1), None => None } }
    pub fn get_key_value<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> Option<(&K, &V)> where K: Borrow<Q> { match self.find(q) { Some(i) => { let x = self.s.at(i); Some((&x.0, &x.1)) } None => None } }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.find(q) { Some(i) => Some(&mut self.s.at_mut(i).1), None => None } }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> bool where K: Borrow<Q> { self.find(q).is_some() }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) { Some(i) => Some(core::mem::replace(&mut self.s.at_mut(i).1, v)), None => { self.s.push(k, v); None } }
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<V> where K: Borrow<Q> { self.remove_entry(q).map(|x| x.1) }
    pub fn remove_entry<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<(K, V)> where K: Borrow<Q> { match self.find(q) { Some(i) => Some(self.s.take(i)), None => None } }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self.find(&k) {
            Some(i) => Entry::Occupied(OccupiedEntry { s: &mut self.s, i }),
            None => Entry::Vacant(VacantEntry::at(&mut self.s, k)),
        }
    }
}
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub struct OccupiedEntry<'a, K, V> { s: &'a mut Slots<K, V>, i: usize }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K { &self.s.at(self.i).0 }
    pub fn get(&self) -> &V { &self.s.at(self.i).1 }
    pub fn get_mut(&mut self) -> &mut V { &mut self.s.at_mut(self.i).1 }
    pub fn into_mut(self) -> &'a mut V { &mut self.s.at_mut(self.i).1 }
    pub fn insert(&mut self, v: V) -> V { core::mem::replace(self.get_mut(), v) }
    pub fn remove(self) -> V { self.s.take(self.i).1 }
    pub fn remove_entry(self) -> (K, V) { self.s.take(self.i) }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn key(&self) -> &K { match self { Entry::Occupied(o) => o.key(), Entry::Vacant(v) => v.key() } }
    pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(v) } }
    pub fn or_insert_with(self, f: impl FnOnce() -> V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
    pub fn and_modify(mut self, f: impl FnOnce(&mut V)) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
}
impl<K, V, S: Default> Default for HashMap<K, V, S> { fn default() -> Self { Self::with_hasher(S::default()) } }
impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> { fn clone(&self) -> Self { Self { s: self.s.clone(), h: self.h.clone() } } }
impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        if self.len() != o.len() { return false; }
        let mut i = 0;
        while i < self.s.n {
            let (k, v) = self.s.at(i);
            match o.find(k) { Some(j) => if o.s.at(j).1 != *v { return false; }, None => return false }
            i += 1;
        }
        true
    }
}
impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.iter()).finish() } }
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::default(); for (k, v) in it { m.insert(k, v); } m }
}
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } } }
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
impl<K, V, S> IntoIterator for HashMap<K, V, S> { type Item = (K, V); type IntoIter = IntoIter<K, V>; fn into_iter(self) -> IntoIter<K, V> { IntoIter { s: self.s } } }
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> { type Item = (&'a K, &'a mut V); type IntoIter = IterMut<'a, K, V>; fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() } }
impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S: BuildHasher> Index<&Q> for HashMap<K, V, S> { type Output = V; fn index(&self, q: &Q) -> &V { self.get(q).expect("no entry found for key") } }

// ---- hash set -------------------------------------------------------------------------------
pub struct HashSet<T, S = RandomState> { m: HashMap<T, (), S> }
impl<T> HashSet<T, RandomState> { pub fn new() -> Self { Self { m: HashMap::new() } } pub fn with_capacity(_: usize) -> Self { Self::new() } }
impl<T, S> HashSet<T, S> {
    pub fn len(&self) -> usize { self.m.len() }
    pub fn is_empty(&self) -> bool { self.m.is_empty() }
    pub fn iter(&self) -> Keys<'_, T, ()> { self.m.keys() }
    pub fn clear(&mut self) { self.m.clear() }
    pub fn drain(&mut self) -> IntoKeys<T, ()> { IntoKeys(self.m.drain()) }
    pub fn retain(&mut self, mut f: impl FnMut(&T) -> bool) { self.m.retain(|k, _| f(k)) }
    pub fn reserve(&mut self, _: usize) {}
}
impl<T: Eq + Hash, S: BuildHasher> HashSet<T, S> {
    pub fn insert(&mut self, t: T) -> bool { self.m.insert(t, ()).is_none() }
    pub fn replace(&mut self, t: T) -> Option<T> { let r = self.m.remove_entry(&t).map(|x| x.0); self.m.insert(t, ()); r }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> bool where T: Borrow<Q> { self.m.contains_key(q) }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, q: &Q) -> Option<&T> where T: Borrow<Q> { self.m.get_key_value(q).map(|x| x.0) }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> bool where T: Borrow<Q> { self.m.remove(q).is_some() }
    pub fn take<Q: ?Sized + Hash + Eq>(&mut self, q: &Q) -> Option<T> where T: Borrow<Q> { self.m.remove_entry(q).map(|x| x.0) }
    pub fn is_subset(&self, o: &Self) -> bool { self.iter().all(|x| o.contains(x)) }
}
impl<T, S: Default> Default for HashSet<T, S> { fn default() -> Self { Self { m: HashMap::default() } } }
impl<T: Clone, S: Clone> Clone for HashSet<T, S> { fn clone(&self) -> Self { Self { m: self.m.clone() } } }
impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> { fn eq(&self, o: &Self) -> bool { self.m == o.m } }
impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.iter()).finish() } }
impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> { fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self { let mut m = Self::default(); for t in it { m.insert(t); } m } }
impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) { for t in it { self.insert(t); } } }
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> { fn from(a: [T; N]) -> Self { a.into_iter().collect() } }
impl<T, S> IntoIterator for HashSet<T, S> { type Item = T; type IntoIter = IntoKeys<T, ()>; fn into_iter(self) -> IntoKeys<T, ()> { self.m.into_keys() } }
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> { type Item = &'a T; type IntoIter = Keys<'a, T, ()>; fn into_iter(self) -> Keys<'a, T, ()> { self.iter() } }

// ---- B-tree map -----------------------------------------------------------------------------
pub struct BTreeMap<K, V> { s: Slots<K, V> }
impl<K, V> BTreeMap<K, V> {
    pub const fn new() -> Self { Self { s: Slots::new() } }
    pub fn len(&self) -> usize { self.s.n }
    pub fn is_empty(&self) -> bool { self.s.n == 0 }
    pub fn clear(&mut self) { self.s.clear() }
    pub fn iter(&self) -> Iter<'_, K, V> { Iter { s: &self.s, i: 0, e: self.s.n } }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { IterMut { s: &mut self.s, i: 0, _m: PhantomData } }
    pub fn keys(&self) -> Keys<'_, K, V> { Keys(self.iter()) }
    pub fn values(&self) -> Values<'_, K, V> { Values(self.iter()) }
}
impl<K: Ord, V> BTreeMap<K, V> {
    /// first index whose key is >= q (or > q)
    fn lower<Q: ?Sized + Ord>(&self, q: &Q, strict: bool) -> usize where K: Borrow<Q> {
        let mut i = 0;
        while i < self.s.n {
            let k = self.s.at(i).0.borrow();
            if k > q || (!strict && k == q) { break; }
            i += 1;
        }
        i
    }
    fn find<Q: ?Sized + Ord>(&self, q: &Q) -> Option<usize> where K: Borrow<Q> {
        let i = self.lower(q, false);
        if i < self.s.n && self.s.at(i).0.borrow() == q { Some(i) } else { None }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) { Some(i) => Some(core::mem::replace(&mut self.s.at_mut(i).1, v)), None => { let p = self.lower(&k, false); self.s.insert_at(p, k, v); None } }
    }
    pub fn get<Q: ?Sized + Ord>(&self, q: &Q) -> Option<&V> where K: Borrow<Q> { match self.find(q) { Some(i) => Some(&self.s.at(i).1), None => None } }
    pub fn get_mut<Q: ?Sized + Ord>(&mut self, q: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.find(q) { Some(i) => Some(&mut self.s.at_mut(i).1), None => None } }
    pub fn contains_key<Q: ?Sized + Ord>(&self, q: &Q) -> bool where K: Borrow<Q> { self.find(q).is_some() }
    pub fn remove<Q: ?Sized + Ord>(&mut self, q: &Q) -> Option<V> where K: Borrow<Q> { match self.find(q) { Some(i) => Some(self.s.take(i).1), None => None } }
    pub fn first_key_value(&self) -> Option<(&K, &V)> { self.iter().next() }
    pub fn last_key_value(&self) -> Option<(&K, &V)> { self.iter().next_back() }
    pub fn pop_first(&mut self) -> Option<(K, V)> { if self.s.n == 0 { None } else { Some(self.s.take(0)) } }
    pub fn pop_last(&mut self) -> Option<(K, V)> { let n = self.s.n; if n == 0 { None } else { Some(self.s.take(n - 1)) } }
    pub fn retain(&mut self, mut f: impl FnMut(&K, &mut V) -> bool) {
        let mut i = 0;
        while i < self.s.n { let x = self.s.at_mut(i); if f(&x.0, &mut x.1) { i += 1 } else { drop(self.s.take(i)) } }
    }
    pub fn range<Q: ?Sized + Ord, R: RangeBounds<Q>>(&self, r: R) -> Iter<'_, K, V> where K: Borrow<Q> {
        let i = match r.start_bound() { Bound::Included(q) => self.lower(q, false), Bound::Excluded(q) => self.lower(q, true), Bound::Unbounded => 0 };
        let e = match r.end_bound() { Bound::Included(q) => self.lower(q, true), Bound::Excluded(q) => self.lower(q, false), Bound::Unbounded => self.s.n };
        // (like std)
        if let (Bound::Included(a) | Bound::Excluded(a), Bound::Included(b) | Bound::Excluded(b)) = (r.start_bound(), r.end_bound()) { if a > b { panic!("range start is greater than range end in BTreeMap") } }
        Iter { s: &self.s, i, e: if e < i { i } else { e } }
    }
}
impl<K, V> Default for BTreeMap<K, V> { fn default() -> Self { Self::new() } }
impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> { fn clone(&self) -> Self { Self { s: self.s.clone() } } }
impl<K: PartialEq, V: PartialEq> PartialEq for BTreeMap<K, V> { fn eq(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o.iter()).all(|(a, b)| a == b) } }
impl<K: Eq, V: Eq> Eq for BTreeMap<K, V> {}
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for BTreeMap<K, V> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.iter()).finish() } }
impl<K: Ord, V> FromIterator<(K, V)> for BTreeMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::new(); for (k, v) in it { m.insert(k, v); } m } }
impl<K: Ord, V> Extend<(K, V)> for BTreeMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } } }
impl<K, V> IntoIterator for BTreeMap<K, V> { type Item = (K, V); type IntoIter = IntoIter<K, V>; fn into_iter(self) -> IntoIter<K, V> { IntoIter { s: self.s } } }
impl<'a, K, V> IntoIterator for &'a BTreeMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
