// hook: server/src/engine/mem/mod.rs
use super::*;
use crate::vp::*;

#[cfg(any(feature = "c12", not(kani)))]
mod c12 {
    use super::*;
    use fixed_vec::FixedVec;
    /// an element that counts how often it is dropped
    #[derive(Debug)]
    struct E(u8);
    static mut DROPS: [u8; 16] = [0; 16];
    static mut CLONES: u8 = 0;
    impl Drop for E { fn drop(&mut self) { unsafe { DROPS[self.0 as usize] += 1 } } }
    impl Clone for E { fn clone(&self) -> Self { unsafe { CLONES += 1; E(self.0 + 8) } } }
    /// heap blocks currently allocated through the engine's allocator interface
    static mut LIVE: usize = 0;
    #[cfg(kani)]
    unsafe fn alloc_counted<T>(l: ::std::alloc::Layout) -> *mut T { LIVE += 1; ::std::alloc::alloc(l) as *mut T }
    #[cfg(kani)]
    unsafe fn dealloc_counted(p: *mut u8, l: ::std::alloc::Layout) { LIVE -= 1; ::std::alloc::dealloc(p, l) }
    fn reset() { unsafe { DROPS = [0; 16]; CLONES = 0; LIVE = 0 } }
    /// the reference: a plain sequence
    struct Seq { a: [u8; 8], n: usize, next: u8 }
    impl Seq {
        fn new() -> Self { Seq { a: [0; 8], n: 0, next: 0 } }
        fn push(&mut self) -> E { let e = E(self.next); self.a[self.n] = self.next; self.n += 1; self.next += 1; e }
        fn remove(&mut self, i: usize) -> u8 { let r = self.a[i]; let mut j = i; while j + 1 < self.n { self.a[j] = self.a[j + 1]; j += 1; } self.n -= 1; r }
        fn same(&self, s: &[E]) { assert!(s.len() == self.n); let mut i = 0; while i < self.n { assert!(s[i].0 == self.a[i]); assert!(unsafe { DROPS[s[i].0 as usize] } == 0, "element dropped while in use"); i += 1; } }
        /// everything ever pushed has been dropped exactly once
        fn all_dropped(&self) { let mut i = 0; while i < self.next { assert!(unsafe { DROPS[i as usize] } == 1, "element not dropped exactly once"); i += 1; } }
    }
    fn range(n: usize) -> usize { let i: usize = any(); assume(i < n); i }
    fn vinline_ops<const STEPS: usize>(pre: usize) {
        reset();
        let mut s = Seq::new();
        let mut v = VInline::<2, E>::new();
        let mut k = 0;
        while k < pre { v.push(s.push()); k += 1; }
        let mut k = 0;
        while k < STEPS {
            match any::<u8>() {
                0 if s.n > 0 => { let i = range(s.n); let e = v.remove(i); assert!(e.0 == s.remove(i)); }
                1 if s.n > 0 => { let i = range(s.n); let e = v.remove_compact(i); assert!(e.0 == s.remove(i)); }
                2 => v.optimize_capacity(),
                3 => { v.clear(); s.n = 0; }
                _ => v.push(s.push()),
            }
            s.same(&v);
            assert!(v.capacity() >= v.len() && v.capacity() >= 2);
            k += 1;
        }
        witness!(s.n > 0);
        drop(v);
        s.all_dropped();
        #[cfg(kani)]
        assert!(unsafe { LIVE } == 0, "heap block not freed");
    }
    fn vinline_iter(n: usize) {
        reset();
        let mut s = Seq::new();
        let mut v = VInline::<2, E>::new();
        let mut i = 0;
        while i < n { v.push(s.push()); i += 1; }
        let mut it = v.into_iter();
        let mut k = 0;
        while k < n + 1 {
            let (front, stop): (bool, bool) = (any(), any());
            if stop { break; }
            let got = if front { it.next() } else { it.next_back() };
            match got {
                Some(e) => { assert!(s.n > 0); let j = if front { 0 } else { s.n - 1 }; assert!(e.0 == s.remove(j)); }
                None => assert!(s.n == 0, "iteration ended early"),
            }
            k += 1;
        }
        witness!(s.n == 0);
        drop(it);
        s.all_dropped();
        #[cfg(kani)]
        assert!(unsafe { LIVE } == 0, "heap block not freed");
    }
    harness! {
        #[kani::stub(unsafe_apis::alloc_layout, alloc_counted)] #[kani::stub(unsafe_apis::dealloc_layout, dealloc_counted)]
        #[kani::unwind(8)] fn c12_vinline_ops1() { vinline_ops::<1>(1) }
    }
    harness! {
        #[kani::stub(unsafe_apis::alloc_layout, alloc_counted)] #[kani::stub(unsafe_apis::dealloc_layout, dealloc_counted)]
        #[kani::unwind(8)] fn c12_vinline_ops2() { vinline_ops::<1>(2) }
    }
    harness! {
        #[kani::stub(unsafe_apis::alloc_layout, alloc_counted)] #[kani::stub(unsafe_apis::dealloc_layout, dealloc_counted)]
        #[kani::unwind(8)] fn c12_vinline_ops3() { vinline_ops::<2>(3) }
    }
    harness! {
        #[kani::stub(unsafe_apis::alloc_layout, alloc_counted)] #[kani::stub(unsafe_apis::dealloc_layout, dealloc_counted)]
        #[kani::unwind(8)] fn c12_vinline_ops4() { vinline_ops::<1>(4) }
    }
    harness! {
        #[kani::stub(unsafe_apis::alloc_layout, alloc_counted)] #[kani::stub(unsafe_apis::dealloc_layout, dealloc_counted)]
        #[kani::unwind(8)] fn c12_vinline_ops0() { vinline_ops::<2>(0) }
    }
    harness! {
        #[kani::stub(unsafe_apis::alloc_layout, alloc_counted)] #[kani::stub(unsafe_apis::dealloc_layout, dealloc_counted)]
        #[kani::unwind(8)] fn c12_vinline_iter() { let n: u8 = any(); assume(n < 2); vinline_iter(if n == 0 { 2 } else { 3 }) }
    }
    harness! {
        #[kani::stub(unsafe_apis::alloc_layout, alloc_counted)] #[kani::stub(unsafe_apis::dealloc_layout, dealloc_counted)]
        #[kani::unwind(26)] fn c12_vinline_plain() {
            // elements without spare bit patterns
            let v: [u64; 3] = any();
            let mut x = VInline::<2, u64>::new();
            let mut i = 0;
            while i < 3 { x.push(v[i]); i += 1; }
            let y = x.clone();
            assert!(y == x && y[0] == v[0] && y[1] == v[1] && y[2] == v[2]);
            let mut it = y.into_iter();
            assert!(it.next() == Some(v[0]));
            assert!(it.next_back() == Some(v[2]));
            assert!(it.next() == Some(v[1]));
            assert!(it.next().is_none() && it.next_back().is_none());
            witness!(v[0] == 0);
        }
    }
    fn uarray_ops<const STEPS: usize>() {
        reset();
        let mut s = Seq::new();
        let mut v = UArray::<4, E>::new();
        let mut k = 0;
        while k < STEPS {
            match any::<u8>() {
                0 if s.n > 0 => { let i = range(s.n); let e = v.remove(i); assert!(e.0 == s.remove(i)); }
                1 => match v.pop() { Some(e) => { let j = s.n - 1; assert!(e.0 == s.remove(j)); } None => assert!(s.n == 0) },
                2 => { v.clear(); s.n = 0; }
                _ => v.push(s.push()),
            }
            s.same(&v);
            assert!(v.is_empty() == (s.n == 0));
            k += 1;
        }
        witness!(s.n == 3);
        if any() {
            let mut it = v.into_iter();
            let mut k = 0;
            while k < 2 {
                let front: bool = any();
                match if front { it.next() } else { it.next_back() } {
                    Some(e) => { let j = if front { 0 } else { s.n - 1 }; assert!(e.0 == s.remove(j)); }
                    None => assert!(s.n == 0),
                }
                k += 1;
            }
            drop(it);
        } else { drop(v); }
        s.all_dropped();
    }
    harness! { #[kani::unwind(8)] fn c12_uarray_ops() { uarray_ops::<4>() } }
    harness! {
        #[kani::unwind(8)] fn c12_uarray_clone() {
            reset();
            let mut s = Seq::new();
            let mut v = UArray::<4, E>::new();
            let n: u8 = any();
            assume(n <= 4);
            let mut i = 0;
            while i < n { v.push(s.push()); i += 1; }
            let w = v.clone();
            assert!(unsafe { CLONES } == n && w.len() == n as usize);
            s.same(&v);
            drop(v);
            s.all_dropped();
            let mut i = 0;
            while i < n { assert!(w[i as usize].0 == i + 8 && unsafe { DROPS[(i + 8) as usize] } == 0); i += 1; }
            witness!(n == 4);
            drop(w);
            let mut i = 0;
            while i < n { assert!(unsafe { DROPS[(i + 8) as usize] } == 1); i += 1; }
        }
    }
    fn fixed_ops<const STEPS: usize>() {
        reset();
        let mut s = Seq::new();
        let mut v = FixedVec::<E, 3>::allocate();
        let mut k = 0;
        while k < STEPS {
            match any::<u8>() {
                0 if s.n > 0 => {
                    let c = range(s.n);
                    unsafe { v.clear_start(c) }
                    let mut i = 0;
                    while i < c { s.remove(0); i += 1; }
                }
                1 => { v.clear(); s.n = 0; }
                _ => {
                    let full = s.n == 3;
                    assert!(v.at_capacity() == full);
                    let e = s.push();
                    match v.try_push_result(e) { Ok(()) => assert!(!full), Err(e) => { assert!(full); let j = s.n - 1; assert!(e.0 == s.remove(j)); } }
                }
            }
            s.same(&v);
            assert!(v.remaining_capacity() == 3 - s.n);
            k += 1;
        }
        witness!(s.n == 2);
        drop(v);
        s.all_dropped();
        #[cfg(kani)]
        assert!(unsafe { LIVE } == 0, "heap block not freed");
    }
    harness! {
        #[kani::stub(unsafe_apis::alloc_layout, alloc_counted)] #[kani::stub(unsafe_apis::dealloc_layout, dealloc_counted)]
        #[kani::unwind(8)] fn c12_fixedvec_ops() { fixed_ops::<4>() }
    }
    harness! {
        #[kani::unwind(8)] fn c12_fixedvec_bytes() {
            let (a, b): ([u8; 3], [u8; 2]) = (any(), any());
            let (n, m, c): (usize, usize, usize) = (any(), any(), any());
            assume(n <= 3 && m <= 2 && n > 0 && c < n);
            let mut v = FixedVec::<u8, 5>::allocate();
            unsafe { v.extend_from_slice(&a[..n]); v.clear_start(c); v.extend_from_slice(&b[..m]); }
            assert!(v.len() == n - c + m);
            let mut i = 0;
            while i < n - c { assert!(v[i] == a[c + i]); i += 1; }
            let mut i = 0;
            while i < m { assert!(v[n - c + i] == b[i]); i += 1; }
            witness!(c == 1);
        }
    }
    harness! {
        #[kani::unwind(8)] fn c12_astr() {
            let (a, b): ([u8; 5], [u8; 5]) = (any(), any());
            let (n, m): (usize, usize) = (any(), any());
            assume(n <= 5 && m <= 5);
            let mut i = 0;
            while i < 5 { assume(a[i] < 128 && b[i] < 128); i += 1; }
            let (x, y) = unsafe { (::core::str::from_utf8_unchecked(&a[..n]), ::core::str::from_utf8_unchecked(&b[..m])) };
            let (p, q) = (AStr::<4>::try_new(x), AStr::<4>::try_new(y));
            assert!(p.is_some() == (n <= 4) && q.is_some() == (m <= 4));
            if let (Some(p), Some(q)) = (p, q) {
                assert!(p._as_str().len() == n);
                let mut i = 0;
                while i < n { assert!(p._as_bytes()[i] == a[i]); i += 1; }
                let mut eq = n == m;
                let mut i = 0;
                while i < n { eq = eq && a[i] == b[i]; i += 1; }
                assert!((p == q) == eq && (&p == y) == eq && (y == &p) == eq);
                witness!(eq);
            }
        }
    }
}

#[cfg(any(feature = "c10", not(kani)))]
mod c10 {
    use super::*;
    /// the digits are those of the value: only digits (after a sign), no leading zero, evaluating to it
    fn digits(b: &[u8], neg: bool, mag: u64) {
        let mut b = b;
        assert!(!b.is_empty());
        if neg { assert!(b[0] == b'-'); b = &b[1..]; }
        assert!(!b.is_empty() && b.len() <= 20);
        assert!(b.len() == 1 || b[0] != b'0', "leading zero");
        let mut v = 0u128;
        let mut i = 0;
        while i < b.len() { assert!(b[i] >= b'0' && b[i] <= b'9'); v = v * 10 + (b[i] - b'0') as u128; i += 1; }
        assert!(v == mag as u128, "wrong digits");
    }
    harness! { #[kani::unwind(8)] fn c10_int8() { let v: u8 = any(); digits(IntegerRepr::new().as_bytes(v), false, v as u64); let w: i8 = any(); digits(IntegerRepr::new().as_bytes(w), w < 0, w.unsigned_abs() as u64); witness!(w == -128); } }
    harness! { #[kani::unwind(8)] fn c10_uint16() { let v: u16 = any(); digits(IntegerRepr::new().as_bytes(v), false, v as u64); witness!(v > 9999); } }
    harness! { #[kani::unwind(8)] fn c10_sint16() { let v: i16 = any(); digits(IntegerRepr::new().as_bytes(v), v < 0, v.unsigned_abs() as u64); witness!(v < -9999); } }
    // wider integers: the last four digits are symbolic, those before them sit at every edge
    fn wide32(hi: &[u32]) { let lo: u16 = any(); let mut i = 0; while i < hi.len() { if let Some(v) = hi[i].checked_mul(10_000).and_then(|x| x.checked_add(lo as u32)) { digits(IntegerRepr::new().as_bytes(v), false, v as u64); } i += 1; } witness!(lo > 9999); }
    fn wide64(hi: &[u64]) { let lo: u16 = any(); let mut i = 0; while i < hi.len() { if let Some(v) = hi[i].checked_mul(10_000).and_then(|x| x.checked_add(lo as u64)) { digits(IntegerRepr::new().as_bytes(v), false, v); } i += 1; } witness!(lo > 9999); }
    fn wides(hi: &[i64]) { let lo: u16 = any(); let mut i = 0; while i < hi.len() { if let Some(v) = hi[i].checked_mul(10_000).and_then(|x| x.checked_sub(lo as i64)) { digits(IntegerRepr::new().as_bytes(v), v < 0, v.unsigned_abs()); } i += 1; } witness!(lo > 9999); }
    harness! { #[kani::unwind(22)] fn c10_uint32() { wide32(&[1, 99, 9_999, 10_000, 429_490]) } }
    harness! { #[kani::unwind(22)] fn c10_uint64_a() { wide64(&[9, 9_999, 429_496, 99_999_999]) } }
    harness! { #[kani::unwind(22)] fn c10_uint64_b() { wide64(&[999_999_999_999, 922_337_203_685_477, 1_844_674_407_370_950]) } }
    harness! { #[kani::unwind(22)] fn c10_sint64_a() { wides(&[0, -9_999]) } }
    harness! { #[kani::unwind(22)] fn c10_sint64_b() { wides(&[-214_748, -922_337_203_685_474]) } }
}
