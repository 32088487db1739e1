// hook: server/src/engine/core/index/key.rs
use super::*;
use crate::vp::*;

#[cfg(any(feature = "c09", not(kani)))]
mod c09 {
    use super::*;
    use crate::vstd::hashmodel::Mix;
    #[derive(Clone, Copy)]
    enum V { U(u64), S(i64), B([u8; 3], usize), T([u8; 3], usize) }
    fn val(kind: u8, n: usize) -> V {
        let b: [u8; 3] = any();
        if kind == 3 { let mut i = 0; while i < 3 { assume(b[i] < 128); i += 1; } }
        match kind { 0 => V::U(any()), 1 => V::S(any()), 2 => V::B(b, n), _ => V::T(b, n) }
    }
    fn same(a: &V, b: &V) -> bool {
        fn sl(a: &[u8; 3], n: usize, b: &[u8; 3], m: usize) -> bool { let mut e = n == m; let mut i = 0; while i < 3 { e = e && (i >= n || a[i] == b[i]); i += 1; } e }
        match (a, b) {
            (V::U(x), V::U(y)) => x == y, (V::S(x), V::S(y)) => x == y,
            (V::B(x, n), V::B(y, m)) => sl(x, *n, y, *m), (V::T(x, n), V::T(y, m)) => sl(x, *n, y, *m),
            _ => false,
        }
    }
    fn st(b: &[u8]) -> &str { unsafe { ::core::str::from_utf8_unchecked(b) } }
    fn pk(v: &V) -> PrimaryIndexKey {
        let dc = match v { V::U(x) => Datacell::new_uint_default(*x), V::S(x) => Datacell::new_sint_default(*x), V::B(b, n) => Datacell::new_bin(b[..*n].into()), V::T(b, n) => Datacell::new_str(st(&b[..*n]).into()) };
        assert!(PrimaryIndexKey::check(&dc));
        unsafe { PrimaryIndexKey::new_from_dc(dc) }
    }
    fn lit(v: &V) -> Lit<'_> { match v { V::U(x) => Lit::new_uint(*x), V::S(x) => Lit::new_sint(*x), V::B(b, n) => Lit::new_bin(&b[..*n]), V::T(b, n) => Lit::new_str(st(&b[..*n])) } }
    fn is(p: &PrimaryIndexKey, v: &V) {
        match v {
            V::U(x) => assert!(p.uint() == Some(*x) && p.sint().is_none() && p.bin().is_none() && p.str().is_none()),
            V::S(x) => assert!(p.sint() == Some(*x) && p.uint().is_none() && p.bin().is_none() && p.str().is_none()),
            V::B(b, n) => { let s = p.bin().unwrap(); assert!(s.len() == *n && p.str().is_none() && p.uint().is_none()); let mut i = 0; while i < *n { assert!(s[i] == b[i]); i += 1; } }
            V::T(b, n) => { let s = p.str().unwrap().as_bytes(); assert!(s.len() == *n && p.bin().is_none() && p.sint().is_none()); let mut i = 0; while i < *n { assert!(s[i] == b[i]); i += 1; } }
        }
    }
    fn h<T: Hash>(t: &T) -> u64 { let mut m = Mix::default(); t.hash(&mut m); m.finish() }
    fn pair(k1: u8, n1: usize, k2: u8, n2: usize) {
        let (a, b) = (val(k1, n1), val(k2, n2));
        let (p, q) = (pk(&a), pk(&b));
        is(&p, &a);
        let e = same(&a, &b);
        assert!((p == q) == e, "key equality");
        assert!((p == lit(&b)) == e, "key and literal equality");
        assert!(lit(&a).cmp_eq(&q) == e, "literal and key equality");
        if e { assert!(h(&p) == h(&q), "equal keys must hash alike"); }
        assert!(h(&lit(&a)) == h(&p), "a literal must hash like its key");
        witness!(!e);
    }
    fn clone(k: u8, n: usize) {
        let a = val(k, n);
        let p = pk(&a);
        let q = p.clone();
        assert!(p == q);
        drop(p);
        is(&q, &a);
        let r = core::mem::ManuallyDrop::new(unsafe { q.raw_clone() });
        is(&r, &a);
        drop(q);
        witness!(true);
    }
    harness! { #[kani::unwind(5)] fn c09_ints() { pair(0, 0, 0, 0); pair(1, 0, 1, 0); pair(0, 0, 1, 0) } }
    harness! { #[kani::unwind(5)] fn c09_blocks2() { pair(2, 2, 2, 2); pair(3, 2, 3, 2) } }
    harness! { #[kani::unwind(5)] fn c09_blocks_len() { pair(2, 1, 2, 3); pair(3, 3, 3, 0) } }
    harness! { #[kani::unwind(5)] fn c09_mixed() { pair(2, 2, 3, 2); pair(2, 0, 3, 0); pair(0, 0, 2, 1); pair(3, 1, 1, 0) } }
    harness! { #[kani::unwind(5)] fn c09_clone_uint() { clone(0, 0) } }
    harness! { #[kani::unwind(5)] fn c09_clone_sint() { clone(1, 0) } }
    harness! { #[kani::unwind(5)] fn c09_clone_bin() { clone(2, 3); clone(2, 0) } }
    harness! { #[kani::unwind(5)] fn c09_clone_str() { clone(3, 2) } }
}
