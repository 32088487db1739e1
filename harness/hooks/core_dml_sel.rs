// hook: server/src/engine/core/dml/sel.rs
use super::*;
use crate::vp::*;

#[cfg(any(feature = "c10", not(kani)))]
mod c10 {
    use super::*;
    fn no_drop(_: &mut Datacell) {}
    /// an independent reader of the response format
    struct Rd<'a> { b: &'a [u8], i: usize }
    impl<'a> Rd<'a> {
        fn byte(&mut self) -> u8 { let x = self.b[self.i]; self.i += 1; x }
        fn int(&mut self) -> (bool, u64) {
            let neg = self.b[self.i] == b'-';
            if neg { self.i += 1; }
            let (mut v, s) = (0u64, self.i);
            loop {
                let c = self.byte();
                if c == b'\n' { break; }
                assert!(c >= b'0' && c <= b'9');
                v = v * 10 + (c - b'0') as u64;
            }
            assert!(self.i - s >= 2 && (self.b[s] != b'0' || self.i - s == 2));
            (neg, v)
        }
        fn bytes(&mut self, v: &[u8]) {
            let (neg, n) = self.int();
            assert!(!neg && n as usize == v.len());
            let mut i = 0;
            while i < v.len() { assert!(self.byte() == v[i]); i += 1; }
        }
        fn end(&self) { assert!(self.i == self.b.len(), "trailing bytes"); }
    }
    fn enc(c: Datacell) -> Vec<u8> { let mut v = Vec::with_capacity(64); encode_cell(&mut v, &c); core::mem::forget(c); v }
    use crate::engine::data::tag::{FloatSpec, FullTag, SIntSpec, TagSelector, UIntSpec};
    fn us(s: TagSelector) -> UIntSpec { unsafe { UIntSpec::from_full(FullTag::new_uint(s)) } }
    fn ss(s: TagSelector) -> SIntSpec { unsafe { SIntSpec::from_full(FullTag::new_sint(s)) } }
    fn fs(s: TagSelector) -> FloatSpec { unsafe { FloatSpec::from_full(FullTag::new_float(s)) } }
    fn uint(k: TagSelector, code: u8, v: u64) {
        let e = enc(Datacell::new_uint(v, us(k)));
        let mut r = Rd { b: &e, i: 0 };
        assert!(r.byte() == code);
        assert!(r.int() == (false, v));
        r.end();
    }
    fn sint(k: TagSelector, code: u8, v: i64) {
        let e = enc(Datacell::new_sint(v, ss(k)));
        let mut r = Rd { b: &e, i: 0 };
        assert!(r.byte() == code);
        assert!(r.int() == (v < 0, v.unsigned_abs()));
        r.end();
    }
    harness! {
        #[kani::stub(<Datacell as ::core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(24)] fn c10_cell_uint8() { uint(TagSelector::UInt8, 0x02, 0); uint(TagSelector::UInt8, 0x02, 255); witness!(true); }
    }
    harness! {
        #[kani::stub(<Datacell as ::core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(24)] fn c10_cell_sint8() { sint(TagSelector::SInt8, 0x06, -128); sint(TagSelector::SInt8, 0x06, 127); witness!(true); }
    }
    harness! {
        #[kani::stub(<Datacell as ::core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(24)] fn c10_cell_uint() { uint(TagSelector::UInt16, 0x03, 65_535); uint(TagSelector::UInt32, 0x04, 4_294_967_295); uint(TagSelector::UInt64, 0x05, 0); uint(TagSelector::UInt64, 0x05, u64::MAX); witness!(true); }
    }
    harness! {
        #[kani::stub(<Datacell as ::core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(24)] fn c10_cell_sint() { sint(TagSelector::SInt16, 0x07, -32_768); sint(TagSelector::SInt32, 0x08, -2_147_483_648); sint(TagSelector::SInt64, 0x09, i64::MIN); sint(TagSelector::SInt64, 0x09, i64::MAX); witness!(true); }
    }
    harness! {
        #[kani::stub(<Datacell as ::core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(24)] fn c10_cell_simple() {
            let b: bool = any();
            let e = enc(Datacell::new_bool(b));
            assert!(e.len() == 2 && e[0] == 0x01 && e[1] == b as u8);
            let e = enc(Datacell::null());
            assert!(e.len() == 1 && e[0] == 0);
            witness!(b);
        }
    }
    harness! {
        #[kani::stub(<Datacell as ::core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(24)] fn c10_cell_block() {
            let v: [u8; 11] = any();
            let mut i = 0;
            while i < 11 { assume(v[i] < 128); i += 1; }
            let mut n = 0;
            while n < 12 {
                let e = enc(Datacell::new_bin(v[..n].into()));
                let mut r = Rd { b: &e, i: 0 };
                assert!(r.byte() == 0x0C);
                r.bytes(&v[..n]);
                r.end();
                let e = enc(Datacell::new_str(unsafe { ::core::str::from_utf8_unchecked(&v[..n]) }.into()));
                let mut r = Rd { b: &e, i: 0 };
                assert!(r.byte() == 0x0D);
                r.bytes(&v[..n]);
                r.end();
                n += if n == 0 { 1 } else { 10 };
            }
            witness!(v[0] == b'\n');
        }
    }
    harness! {
        #[kani::stub(<Datacell as ::core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(6)] fn c10_cell_list() {
            let b: bool = any();
            let e = enc(Datacell::new_list(vec![Datacell::new_bool(b), Datacell::null()]));
            let mut r = Rd { b: &e, i: 0 };
            assert!(r.byte() == 0x0E);
            assert!(r.int() == (false, 2));
            assert!(r.byte() == 1 && r.byte() == b as u8 && r.byte() == 0);
            r.end();
            witness!(b);
        }
    }
    harness! {
        #[kani::stub(<Datacell as ::core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(6)] fn c10_cell_list0() {
            let e = enc(Datacell::new_list(vec![]));
            assert!(e.len() == 3 && e[0] == 0x0E && e[1] == b'0' && e[2] == b'\n');
            witness!(true);
        }
    }
    fn float_text<T: ::core::fmt::Display + ?Sized>(x: &T) -> String { unsafe { SEEN = *(x as *const T as *const u64) }; String::from("7.5") }
    static mut SEEN: u64 = 0;
    harness! {
        #[kani::stub(<Datacell as ::core::ops::Drop>::drop, no_drop)]
        #[kani::stub(<f64 as ::std::string::ToString>::to_string, float_text)]
        #[kani::unwind(24)] fn c10_cell_float() {
            let v: u64 = any();
            let mut k = 0;
            while k < 2 {
                let e = enc(Datacell::new_float(f64::from_bits(v), if k == 0 { fs(TagSelector::Float32) } else { fs(TagSelector::Float64) }));
                #[cfg(kani)]
                assert!(unsafe { SEEN } == v && e.len() == 5 && e[1] == b'7' && e[2] == b'.' && e[3] == b'5');
                assert!(e[0] == 0x0A + k && e[e.len() - 1] == b'\n');
                k += 1;
            }
            witness!(v == 0);
        }
    }
}
