// hook: server/src/engine/core/model/mod.rs
use super::*;

#[cfg(feature = "c07")]
mod c07 {
    use super::*;
    use crate::engine::data::cell::Datacell;
    use crate::engine::data::tag::{DataTag, FullTag, TagClass, TagSelector, FloatSpec, SIntSpec, UIntSpec};
    use crate::{harness, vp, witness};

    const U: [TagSelector; 4] = [TagSelector::UInt8, TagSelector::UInt16, TagSelector::UInt32, TagSelector::UInt64];
    const S: [TagSelector; 4] = [TagSelector::SInt8, TagSelector::SInt16, TagSelector::SInt32, TagSelector::SInt64];
    const F: [TagSelector; 2] = [TagSelector::Float32, TagSelector::Float64];
    const ALL: [TagSelector; 13] = [
        TagSelector::Bool, TagSelector::UInt8, TagSelector::UInt16, TagSelector::UInt32, TagSelector::UInt64,
        TagSelector::SInt8, TagSelector::SInt16, TagSelector::SInt32, TagSelector::SInt64,
        TagSelector::Float32, TagSelector::Float64, TagSelector::Binary, TagSelector::String,
    ];
    fn fld(t: TagSelector, null: bool, lists: usize) -> Field {
        let mut l = VInline::new();
        let mut i = 0;
        while i < lists { l.push(Layer::list()); i += 1; }
        l.push(Layer::new_empty_props(t.into_full()));
        Field::new(l, null)
    }
    fn ulim(k: usize) -> u64 { [u8::MAX as u64, u16::MAX as u64, u32::MAX as u64, u64::MAX][k] }
    fn in_s(k: usize, v: i64) -> bool { [v as i8 as i64 == v, v as i16 as i64 == v, v as i32 as i64 == v, true][k] }
    fn in_f(k: usize, v: f64) -> bool { if k == 0 { v.abs() <= f32::MAX as f64 } else { v.abs() <= f64::MAX } }

    // class: 0 bool 1 uint 2 sint 3 float 4 bin 5 str
    fn class(t: TagSelector) -> usize {
        match t as u8 { 0 => 0, 1..=4 => 1, 5..=8 => 2, 9 | 10 => 3, 11 => 4, _ => 5 }
    }
    harness! {
        #[kani::unwind(15)]
        fn c07_uint_value() {
            let v: u64 = vp::any();
            let null: bool = vp::any();
            let mut i = 0;
            while i < 13 {
                let f = fld(ALL[i], null, 0);
                let mut d = Datacell::new_uint_default(v);
                let ok = f.vt_data_fpath(&mut d);
                if class(ALL[i]) == 1 {
                    let k = i - 1;
                    assert!(ok == (v <= ulim(k)), "unsigned range");
                    assert!(d.try_uint() == Some(v) && (!ok || d.tag().tag_selector() == ALL[i]), "stored value or type");
                } else {
                    assert!(!ok, "type mismatch accepted");
                }
                core::mem::forget((f, d));
                i += 1;
            }
            witness!(v > 255 && null);
        }
    }
    harness! {
        #[kani::unwind(15)]
        fn c07_sint_value() {
            let v: i64 = vp::any();
            let null: bool = vp::any();
            let mut i = 0;
            while i < 13 {
                let f = fld(ALL[i], null, 0);
                let mut d = Datacell::new_sint_default(v);
                let ok = f.vt_data_fpath(&mut d);
                if class(ALL[i]) == 2 {
                    assert!(ok == in_s(i - 5, v), "signed range");
                    assert!(d.try_sint() == Some(v) && (!ok || d.tag().tag_selector() == ALL[i]));
                } else {
                    assert!(!ok, "type mismatch accepted");
                }
                core::mem::forget((f, d));
                i += 1;
            }
            witness!(v < -200 && null);
        }
    }
    harness! {
        #[kani::unwind(15)]
        fn c07_float_value() {
            let bits: u64 = vp::any();
            let v = f64::from_bits(bits);
            let null: bool = vp::any();
            let mut i = 0;
            while i < 13 {
                let f = fld(ALL[i], null, 0);
                let mut d = Datacell::new_float_default(v);
                let ok = f.vt_data_fpath(&mut d);
                if class(ALL[i]) == 3 {
                    assert!(ok == in_f(i - 9, v), "float range");
                    assert!(d.float().to_bits() == bits && (!ok || d.tag().tag_selector() == ALL[i]));
                } else {
                    assert!(!ok, "type mismatch accepted");
                }
                core::mem::forget((f, d));
                i += 1;
            }
            witness!(v > 1e300 && null);
        }
    }
    harness! {
        #[kani::unwind(15)]
        fn c07_other_value() {
            // bool, binary, string and null values against every scalar type
            let b: bool = vp::any();
            let c: u8 = vp::any();
            let null: bool = vp::any();
            vp::assume(c < 128);
            let mut i = 0;
            while i < 13 {
                let f = fld(ALL[i], null, 0);
                let mut d = Datacell::new_bool(b);
                assert!(f.vt_data_fpath(&mut d) == (i == 0) && d.try_bool() == Some(b));
                let mut d = core::mem::ManuallyDrop::new(Datacell::new_bin(vec![c].into_boxed_slice()));
                assert!(f.vt_data_fpath(&mut d) == (i == 11) && d.try_bin() == Some(&[c][..]));
                let mut d = core::mem::ManuallyDrop::new(Datacell::new_str(unsafe { core::str::from_utf8_unchecked(&[c]) }.to_owned().into_boxed_str()));
                assert!(f.vt_data_fpath(&mut d) == (i == 12) && d.try_str().map(|x| x.as_bytes()[0]) == Some(c));
                let mut d = Datacell::null();
                assert!(f.vt_data_fpath(&mut d) == null && d.is_null(), "null accepted iff nullable");
                core::mem::forget(f);
                i += 1;
            }
            witness!(b && null);
        }
    }
    fn list1(d: Datacell) -> core::mem::ManuallyDrop<Datacell> {
        let mut v = Vec::with_capacity(1);
        v.push(d);
        core::mem::ManuallyDrop::new(Datacell::new_list(v))
    }
    fn list2(a: Datacell, b: Datacell) -> core::mem::ManuallyDrop<Datacell> {
        let mut v = Vec::with_capacity(2);
        v.push(a);
        v.push(b);
        core::mem::ManuallyDrop::new(Datacell::new_list(v))
    }
    #[cfg(kani)]
    fn no_drop(_: &mut Datacell) {}
    harness! {
        #[kani::stub(<Datacell as core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(5)]
        fn c07_list() {
            // a list field accepts exactly the lists whose every element fits the element type
            let a: u64 = vp::any();
            let b: u64 = vp::any();
            let s: i64 = vp::any();
            let null: bool = vp::any();
            let mut k = 0;
            while k < 4 {
                let f = core::mem::ManuallyDrop::new(fld(U[k], null, 1));
                let mut d = list2(Datacell::new_uint_default(a), Datacell::new_uint_default(b));
                assert!(f.vt_data_fpath(&mut d) == (a <= ulim(k) && b <= ulim(k)), "list element range");
                {
                    let r = d.list().read();
                    assert!(r.len() == 2 && r[0].try_uint() == Some(a) && r[1].try_uint() == Some(b));
                }
                let mut d = list2(Datacell::new_uint_default(0), Datacell::new_sint_default(s));
                assert!(!f.vt_data_fpath(&mut d), "mixed list");
                let f = core::mem::ManuallyDrop::new(fld(S[k], null, 1));
                let mut d = list1(Datacell::new_sint_default(s));
                assert!(f.vt_data_fpath(&mut d) == in_s(k, s), "list element range");
                // a bare value is not a list, a list is not a bare value
                let mut d = Datacell::new_sint_default(s);
                assert!(!f.vt_data_fpath(&mut d));
                let f = core::mem::ManuallyDrop::new(fld(U[k], null, 0));
                let mut d = list1(Datacell::new_uint_default(a));
                assert!(!f.vt_data_fpath(&mut d));
                k += 1;
            }
            witness!(a > 255 && null);
        }
    }
    harness! {
        #[kani::stub(<Datacell as core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(5)]
        fn c07_list_shape() {
            // nesting depth must match; empty lists and nulls
            let v: u64 = vp::any();
            let null: bool = vp::any();
            let f1 = core::mem::ManuallyDrop::new(fld(TagSelector::UInt8, null, 1));
            let f2 = core::mem::ManuallyDrop::new(fld(TagSelector::UInt8, null, 2));
            let mut d = core::mem::ManuallyDrop::new(Datacell::new_list(Vec::new()));
            assert!(f1.vt_data_fpath(&mut d));
            assert!(f2.vt_data_fpath(&mut d));
            let mut n = Datacell::null();
            assert!(f1.vt_data_fpath(&mut n) == null);
            let mut d = list1(core::mem::ManuallyDrop::into_inner(list1(Datacell::new_uint_default(v))));
            assert!(!f1.vt_data_fpath(&mut d), "deeper list accepted");
            assert!(f2.vt_data_fpath(&mut d) == (v <= 255));
            let mut d = list1(Datacell::new_uint_default(v));
            assert!(!f2.vt_data_fpath(&mut d), "shallower list accepted");
            witness!(v == 256 && null);
        }
    }
}
