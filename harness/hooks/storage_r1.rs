// hook: server/src/engine/storage/common_encoding/r1/mod.rs
use super::*;

#[cfg(feature = "c20")]
mod c20 {
    use super::super::obj::cell::{self, StorageCellTypeID};
    use super::*;
    use crate::engine::data::cell::Datacell;
    use crate::engine::data::tag::{DataTag, FloatSpec, SIntSpec, TagClass, UIntSpec, TagUnique};
    use crate::{harness, vp, witness};

    #[cfg(kani)]
    fn no_drop(_: &mut Datacell) {}
    fn dec(buf: &[u8]) -> Option<(Datacell, usize)> {
        let mut s = BufferedScanner::new(buf);
        if buf.is_empty() || !StorageCellTypeID::is_valid(buf[0]) {
            return None;
        }
        // (the pretest every caller makes)
        if buf.len() - 1 < StorageCellTypeID::expect_atleast(buf[0]) {
            return None;
        }
        let r = unsafe {
            let d = s.next_byte();
            cell::decode_element::<Datacell, BufferedScanner>(&mut s, core::mem::transmute::<u8, StorageCellTypeID>(d))
        };
        let c = s.cursor();
        match r { Ok(d) => Some((d, c)), Err(()) => None }
    }
    fn rt(d: &Datacell) -> (Datacell, Vec<u8>) {
        let mut b = Vec::with_capacity(64);
        cell::encode(&mut b, d);
        let (e, c) = dec(&b).expect("an encoded value must decode");
        assert!(c == b.len(), "decoding consumed a different number of bytes");
        assert!(e.is_null() == d.is_null());
        if !d.is_null() {
            assert!(e.tag().tag_unique() as u8 == d.tag().tag_unique() as u8);
            assert!(e.tag().tag_class() as u8 == d.tag().tag_class() as u8);
            assert!(e.tag().tag_selector() as u8 == d.tag().tag_selector() as u8);
        }
        (e, b)
    }
    use crate::engine::data::tag::TagSelector;
    const SEL: [TagSelector; 10] = [
        TagSelector::UInt8, TagSelector::UInt16, TagSelector::UInt32, TagSelector::UInt64,
        TagSelector::SInt8, TagSelector::SInt16, TagSelector::SInt32, TagSelector::SInt64,
        TagSelector::Float32, TagSelector::Float64,
    ];
    fn u(k: usize) -> UIntSpec { unsafe { UIntSpec::from_full(SEL[k].into_full()) } }
    fn s(k: usize) -> SIntSpec { unsafe { SIntSpec::from_full(SEL[4 + k].into_full()) } }
    fn f(k: usize) -> FloatSpec { unsafe { FloatSpec::from_full(SEL[8 + k].into_full()) } }
    harness! {
        #[kani::stub(<Datacell as core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(18)]
        fn c20_roundtrip_null_bool() {
            let (e, b) = rt(&Datacell::null());
            assert!(b == [0] && e.is_null());
            let v: bool = vp::any();
            let (e, b) = rt(&Datacell::new_bool(v));
            witness!(v);
            assert!(b.len() == 2 && b[0] == 1 && b[1] == v as u8);
            assert!(e.try_bool() == Some(v));
        }
    }
    harness! {
        #[kani::stub(<Datacell as core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(18)]
        fn c20_roundtrip_uint() {
            let v: u64 = vp::any();
            let mut k = 0;
            while k < 4 {
                let (e, b) = rt(&Datacell::new_uint(v, u(k)));
                assert!(e.try_uint() == Some(v));
                assert!(b.len() == 9 && b[0] == 2 + k as u8 && b[1..] == v.to_le_bytes());
                core::mem::forget((e, b));
                k += 1;
            }
            witness!(v > 1 << 63);
        }
    }
    harness! {
        #[kani::stub(<Datacell as core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(18)]
        fn c20_roundtrip_sint() {
            let v: i64 = vp::any();
            let mut k = 0;
            while k < 4 {
                let (e, b) = rt(&Datacell::new_sint(v, s(k)));
                assert!(e.try_sint() == Some(v));
                assert!(b.len() == 9 && b[0] == 6 + k as u8 && b[1..] == v.to_le_bytes());
                core::mem::forget((e, b));
                k += 1;
            }
            witness!(v < 0);
        }
    }
    harness! {
        #[kani::stub(<Datacell as core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(18)]
        fn c20_roundtrip_float() {
            let v: u64 = vp::any();
            let mut k = 0;
            while k < 2 {
                let (e, b) = rt(&Datacell::new_float(f64::from_bits(v), f(k)));
                assert!(e.try_float().unwrap().to_bits() == v);
                assert!(b.len() == 9 && b[0] == 10 + k as u8 && b[1..] == v.to_le_bytes());
                core::mem::forget((e, b));
                k += 1;
            }
            witness!(v > 1 << 63);
        }
    }
    const L: usize = if cfg!(feature = "thorough") { 6 } else { 3 };
    harness! {
        #[kani::stub(<Datacell as core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(10)]
        #[kani::stub(core::str::from_utf8, crate::vp::utf8_stub)]
        fn c20_roundtrip_bin_str() {
            let v: [u8; L] = vp::any();
            let mut i = 0;
            while i < L { vp::assume(v[i] < 128); i += 1; }
            let mut n = 0;
            while n <= L {
                let (e, b) = rt(&Datacell::new_bin(v[..n].to_vec().into_boxed_slice()));
                assert!(e.try_bin() == Some(&v[..n]));
                assert!(b.len() == 9 + n && b[0] == 12);
                core::mem::forget((e, b));
                let st = unsafe { core::str::from_utf8_unchecked(&v[..n]) };
                let (e, b) = rt(&Datacell::new_str(st.to_owned().into_boxed_str()));
                assert!(e.try_str() == Some(st));
                assert!(b.len() == 9 + n && b[0] == 13);
                core::mem::forget((e, b));
                n += 1;
            }
            witness!(v[0] == 100);
        }
    }
    harness! {
        #[kani::stub(<Datacell as core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(10)]
        fn c20_decode_list() {
            // [uint16, [bool], []]
            let a: u8 = vp::any();
            let a2: u8 = vp::any();
            let b: bool = vp::any();
            let buf = [14, 3, 0, 0, 0, 0, 0, 0, 0, 3, a, a2, 0, 0, 0, 0, 0, 0, 14, 1, 0, 0, 0, 0, 0, 0, 0, 1, b as u8, 14, 0, 0, 0, 0, 0, 0, 0, 0];
            let (e, c) = dec(&buf).expect("a well-formed list must decode");
            witness!(b);
            assert!(c == buf.len());
            {
                let g = e.try_list().unwrap().read();
                assert!(g.len() == 3);
                assert!(g[0].try_uint() == Some(a as u64 + 256 * a2 as u64));
                assert!(g[0].tag().tag_selector() as u8 == TagSelector::UInt16 as u8);
                let i = g[1].try_list().unwrap().read();
                assert!(i.len() == 1 && i[0].try_bool() == Some(b));
                assert!(g[2].try_list().unwrap().read().len() == 0);
            }
            core::mem::forget(e);
        }
    }
    fn corrupt<const N: usize>(dscr: u8) -> bool {
        let mut b: [u8; N] = vp::any();
        b[0] = dscr;
        match dec(&b) {
            None => false,
            Some((d, c)) => {
                assert!(c <= N, "decoder read past the end of its input");
                match dscr {
                    0 => assert!(d.is_null() && c == 1),
                    1 => assert!(d.try_bool() == Some(b[1] == 1) && b[1] < 2 && c == 2),
                    2..=5 => assert!(c == 9 && d.try_uint().unwrap().to_le_bytes() == b[1..9]),
                    6..=9 => assert!(c == 9 && d.try_sint().unwrap().to_le_bytes() == b[1..9]),
                    10..=11 => assert!(c == 9 && d.try_float().unwrap().to_bits().to_le_bytes() == b[1..9]),
                    12 => assert!(d.try_bin() == Some(&b[9..c])),
                    13 => assert!(d.try_str().map(|s| s.as_bytes()) == Some(&b[9..c])),
                    14 => assert!(d.try_list().is_some()),
                    _ => panic!("not a value"),
                }
                core::mem::forget(d);
                true
            }
        }
    }
    harness! {
        #[kani::stub(<Datacell as core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(14)]
        fn c20_corrupt_scalar() {
            let mut d = 0;
            while d < 12 {
                let ok = corrupt::<10>(d);
                witness!(ok);
                d += 1;
            }
            assert!(!corrupt::<3>(2) && !corrupt::<1>(1));
        }
    }
    harness! {
        #[kani::stub(<Datacell as core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(12)]
        fn c20_corrupt_bin() { let ok = corrupt::<12>(12); witness!(ok); }
    }
    harness! {
        #[kani::stub(<Datacell as core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(4)]
        #[kani::stub(core::str::from_utf8, crate::vp::utf8_stub)]
        fn c20_corrupt_str() { let ok = corrupt::<11>(13); witness!(ok); }
    }
    harness! {
        #[kani::stub(<Datacell as core::ops::Drop>::drop, no_drop)]
        #[kani::unwind(7)]
        fn c20_corrupt_list() {
            // any element count, elements cut short anywhere
            let l: u8 = vp::any();
            let y: u8 = vp::any();
            let mut ok = false;
            let mut k = 0;
            while k < 6 {
                let x = [0u8, 1, 2, 12, 14, 15][k];
                let buf = [14, l, 0, 0, 0, 0, 0, 0, 0, x, if x == 1 { y } else { 0 }];
                if let Some((d, c)) = dec(&buf) {
                    assert!(c <= buf.len(), "decoder read past the end of its input");
                    let n = d.try_list().unwrap().read().len();
                    assert!(n == l as usize);
                    if n == 1 && x == 1 { ok = true; assert!(y < 2) }
                    assert!(n == 0 || x < 2);
                    core::mem::forget(d);
                }
                k += 1;
            }
            witness!(ok);
        }
    }
}

#[cfg(feature = "c21")]
mod c21 {
    use super::super::impls::gns::GNSEvent;
    use crate::util::compiler::TaggedEnum;
    use super::super::{map, obj};
    use super::*;
    use crate::engine::core::model::{Field, Layer};
    use crate::engine::data::cell::Datacell;
    use crate::engine::data::tag::{DataTag, TagClass, TagSelector};
    use crate::engine::data::uuid::Uuid;
    use crate::engine::data::dict::DictEntryGeneric;
    use crate::engine::mem::VInline;
    use super::super::impls::gns::{model::skyverif as macc, skyverif as gacc};
    use crate::engine::storage::common_encoding::r2::skyverif as acc;
    use crate::engine::ql::lex::Ident;
    use crate::engine::txn::gns::model::{AlterModelRemoveTxn, DropModelTxn};
    use crate::engine::txn::gns::space::DropSpaceTxn;
    use crate::engine::txn::gns::sysctl::{AlterUserTxn, CreateUserTxn, DropUserTxn};
    use crate::engine::txn::{ModelIDRef, SpaceIDRef};
    use crate::{harness, vp, witness};

    #[cfg(kani)]
    fn no_drop(_: &mut Datacell) {}
    const SEL: [TagSelector; 14] = [
        TagSelector::Bool, TagSelector::UInt8, TagSelector::UInt16, TagSelector::UInt32, TagSelector::UInt64,
        TagSelector::SInt8, TagSelector::SInt16, TagSelector::SInt32, TagSelector::SInt64,
        TagSelector::Float32, TagSelector::Float64, TagSelector::Binary, TagSelector::String, TagSelector::List,
    ];
    fn field(depth: usize, k: usize, null: bool) -> Field {
        let mut l = VInline::new();
        let mut i = 0;
        while i < depth { l.push(Layer::list()); i += 1; }
        l.push(Layer::new_empty_props(SEL[k].into_full()));
        Field::new(l, null)
    }
    fn same_layer(l: &Layer, k: usize) -> bool {
        let t = l.tag();
        let f = SEL[k].into_full();
        t.tag_selector() as u8 == f.tag_selector() as u8 && t.tag_class() as u8 == f.tag_class() as u8 && t.tag_unique() as u8 == f.tag_unique() as u8
    }
    fn field_rt(depth: usize) {
        let k = vp::below(13);
        let null: bool = vp::any();
        let f = field(depth, k, null);
        let mut b = Vec::with_capacity(64);
        obj::FieldRef::default_full_enc(&mut b, &f);
        assert!(b.len() == 17 + 16 * (depth + 1));
        let mut s = BufferedScanner::new(&b);
        match obj::FieldRef::default_full_dec(&mut s) {
            Ok(g) => {
                witness!(null && k == 12);
                assert!(s.eof() && g.is_nullable() == null && g.layers().len() == depth + 1);
                let mut i = 0;
                while i < depth { assert!(same_layer(&g.layers()[i], 13)); i += 1; }
                assert!(same_layer(&g.layers()[depth], k));
                core::mem::forget(g);
            }
            Err(_) => panic!("an encoded field definition must decode"),
        }
        core::mem::forget((f, b));
    }
    harness! { #[kani::unwind(10)] fn c21_field_flat() { field_rt(0) } }
    harness! { #[kani::unwind(10)] fn c21_field_list() { field_rt(1) } }
    harness! {
        #[kani::unwind(5)]
        fn c21_field_corrupt() {
            // any 17+16+16+1 bytes, any truncation
            let b: [u8; 50] = vp::any();
            let n = vp::upto(0, 50);
            let mut s = BufferedScanner::new(&b[..n]);
            match obj::FieldRef::default_full_dec(&mut s) {
                Ok(f) => {
                    witness!(f.layers().len() == 2);
                    let l = f.layers();
                    assert!(s.cursor() <= n && b[16] < 2 && f.is_nullable() == (b[16] == 1));
                    assert!(l.len() == b[8] as usize && s.cursor() == 17 + 16 * l.len());
                    // a usable type: nested lists ending in a non-list
                    let mut i = 0;
                    while i < l.len() {
                        assert!(b[17 + 16 * i] < 14 && same_layer(&l[i], b[17 + 16 * i] as usize));
                        assert!((b[17 + 16 * i] == 13) == (i + 1 < l.len()));
                        i += 1;
                    }
                    core::mem::forget(f);
                }
                Err(e) => core::mem::forget(e),
            }
        }
    }
    // ---- dictionaries: every entry function is the real one, the target map is a plain array ----
    type V = core::mem::ManuallyDrop<DictEntryGeneric>;
    pub struct Arr<K, V>(core::mem::ManuallyDrop<Vec<(K, V)>>);
    impl AbstractMap<Box<str>, V> for Arr<Box<str>, V> {
        fn map_new() -> Self { Self(core::mem::ManuallyDrop::new(Vec::with_capacity(2))) }
        fn map_insert(&mut self, k: Box<str>, v: V) -> bool { self.0.push((k, v)); true }
        fn map_length(&self) -> usize { self.0.len() }
    }
    type G = map::GenericDictSpec;
    /// every entry of the stored dictionary has type code D
    pub struct DictA<const D: u8>;
    impl StatelessLen for Arr<Box<str>, V> { fn stateless_len(&self) -> usize { self.0.len() } }
    pub struct It<'a>(&'a [(Box<str>, V)], usize);
    impl<'a> Iterator for It<'a> {
        type Item = (&'a Box<str>, &'a V);
        fn next(&mut self) -> Option<Self::Item> {
            if self.1 < self.0.len() { self.1 += 1; let (a, b) = &self.0[self.1 - 1]; Some((a, b)) } else { None }
        }
    }
    impl<const D: u8> MapStorageSpec for DictA<D> {
        type InMemoryMap = Arr<Box<str>, V>;
        type InMemoryKey = Box<str>;
        type InMemoryVal = V;
        type InMemoryMapIter<'a> = It<'a>;
        type RestoredKey = Box<str>;
        type RestoredVal = V;
        type RestoredMap = Arr<Box<str>, V>;
        type EntryMetadata = <G as MapStorageSpec>::EntryMetadata;
        const ENC_AS_ENTRY: bool = G::ENC_AS_ENTRY;
        const DEC_AS_ENTRY: bool = G::DEC_AS_ENTRY;
        fn get_iter_from_memory<'a>(m: &'a Self::InMemoryMap) -> It<'a> { It(&m.0, 0) }
        fn encode_entry_meta(b: &mut VecU8, k: &Box<str>, v: &V) { G::encode_entry_meta(b, k, v) }
        fn encode_entry_data(b: &mut VecU8, k: &Box<str>, v: &V) { G::encode_entry_data(b, k, v) }
        fn encode_entry_key(b: &mut VecU8, k: &Box<str>) { G::encode_entry_key(b, k) }
        fn encode_entry_val(b: &mut VecU8, v: &V) { G::encode_entry_val(b, v) }
        fn decode_pretest_for_map(s: &BufferedScanner, n: usize) -> bool { G::decode_pretest_for_map(s, n) }
        fn decode_pretest_for_entry_meta(s: &mut BufferedScanner) -> bool { G::decode_pretest_for_entry_meta(s) }
        fn decode_pretest_for_entry_data(s: &mut BufferedScanner, md: &Self::EntryMetadata) -> bool { G::decode_pretest_for_entry_data(s, md) }
        unsafe fn decode_entry_meta(s: &mut BufferedScanner) -> Option<Self::EntryMetadata> { G::decode_entry_meta(s) }
        unsafe fn decode_entry_data(s: &mut BufferedScanner, md: Self::EntryMetadata) -> Option<(Box<str>, V)> { G::decode_entry_data(s, md).map(|(a, b)| (a, V::new(b))) }
        unsafe fn decode_entry_key(s: &mut BufferedScanner, md: &Self::EntryMetadata) -> Option<Box<str>> { G::decode_entry_key(s, md) }
        unsafe fn decode_entry_val(s: &mut BufferedScanner, md: &Self::EntryMetadata) -> Option<V> {
            vp::assume(md.dscr == D);
            match obj::cell::decode_element::<obj::cell::CanYieldDict, BufferedScanner>(s, obj::cell::StorageCellTypeID::from_raw(D)) {
                Ok(obj::cell::CanYieldDict::Data(d)) => Some(V::new(DictEntryGeneric::Data(d))),
                _ => None,
            }
        }
    }
    type PM<'a, const D: u8> = map::PersistMapImpl<'a, DictA<D>>;
    harness! {
        #[kani::stub(<Datacell as core::ops::Drop>::drop, no_drop)]
        #[kani::stub(core::str::from_utf8, crate::vp::utf8_stub)]
        #[kani::unwind(10)]
        fn c21_dict_roundtrip() {
            let a: u64 = vp::any();
            let kc: u8 = vp::any();
            vp::assume(kc < 128);
            let kb = [kc];
            let k1 = unsafe { core::str::from_utf8_unchecked(&kb) }.to_owned().into_boxed_str();
            let e = V::new(DictEntryGeneric::Data(Datacell::new_uint_default(a)));
            let mut v = Vec::with_capacity(64);
            // [entry count][entry]
            v.extend([1, 0, 0, 0, 0, 0, 0, 0]);
            G::encode_entry_meta(&mut v, &k1, &e);
            G::encode_entry_data(&mut v, &k1, &e);
            let mut s = BufferedScanner::new(&v);
            match PM::<5>::default_full_dec(&mut s) {
                Ok(r) => {
                    witness!(a == 7);
                    assert!(s.eof() && r.0.len() == 1);
                    assert!(r.0[0].0.as_bytes() == &kb);
                    assert!(matches!(&*r.0[0].1, DictEntryGeneric::Data(d) if d.try_uint() == Some(a)));
                    core::mem::forget(r);
                }
                Err(_) => panic!("an encoded dictionary must decode"),
            }
            core::mem::forget((k1, v));
        }
    }
    harness! {
        #[kani::stub(<Datacell as core::ops::Drop>::drop, no_drop)]
        #[kani::stub(core::str::from_utf8, crate::vp::utf8_stub)]
        #[kani::unwind(9)]
        fn c21_dict_corrupt() {
            dict_corrupt(1);
        }
    }
    harness! {
        #[kani::stub(<Datacell as core::ops::Drop>::drop, no_drop)]
        #[kani::stub(core::str::from_utf8, crate::vp::utf8_stub)]
        #[kani::unwind(9)]
        fn c21_dict_corrupt2() {
            dict_corrupt(2);
        }
    }
    // [n][klen][dscr = bool][rest..]: any key length, three more bytes
    fn dict_corrupt(cnt: u8) {
        let kl: [u8; 8] = vp::any();
        let t: [u8; 3] = vp::any();
        let b = [cnt, 0, 0, 0, 0, 0, 0, 0, kl[0], kl[1], kl[2], kl[3], kl[4], kl[5], kl[6], kl[7], 1, t[0], t[1], t[2]];
        let mut s = BufferedScanner::new(&b);
        let mut got = false;
        match PM::<1>::default_full_dec(&mut s) {
            Ok(r) => {
                got = true;
                assert!(s.cursor() <= 20 && r.0.len() == cnt as usize && cnt < 2);
                let k = r.0[0].0.as_bytes();
                assert!(k.len() == kl[0] as usize && k == &t[..k.len()]);
                assert!(matches!(&*r.0[0].1, DictEntryGeneric::Data(d) if d.try_bool() == Some(t[k.len()] == 1)));
                core::mem::forget(r);
            }
            Err(e) => core::mem::forget(e),
        }
        witness!(got == (cnt == 1));
    }
    // ---- user events ----
    fn arb_str(b: &[u8]) -> &str { unsafe { core::str::from_utf8_unchecked(b) } }
    fn ascii<const N: usize>() -> [u8; N] {
        let b: [u8; N] = vp::any();
        let mut i = 0;
        while i < N { vp::assume(b[i] < 128); i += 1; }
        b
    }
    harness! {
        #[kani::stub(core::str::from_utf8, crate::vp::utf8_stub)]
        #[kani::unwind(10)]
        fn c21_user_events() {
            let u = ascii::<2>();
            let p: [u8; 3] = vp::any();
            let mut b = Vec::with_capacity(64);
            CreateUserTxn::encode_event(CreateUserTxn::new(arb_str(&u), &p), &mut b);
            let mut s = BufferedScanner::new(&b);
            match CreateUserTxn::decode(&mut s) {
                Ok(d) => { witness!(true); assert!(s.eof() && acc::user(&d) == (&u[..], &p[..])); core::mem::forget(d) }
                Err(_) => panic!(),
            }
            core::mem::forget(b);
        }
    }
    harness! {
        #[kani::stub(core::str::from_utf8, crate::vp::utf8_stub)]
        #[kani::unwind(10)]
        fn c21_user_events2() {
            let u = ascii::<2>();
            let p: [u8; 2] = vp::any();
            let mut b2 = Vec::with_capacity(64);
            AlterUserTxn::encode_event(AlterUserTxn::new(arb_str(&u), &p), &mut b2);
            let mut s = BufferedScanner::new(&b2);
            match AlterUserTxn::decode(&mut s) {
                Ok(d) => { assert!(s.eof() && acc::user(&d) == (&u[..], &p[..])); core::mem::forget(d) }
                Err(_) => panic!(),
            }
            let mut b3 = Vec::with_capacity(64);
            DropUserTxn::encode_event(DropUserTxn::new(arb_str(&u)), &mut b3);
            let mut s = BufferedScanner::new(&b3);
            match DropUserTxn::decode(&mut s) {
                Ok(d) => { assert!(s.eof() && acc::dropped(&d) == u); core::mem::forget(d) }
                Err(_) => panic!(),
            }
            core::mem::forget((b2, b3));
        }
    }
    harness! {
        #[kani::stub(core::str::from_utf8, crate::vp::utf8_stub)]
        #[kani::unwind(5)]
        fn c21_user_corrupt() {
            let b: [u8; 27] = vp::any();
            let n = vp::upto(0, 27);
            let mut s = BufferedScanner::new(&b[..n]);
            match CreateUserTxn::decode(&mut s) {
                Ok(d) => {
                    witness!(acc::user(&d).0.len() == 2 && acc::user(&d).1.len() == 1);
                    let (un, pw) = acc::user(&d);
                    let (ul, pl) = (un.len(), pw.len());
                    assert!(s.cursor() == 24 + ul + pl && s.cursor() <= n);
                    assert!(ul == b[0] as usize && pl == b[8] as usize);
                    assert!(un == &b[24..24 + ul] && *pw == b[24 + ul..24 + ul + pl]);
                    core::mem::forget(d)
                }
                Err(e) => core::mem::forget(e),
            }
            let mut s = BufferedScanner::new(&b[..n]);
            match AlterUserTxn::decode(&mut s) { Ok(d) => { assert!(s.cursor() <= n); core::mem::forget(d) } Err(e) => core::mem::forget(e) }
            let n = vp::upto(0, 11);
            let mut s = BufferedScanner::new(&b[..n]);
            match DropUserTxn::decode(&mut s) { Ok(d) => { assert!(s.cursor() == 8 + acc::dropped(&d).len() && s.cursor() <= n); core::mem::forget(d) } Err(e) => core::mem::forget(e) }
        }
    }
    // ---- space / model identities, removed fields ----
    harness! {
        #[kani::stub(core::str::from_utf8, crate::vp::utf8_stub)]
        #[kani::unwind(18)]
        fn c21_ids_roundtrip() {
            let su: [u8; 16] = vp::any();
            let sn = ascii::<2>();
            let sid = SpaceIDRef::with_uuid(arb_str(&sn), Uuid::from_bytes(su));
            let mut b = Vec::with_capacity(64);
            DropSpaceTxn::encode_event(DropSpaceTxn::new(sid), &mut b);
            let mut s = BufferedScanner::new(&b);
            match DropSpaceTxn::decode(&mut s) {
                Ok(d) => { witness!(true); assert!(s.eof() && gacc::space(&d) == (su, &sn[..])); core::mem::forget(d) }
                Err(_) => panic!(),
            }
            core::mem::forget(b);
        }
    }
    harness! {
        #[kani::stub(core::str::from_utf8, crate::vp::utf8_stub)]
        #[kani::unwind(18)]
        fn c21_removed_roundtrip() {
            let su: [u8; 16] = vp::any();
            let mu: [u8; 16] = vp::any();
            let ver: u64 = vp::any();
            let sn = *b"s";
            let mn = *b"mo";
            let f = *b"fie";
            let sid = SpaceIDRef::with_uuid(arb_str(&sn), Uuid::from_bytes(su));
            let mid = ModelIDRef::new(sid, arb_str(&mn), Uuid::from_bytes(mu), ver);
            let ids = [Ident::from(arb_str(&f)), Ident::from("")];
            let mut b2 = Vec::with_capacity(128);
            AlterModelRemoveTxn::encode_event(AlterModelRemoveTxn::new(mid, &ids), &mut b2);
            let mut s = BufferedScanner::new(&b2);
            match AlterModelRemoveTxn::decode(&mut s) {
                Ok(d) => {
                    assert!(s.eof() && macc::removed(&d).len() == 2 && macc::removed(&d)[0].as_bytes() == f && macc::removed(&d)[1].len() == 0);
                    let (sp, name, id, v) = macc::id(macc::removed_id(&d));
                    assert!(gacc::space(sp) == (su, &sn[..]));
                    assert!(name == mn && id == mu && v == ver);
                    core::mem::forget(d)
                }
                Err(_) => panic!(),
            }
            core::mem::forget(b2);
        }
    }
    harness! {
        #[kani::stub(core::str::from_utf8, crate::vp::utf8_stub)]
        #[kani::unwind(5)]
        fn c21_ids_corrupt() {
            let b: [u8; 59] = vp::any();
            let n = vp::upto(0, 59);
            let mut s = BufferedScanner::new(&b[..n]);
            match DropModelTxn::decode(&mut s) { Ok(d) => { let (sp, name, _, _) = macc::id(&d); witness!(name.len() == 2); assert!(s.cursor() <= n && s.cursor() == 56 + name.len() + gacc::space(sp).1.len()); core::mem::forget(d) } Err(e) => core::mem::forget(e) }
        }
    }
}
