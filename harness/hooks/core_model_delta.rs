// hook: server/src/engine/core/model/delta.rs
use super::*;
use crate::vp::*;

#[cfg(any(feature = "c16", not(kani)))]
mod c16 {
    use super::*;
    use crate::engine::core::index::{DcFieldIndex, PrimaryIndexKey};
    use crate::engine::core::model::{Field, Layer};
    use crate::engine::data::cell::Datacell;
    use crate::engine::data::tag::{DataTag, FullTag, TagUnique};
    use crate::engine::data::uuid::Uuid;
    use crate::engine::idx::{IndexBaseSpec, IndexSTSeqCns, STIndex, STIndexSeq};
    use crate::engine::mem::VInline;

    fn no_drop(_: &mut Datacell) {}
    const NAMES: [&str; 3] = ["a", "b", "c"];
    fn key(v: u64) -> PrimaryIndexKey { unsafe { PrimaryIndexKey::new_from_qw(TagUnique::UnsignedInt, v) } }
    fn raw(i: usize) -> RawStr { unsafe { RawStr::new(NAMES[i].as_ptr(), 1) } }
    fn chk(d: &DeltaState, row: &Row, has: &[bool; 3], vals: &[Option<u64>; 3]) {
        let r = row.resolve_schema_deltas_and_freeze(d);
        let mut i = 0;
        while i < 3 {
            match r.fields().get(NAMES[i]) {
                Some(c) => { assert!(has[i], "a removed field is still in the row"); assert!(c.try_uint() == vals[i], "wrong value"); assert!(vals[i].is_some() || c.is_null()); }
                None => assert!(!has[i], "an added field is missing in the row"),
            }
            i += 1;
        }
    }
    fn scenario(ops: &[usize], mid: bool) {
        let mut d = DeltaState::new_resolved();
        let mut has = [true, true, false];
        let v: [u64; 2] = any();
        let mut vals = [Some(v[0]), Some(v[1]), None];
        let mut f = DcFieldIndex::default();
        f.st_insert(raw(0), Datacell::new_uint_default(v[0]));
        f.st_insert(raw(1), Datacell::new_uint_default(v[1]));
        #[cfg(kani)]
        let mut mem = crate::engine::sync::smart::skyverif::RowMem::new();
        #[cfg(kani)]
        mem.install();
        let row = Row::new(key(7), f, d.schema_current_version(), DeltaVersion::__new(0));
        let mut i = 0;
        while i < ops.len() {
            let x = ops[i];
            if has[x] { d.unresolved_append_field_rem(raw(x), 0) } else { d.unresolved_append_field_add(raw(x)) }
            has[x] = !has[x];
            vals[x] = None;
            if i == 0 && mid { chk(&d, &row, &has, &vals); }
            i += 1;
        }
        chk(&d, &row, &has, &vals);
        core::mem::forget((d, row));
        #[cfg(kani)]
        core::mem::forget(mem);
    }
    harness! {
        #[kani::stub(<Datacell as ::core::ops::Drop>::drop, no_drop)]
        #[kani::stub(crate::engine::sync::smart::RawRC::new, crate::engine::sync::smart::skyverif::rc_new)]
        #[kani::unwind(5)] fn c16_sym1() { let (a, b, c): (usize, usize, usize) = (any(), any(), any()); assume(a < 3 && b < 3 && c < 3); scenario(&[a], false); witness!(b > 0); }
    }
    harness! {
        #[kani::stub(<Datacell as ::core::ops::Drop>::drop, no_drop)]
        #[kani::stub(crate::engine::sync::smart::RawRC::new, crate::engine::sync::smart::skyverif::rc_new)]
        #[kani::unwind(5)] fn c16_sym2_mid() { let (a, b, c): (usize, usize, usize) = (any(), any(), any()); assume(a < 3 && b < 3 && c < 3); scenario(&[a, b], true); witness!(b > 0); }
    }
    harness! {
        #[kani::stub(<Datacell as ::core::ops::Drop>::drop, no_drop)]
        #[kani::stub(crate::engine::sync::smart::RawRC::new, crate::engine::sync::smart::skyverif::rc_new)]
        #[kani::unwind(5)] fn c16_sym3() { let (a, b, c): (usize, usize, usize) = (any(), any(), any()); assume(a < 3 && b < 3 && c < 3); scenario(&[a, b, c], false); witness!(b > 0); }
    }
}
