// hook: server/src/engine/storage/v2/raw/journal/mod.rs
use super::*;
use super::raw::{create_journal, open_journal};
use crate::vp::*;
use crate::engine::storage::common::interface::fs::{FileRead, FileWrite};
use crate::engine::storage::common::sdss::sdss_r1::{HeaderV1, HeaderV1Spec};
use crate::vstd::fsmodel::{disk, MAX};
use core::cell::Cell;

/// a file specification with a one-byte header
pub struct TinySpec;
impl FileSpecV1 for TinySpec {
    const SIZE: usize = 1;
    type Metadata = ();
    type HeaderSpec = crate::engine::storage::v2::raw::spec::HeaderImplV2;
    type EncodeArgs = ();
    type DecodeArgs = ();
    fn validate_metadata(_: HeaderV1<Self::HeaderSpec>, _: ()) -> RuntimeResult<()> { Ok(()) }
    fn read_metadata(f: &mut impl FileRead, _: ()) -> RuntimeResult<()> {
        let b: [u8; 1] = f.fread_exact_block()?;
        if b[0] == 0x53 { Ok(()) } else { Err(StorageError::HeaderDecodeCorruptedHeader.into()) }
    }
    fn write_metadata(f: &mut impl FileWrite, _: ()) -> crate::IoResult<()> { f.fwrite_all(&[0x53]) }
}
#[derive(Debug, PartialEq, Clone, Copy, sky_macros::EnumMethods, sky_macros::TaggedEnum)]
#[repr(u8)]
pub enum Kind { A = 0, B = 1 }
#[derive(Debug)]
pub struct Log;
pub const CAP: usize = 4;
/// what was applied, in order: (kind, payload length, first payload bytes)
pub struct Applied { n: Cell<usize>, ev: [Cell<(u8, usize, [u8; 2])>; CAP] }
impl Applied {
    pub fn new() -> Self { Self { n: Cell::new(0), ev: [const { Cell::new((9, 0, [0; 2])) }; CAP] } }
    fn push(&self, k: u8, p: Vec<u8>) -> RuntimeResult<()> {
        let mut b = [0u8; 2];
        let mut i = 0;
        while i < 2 { if i < p.len() { b[i] = p[i]; } i += 1; }
        let n = self.n.get();
        assert!(n < CAP, "more events applied than were ever committed");
        self.ev[n].set((k, p.len(), b));
        self.n.set(n + 1);
        Ok(())
    }
}
impl EventLogSpec for Log {
    type Spec = TinySpec;
    type GlobalState = Applied;
    type EventMeta = Kind;
    type DecodeDispatch = [DispatchFn<Applied>; 2];
    const DECODE_DISPATCH: Self::DecodeDispatch = [|g, p| g.push(0, p), |g, p| g.push(1, p)];
}
#[derive(Clone, Copy)]
pub struct Ev { k: u8, n: usize, b: [u8; 2] }
impl RawJournalAdapterEvent<EventLogAdapter<Log>> for Ev {
    fn md(&self) -> u64 { self.k as u64 }
    fn write_buffered<'a>(self, v: &mut Vec<u8>, _: ()) { v.extend_from_slice(&self.b[..self.n]); }
}
type J = EventLogAdapter<Log>;
fn ev(k: u8, n: usize) -> Ev { let b: [u8; 2] = any(); Ev { k, n, b: if n == 0 { [0; 2] } else if n == 1 { [b[0], 0] } else { b } } }
fn same(a: &Applied, i: usize, e: Ev) { assert!(a.ev[i].get() == (e.k, e.n, e.b), "event {} not restored as committed", i); }
fn is_prefix(a: &Applied, e: &[Ev]) {
    let n = a.n.get();
    assert!(n <= e.len(), "an event was applied that was never committed");
    let mut i = 0;
    while i < e.len() { if i < n { same(a, i, e[i]); } i += 1; }
}
fn fresh() { let d = disk(); d.exists = false; d.len = 0; d.budget = usize::MAX; d.torn = 0; d.short = false; d.sync_fail = false; d.fail_after_short = false; }

#[cfg(any(feature = "c24", not(kani)))]
mod c24 {
    use super::*;
    // committed events are restored, in order, over two reopenings
    harness! { #[kani::unwind(66)] fn c24_reopen() {
        fresh();
        let e = [ev(0, 2), ev(1, 0)];
        let mut j = create_journal::<J>("j").unwrap();
        j.commit_event(e[0]).unwrap();
        RawJournalWriter::close_driver(&mut j).unwrap();
        core::mem::forget(j);
        let a = Applied::new();
        let mut j = open_journal::<J>("j", &a).unwrap();
        assert!(a.n.get() == 1);
        is_prefix(&a, &e);
        j.commit_event(e[1]).unwrap();
        RawJournalWriter::close_driver(&mut j).unwrap();
        core::mem::forget(j);
        let a = Applied::new();
        let j = open_journal::<J>("j", &a).unwrap();
        assert!(a.n.get() == 2);
        is_prefix(&a, &e);
        witness!(true);
        core::mem::forget(j);
    } }
    // any number of events in one session
    harness! { #[kani::unwind(66)] fn c24_many() {
        fresh();
        let e = [ev(0, 2), ev(1, 0), ev(1, 1), ev(0, 2)];
        let mut j = create_journal::<J>("j").unwrap();
        j.commit_event(e[0]).unwrap();
        j.commit_event(e[1]).unwrap();
        j.commit_event(e[2]).unwrap();
        j.commit_event(e[3]).unwrap();
        RawJournalWriter::close_driver(&mut j).unwrap();
        core::mem::forget(j);
        let a = Applied::new();
        let j = open_journal::<J>("j", &a).unwrap();
        assert!(a.n.get() == 4);
        is_prefix(&a, &e);
        witness!(true);
        core::mem::forget(j);
    } }
    // any truncation: what is applied is a prefix of what was committed, and the journal is refused
    static mut APPLIED: *const Applied = core::ptr::null();
    static mut EVS: [Ev; 2] = [Ev { k: 0, n: 0, b: [0; 2] }; 2];
    static mut CUT: usize = 0;
    fn refused() {
        let (a, e, cut) = unsafe { (&*APPLIED, &EVS, CUT) };
        is_prefix(a, e);
        assert!(a.n.get() == (cut >= 42) as usize + (cut >= 84) as usize);
        witness!(a.n.get() == 0); witness!(a.n.get() == 1); witness!(a.n.get() == 2);
    }
    harness! { #[kani::stub(crate::util::os::SysIOError::into_inner, crate::engine::skyverif::trap_io)]
        #[kani::unwind(66)] fn c24_truncated() {
        fresh();
        let e = [ev(0, 1), ev(1, 2)];
        let mut j = create_journal::<J>("j").unwrap();
        j.commit_event(e[0]).unwrap();
        j.commit_event(e[1]).unwrap();
        RawJournalWriter::close_driver(&mut j).unwrap();
        core::mem::forget(j);
        let full = disk().len;
        assert!(full == 1 + 41 + 42 + 64);
        let cut = upto(0, full);
        disk().len = cut;
        let a = Applied::new();
        unsafe { APPLIED = &a; EVS = e; CUT = cut; TRAP = Some(refused); }
        let r = open_journal::<J>("j", &a);
        match &r {
            Ok(_) => { assert!(cut == full, "a truncated journal must be refused"); assert!(a.n.get() == 2); is_prefix(&a, &e); witness!(true); }
            Err(_) => { refused(); assert!(cut != full, "a complete journal must be accepted"); }
        }
        core::mem::forget(r);
    } }
    // any corrupted field of any event is refused
    static mut DONE: bool = false;
    fn never() { witness!(true); }
    fn corrupted(at: usize, n: usize) {
        fresh();
        unsafe { crate::vstd::crcmodel::BYTES = true; }
        let e = Ev { k: 0, n: 1, b: [7, 0] };
        let mut j = create_journal::<J>("j").unwrap();
        j.commit_event(e).unwrap();
        RawJournalWriter::close_driver(&mut j).unwrap();
        core::mem::forget(j);
        let full = disk().len;
        assert!(full == 1 + 41 + 64);
        let mut diff = false;
        let mut i = 0;
        while i < n { let b: u8 = any(); diff |= b != disk().data[at + i]; disk().data[at + i] = b; i += 1; }
        assume(diff);
        let a = Applied::new();
        unsafe { TRAP = Some(never); }
        let r = open_journal::<J>("j", &a);
        assert!(r.is_err(), "a corrupted journal must be refused");
        core::mem::forget(r);
    }
    fn wrong_len(l: u64) {
        fresh();
        unsafe { crate::vstd::crcmodel::BYTES = true; }
        let mut j = create_journal::<J>("j").unwrap();
        j.commit_event(Ev { k: 0, n: 1, b: [7, 0] }).unwrap();
        RawJournalWriter::close_driver(&mut j).unwrap();
        core::mem::forget(j);
        let b = l.to_le_bytes(); let mut i = 0; while i < 8 { disk().data[33 + i] = b[i]; i += 1; }
        let a = Applied::new();
        unsafe { TRAP = Some(never); }
        let r = open_journal::<J>("j", &a);
        assert!(r.is_err(), "a corrupted journal must be refused");
        core::mem::forget(r);
    }
    harness! { #[kani::stub(crate::util::os::SysIOError::into_inner, crate::engine::skyverif::trap_io)]
        #[kani::unwind(66)] fn c24_len_short() { wrong_len(0) } }
    harness! { #[kani::stub(crate::util::os::SysIOError::into_inner, crate::engine::skyverif::trap_io)]
        #[kani::unwind(66)] fn c24_len_long() { wrong_len(2) } }
    harness! { #[kani::stub(crate::util::os::SysIOError::into_inner, crate::engine::skyverif::trap_io)]
        #[kani::unwind(66)] fn c24_len_past() { wrong_len(66) } }
    harness! { #[kani::stub(crate::util::os::SysIOError::into_inner, crate::engine::skyverif::trap_io)]
        #[kani::unwind(66)] fn c24_len_huge() { wrong_len(1 << 63) } }
    macro_rules! corrupt { ($($n:ident $at:expr, $len:expr;)*) => { $(
        harness! { #[kani::stub(crate::util::os::SysIOError::into_inner, crate::engine::skyverif::trap_io)]
            #[kani::unwind(66)] fn $n() { corrupted($at, $len) } }
    )* } }
    corrupt! {
        c24_corrupt_txn 1, 16; c24_corrupt_meta 17, 8; c24_corrupt_ck 25, 8; c24_corrupt_data 41, 1;
        c24_corrupt_close_txn 42, 16; c24_corrupt_close_kind 58, 8; c24_corrupt_close_ck 66, 8; c24_corrupt_close_len 74, 8;
        c24_corrupt_close_prev 82, 1; c24_corrupt_close_off 90, 1; c24_corrupt_close_id 98, 1; c24_corrupt_magic 0, 1;
    }
    // a failed write: if the journal says it recovered, everything acknowledged is restored; if not, what reached the
    // disk is still only what was committed
    fn faulty(torn: usize, empty: bool) {
        fresh();
        let e = [ev(0, 1), if empty { Ev { k: 1, n: 0, b: [0; 2] } } else { ev(1, 2) }];
        let mut j = create_journal::<J>("j").unwrap();
        j.commit_event(e[0]).unwrap();
        if torn == 99 { disk().sync_fail = true; } else { disk().budget = 0; } disk().torn = torn; disk().short = torn != 0;
        let lost = ev(1, 1);
        disk().fail_after_short = true;
        let r = j.commit_event(lost);
        assert!(r.is_err(), "a failed write must be reported");
        core::mem::forget(r);
        disk().budget = usize::MAX;
        disk().sync_fail = false;
        let hb = j.__lwt_heartbeat();
        assert!(hb.is_ok() == (torn == 0), "recovery must succeed exactly if nothing reached the disk");
        core::mem::forget(hb);
        if torn == 0 {
            j.commit_event(e[1]).unwrap();
            RawJournalWriter::close_driver(&mut j).unwrap();
            let a = Applied::new();
            let r = open_journal::<J>("j", &a);
            assert!(r.is_ok(), "a recovered journal must stay readable");
            assert!(a.n.get() == 2, "acknowledged events must be restored");
            is_prefix(&a, &e);
            core::mem::forget(r);
        }
        witness!(true);
        core::mem::forget(j);
    }
    harness! { #[kani::unwind(66)] fn c24_fault_torn1() { faulty(1, false) } }
    harness! { #[kani::unwind(66)] fn c24_fault_torn40() { faulty(40, false) } }
    harness! { #[kani::unwind(66)] fn c24_fault_sync() { faulty(99, false) } }
    harness! { #[kani::unwind(66)] fn c24_fault_none() { faulty(0, false) } }
}
