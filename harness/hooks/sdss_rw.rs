// hook: server/src/engine/storage/common/sdss/impls/sdss_r1/rw.rs
use super::*;
use crate::vp::*;
use crate::engine::storage::v2::raw::journal::skyverif::TinySpec;
use crate::vstd::fsmodel::disk;

#[cfg(any(feature = "c25", not(kani)))]
mod c25 {
    use super::*;
    type W = TrackedWriter<TinySpec, 8>;
    fn fresh() -> W {
        let d = disk(); d.exists = false; d.len = 0; d.budget = usize::MAX; d.torn = 0; d.short = false; d.sync_fail = false; d.fail_after_short = false;
        let f = SdssFile::<TinySpec>::create("f").unwrap();
        W::new(f).unwrap()
    }
    fn on_disk(data: &[u8], n: usize) {
        assert!(disk().len == 1 + n, "file length differs from what was written");
        let mut i = 0;
        while i < n { assert!(disk().data[1 + i] == data[i], "file content differs from what was written"); i += 1; }
    }
    fn ck(data: &[u8]) -> u64 { let mut c = SCrc64::new(); c.update(data); c.finish() }
    // all bytes reach the file once and in order, whatever the (possibly short) writes of the file
    fn written(lens: &[usize], through: usize, short_at: usize, torn: usize) {
        let mut w = fresh();
        let data: [u8; 32] = any();
        disk().budget = short_at; disk().torn = torn; disk().short = true;
        let (mut i, mut at) = (0, 0);
        while i < lens.len() {
            let r = if i == through { w.flush_buf().unwrap(); w.tracked_write_through_buffer(&data[at..at + lens[i]]) } else { w.tracked_write(&data[at..at + lens[i]]) };
            assert!(r.is_ok(), "a short write is not an error");
            at += lens[i];
            i += 1;
        }
        assert!(w.flush_sync().is_ok());
        assert!(!w.is_dirty());
        on_disk(&data, at);
        assert!(w.cursor() == 1 + at as u64 && w.verify_cursor().is_ok());
        assert!(w.current_checksum() == ck(&data[..at]), "checksum differs from that of the bytes written");
        core::mem::forget(w);
    }
    fn shorts(lens: &[usize], through: usize) {
        let mut at = 0;
        while at < 3 { let mut t = 1; while t < 3 { written(lens, through, at, t); t += 1; } at += 1; }
    }
    harness! { #[kani::unwind(34)] fn c25_short_buffered() { shorts(&[3, 4, 9], 9); witness!(true); } }
    harness! { #[kani::unwind(34)] fn c25_short_large() { shorts(&[5, 20, 2], 9); witness!(true); } }
    harness! { #[kani::unwind(34)] fn c25_short_through() { shorts(&[5, 12, 8], 1); witness!(true); } }
    harness! { #[kani::unwind(34)] fn c25_exact() { written(&[8, 1, 7, 8, 8], 9, usize::MAX, 0); written(&[8, 0, 16, 8], 9, usize::MAX, 0); witness!(true); } }
    // a failing write: cursor and checksum agree with the disk, and the rest can be flushed later
    fn failing(torn: usize) {
        let mut w = fresh();
        let data: [u8; 32] = any();
        w.tracked_write(&data[..6]).unwrap();
        disk().budget = 0; disk().torn = torn; disk().short = torn != 0; disk().fail_after_short = true;
        let r = w.flush_buf(); assert!(r.is_err()); core::mem::forget(r);
        on_disk(&data, torn);
        assert!(w.cursor() == 1 + torn as u64 && w.is_dirty());
        disk().budget = usize::MAX;
        w.tracked_write(&data[6..8]).unwrap();
        assert!(w.flush_buf().is_ok());
        on_disk(&data, 8);
        assert!(w.cursor() == 9 && !w.is_dirty() && w.current_checksum() == ck(&data[..8]));
        // write-through failure: what was written is still tracked
        disk().budget = 0; disk().torn = torn; disk().short = torn != 0; disk().fail_after_short = true;
        let r = w.tracked_write_through_buffer(&data[8..16]); assert!(r.is_err()); core::mem::forget(r);
        on_disk(&data, 8 + torn);
        assert!(w.cursor() == 9 + torn as u64 && w.current_checksum() == ck(&data[..8 + torn]));
        core::mem::forget(w);
    }
    harness! { #[kani::unwind(34)] fn c25_fail0() { failing(0); witness!(true); } }
    harness! { #[kani::unwind(34)] fn c25_fail1() { failing(1); witness!(true); } }
    harness! { #[kani::unwind(34)] fn c25_fail5() { failing(5); witness!(true); } }
    // the tracked reader returns exactly the file, counts exactly, and refuses to go past the end
    harness! { #[kani::unwind(34)] fn c25_reader() {
        core::mem::forget(fresh());
        let data: [u8; 12] = any();
        disk().len = 13;
        let mut i = 0; while i < 12 { disk().data[1 + i] = data[i]; i += 1; }
        let mut r = TrackedReader::<TinySpec>::new(SdssFile::open("f").unwrap()).unwrap();
        assert!(r.cursor() == 1 && r.remaining() == 12 && r.has_left(12) && !r.has_left(13) && !r.is_eof());
        let b: [u8; 2] = r.read_block().unwrap();
        assert!(b == [data[0], data[1]]);
        assert!(r.read_byte().unwrap() == data[2]);
        let mut u = [0u8; 2];
        r.untracked_read(&mut u).unwrap();
        assert!(u == [data[3], data[4]]);
        let mut cx = r.context();
        let x: [u8; 3] = cx.read_block().unwrap();
        assert!(cx.remaining() == 4);
        let mut y = [0u8; 1];
        cx.read(&mut y).unwrap();
        let (c, r) = cx.finish();
        assert!(x == [data[5], data[6], data[7]] && y[0] == data[8]);
        assert!(c == ck(&[data[5], data[6], data[7], data[8]]));
        assert!(r.cursor() == 10 && r.remaining() == 3);
        assert!(r.current_checksum() == ck(&[data[0], data[1], data[2], data[5], data[6], data[7], data[8]]));
        let mut z = [0u8; 4];
        let e = r.tracked_read(&mut z); assert!(e.is_err()); core::mem::forget(e);
        assert!(r.cursor() == 10);
        let mut z = [0u8; 3];
        assert!(r.tracked_read(&mut z).is_ok());
        assert!(z == [data[9], data[10], data[11]] && r.is_eof() && r.remaining() == 0);
        let e = r.read_byte(); assert!(e.is_err()); core::mem::forget(e);
        assert!(r.cursor() == 13);
        witness!(true);
    } }
}
