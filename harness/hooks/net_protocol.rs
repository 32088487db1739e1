// hook: server/src/engine/net/protocol/mod.rs
use super::*;

/// reference decimal reader: `[0-9]* LF` with a 64-bit value (accumulated in 128 bits)
#[derive(Clone, Copy, PartialEq)]
enum Num {
    Done(u64, usize),
    Need,
    Bad,
}
fn ref_num(b: &[u8], n: usize, mut i: usize) -> Num {
    let mut v: u128 = 0;
    while i < n {
        if b[i] == b'\n' {
            return Num::Done(v as u64, i + 1);
        }
        if !(b[i] >= b'0' && b[i] <= b'9') {
            return Num::Bad;
        }
        v = v * 10 + (b[i] - b'0') as u128;
        if v > u64::MAX as u128 {
            return Num::Bad;
        }
        i += 1;
    }
    Num::Need
}

#[cfg(feature = "c01")]
mod c01 {
    use super::super::handshake::*;
    use super::super::*;
    use super::{ref_num, Num};
    use crate::{harness, vp, witness};

    #[derive(Clone, Copy, PartialEq)]
    enum Out {
        Wait,
        Err(ProtocolError),
        /// username at [a,b), password at [b,c)
        Done(usize, usize, usize),
    }
    /// what the Skyhash handshake grammar says about `b[..n]`
    fn reference(b: &[u8], n: usize) -> Out {
        if n < 6 {
            return Out::Wait;
        }
        if b[0] != b'H' {
            return Out::Err(ProtocolError::CorruptedHSPacket);
        }
        if b[1] != 0 {
            return Out::Err(ProtocolError::RejectHSVersion);
        }
        if b[2] != 0 {
            return Out::Err(ProtocolError::RejectProtocol);
        }
        if b[3] != 0 {
            return Out::Err(ProtocolError::RejectExchangeMode);
        }
        if b[4] != 0 {
            return Out::Err(ProtocolError::RejectQueryMode);
        }
        if b[5] != 0 {
            return Out::Err(ProtocolError::RejectAuth);
        }
        if n < 10 {
            return Out::Wait;
        }
        let (u, i) = match ref_num(b, n, 6) {
            Num::Done(v, i) => (v, i),
            Num::Need => return Out::Wait,
            Num::Bad => return Out::Err(ProtocolError::CorruptedHSPacket),
        };
        let (p, i) = match ref_num(b, n, i) {
            Num::Done(v, i) => (v, i),
            Num::Need => return Out::Wait,
            Num::Bad => return Out::Err(ProtocolError::CorruptedHSPacket),
        };
        let need = u as u128 + p as u128;
        if need > u64::MAX as u128 {
            return Out::Err(ProtocolError::CorruptedHSPacket);
        }
        if (n - i) as u128 >= need {
            Out::Done(i, i + u as usize, i + u as usize + p as usize)
        } else {
            Out::Wait
        }
    }
    /// one step of the connection loop: resume on what is buffered so far
    fn step(b: &[u8], n: usize, cur: &mut usize, st: &mut HandshakeState, expected: &mut usize) -> Out {
        if n < *expected {
            return Out::Wait;
        }
        let mut s = unsafe { BufferedScanner::new_with_cursor(&b[..n], *cur) };
        let prev = core::mem::replace(st, HandshakeState::Initial);
        let r = match CHandshake::resume_with(&mut s, prev) {
            HandshakeResult::Completed(hs) => {
                let c = s.cursor();
                assert!(c <= n);
                let (u, p) = (hs.hs_auth().username(), hs.hs_auth().password());
                let b0 = b.as_ptr() as usize;
                let (u0, p0) = (u.as_ptr() as usize - b0, p.as_ptr() as usize - b0);
                assert!(u0 + u.len() == p0 && p0 + p.len() == c);
                Out::Done(u0, p0, c)
            }
            HandshakeResult::ChangeState { new_state, expect } => {
                *st = new_state;
                *expected = expect;
                Out::Wait
            }
            HandshakeResult::Error(e) => Out::Err(e),
        };
        *cur = s.cursor();
        assert!(*cur <= n);
        r
    }

    const N: usize = if cfg!(feature = "thorough") { 17 } else { 14 };
    const NS: usize = if cfg!(feature = "thorough") { 15 } else { 12 };
    harness! {
        #[kani::unwind(19)]
        fn c01_hs_whole() {
            let b: [u8; N] = vp::any();
            let n = vp::upto(6, N);
            let (mut cur, mut st, mut exp) = (0, HandshakeState::default(), CHandshake::INITIAL_READ);
            let got = step(&b, n, &mut cur, &mut st, &mut exp);
            let want = reference(&b, n);
            witness!(matches!(want, Out::Done(..)));
            witness!(want == Out::Wait);
            assert!(got == want, "handshake outcome differs from the grammar");
        }
    }
    harness! {
        #[kani::unwind(19)]
        fn c01_hs_split() {
            // arbitrary split points: every delivery schedule of up to three reads
            let b: [u8; NS] = vp::any();
            let n = vp::upto(6, NS);
            let n1 = vp::upto(6, n);
            vp::assume(b[0] == b'H');
            let (mut cur, mut st, mut exp) = (0, HandshakeState::default(), CHandshake::INITIAL_READ);
            let mut got = step(&b, n1, &mut cur, &mut st, &mut exp);
            let first = got;
            assert!(got == reference(&b, n1), "prefix outcome differs from the grammar");
            if got == Out::Wait {
                got = step(&b, n, &mut cur, &mut st, &mut exp);
                witness!(matches!(got, Out::Done(..)));
                let want = reference(&b, n);
                // (an error may still be pending while the server waits for the announced bytes)
                let deferred = got == Out::Wait && matches!(want, Out::Err(_)) && n < exp;
                assert!(got == want || deferred, "outcome depends on how the bytes were split");
            }
        }
    }
    harness! {
        #[kani::unwind(24)]
        fn c01_hs_resume_sizes() {
            // resuming with *any* announced sizes (1..20 digit numbers): no overflow, no out-of-bounds
            let b: [u8; 8] = vp::any();
            let n = vp::upto(1, 8);
            let uname_l: usize = vp::any();
            let pwd_l: usize = vp::any();
            let static_hs = CHandshakeStatic::new(
                HandshakeVersion::Original, ProtocolVersion::Original, DataExchangeMode::QueryTime, QueryMode::Bql1, AuthMode::Password);
            let which: bool = vp::any();
            if which {
                // the state a client reaches by announcing uname_l, then pwd_l = 2^64-1 or any short number
                let mut d = *b"18446744073709551615\n123";
                let m = if vp::any() { 21 } else { 1 };
                if m == 1 { d[0] = b'\n'; }
                let mut s = BufferedScanner::new(&d);
                match CHandshake::resume_with(&mut s, HandshakeState::ExpectingMetaForVariableBlock { static_hs, uname_l }) {
                    HandshakeResult::Completed(hs) => {
                        witness!(true);
                        assert!(m == 1 && uname_l <= 23 && hs.hs_auth().username().len() == uname_l);
                    }
                    HandshakeResult::ChangeState { .. } => assert!(m == 1 || uname_l == 0),
                    HandshakeResult::Error(e) => assert!(m == 21 && uname_l > 0 && e == ProtocolError::CorruptedHSPacket),
                }
            } else {
                let mut s = BufferedScanner::new(&b[..n]);
                match CHandshake::resume_with(&mut s, HandshakeState::ExpectingMetaForVariableBlock { static_hs, uname_l }) {
                    HandshakeResult::Completed(hs) => assert!(s.cursor() <= n),
                    _ => {}
                }
            }
        }
    }
}

#[cfg(feature = "c02")]
mod c02 {
    use super::super::exchange::{self, *};
    use super::super::*;
    use super::{ref_num, Num};
    use crate::{harness, vp, witness};

    #[derive(Clone, Copy, PartialEq)]
    enum Out {
        Wait,
        Err,
        /// query at [a,b), params at [b,c)
        Done(usize, usize, usize),
    }
    /// `S <packet size> LF <query window> LF <query><params>`; the packet size counts everything after its LF
    fn reference(b: &[u8], n: usize) -> Out {
        if n < 5 {
            return Out::Wait;
        }
        if b[0] != b'S' {
            return Out::Err;
        }
        let (pkt, i0) = match ref_num(b, n, 1) {
            Num::Done(v, i) => (v, i),
            Num::Need => return Out::Wait,
            Num::Bad => return Out::Err,
        };
        let end = i0 as u128 + pkt as u128;
        if end > u64::MAX as u128 {
            return Out::Err;
        }
        let (win, i1) = match ref_num(b, n, i0) {
            Num::Done(v, i) => (v, i),
            Num::Need => return Out::Wait,
            Num::Bad => return Out::Err,
        };
        if (i1 as u128) > end {
            return Out::Err;
        }
        let data = end as u64 - i1 as u64;
        if win > data {
            return Out::Err;
        }
        if end as usize <= n {
            Out::Done(i1, i1 + win as usize, end as usize)
        } else {
            Out::Wait
        }
    }
    struct Conn {
        cur: Resume,
        st: QExchangeState,
    }
    /// one read of the connection loop
    fn step(b: &[u8], n: usize, c: &mut Conn) -> Out {
        if !c.st.has_reached_target(&b[..n]) {
            return Out::Wait;
        }
        let st = core::mem::take(&mut c.st);
        let cur = core::mem::take(&mut c.cur);
        let (ncur, r) = unsafe { exchange::resume(&b[..n], cur, st) };
        match r {
            QExchangeResult::SQCompleted(sq) => {
                let b0 = b.as_ptr() as usize;
                let (q, p) = (sq.query(), sq.params());
                let (q0, p0) = (q.as_ptr() as usize - b0, p.as_ptr() as usize - b0);
                assert!(q0 + q.len() == p0);
                Out::Done(q0, p0, p0 + p.len())
            }
            QExchangeResult::ChangeState(s) => {
                c.cur = ncur;
                c.st = s;
                Out::Wait
            }
            QExchangeResult::Error => Out::Err,
        }
    }
    const N: usize = if cfg!(feature = "thorough") { 14 } else { 11 };
    harness! {
        #[kani::unwind(12)]
        fn c02_sq_whole() {
            let b: [u8; N] = vp::any();
            let n = vp::upto(5, N);
            let mut c = Conn { cur: Default::default(), st: Default::default() };
            let got = step(&b, n, &mut c);
            let want = reference(&b, n);
            witness!(matches!(got, Out::Done(..)));
            witness!(want == Out::Wait);
            let pipelined = matches!(want, Out::Done(_, _, end) if end < n);
            if pipelined {
                assert!(!matches!(got, Out::Done(..)));
            } else {
                assert!(got == want, "exchange outcome differs from the grammar");
            }
        }
    }
    harness! {
        #[kani::unwind(12)]
        fn c02_sq_split2() {
            split::<N2>(false)
        }
    }
    harness! {
        #[kani::unwind(12)]
        fn c02_sq_split3() {
            split::<7>(true)
        }
    }
    const N2: usize = if cfg!(feature = "thorough") { 12 } else { 9 };
    fn split<const N: usize>(three: bool) {
        let mut b: [u8; N] = vp::any();
        b[0] = b'S';
        let n = vp::upto(5, N);
        let n1 = vp::upto(5, n);
        let want = reference(&b, n);
        vp::assume(!matches!(want, Out::Done(_, _, end) if end < n));
        let mut c = Conn { cur: Default::default(), st: Default::default() };
        let mut got = step(&b, n1, &mut c);
        if three && got == Out::Wait {
            let n2 = vp::upto(n1, n);
            got = step(&b, n2, &mut c);
        }
        if got == Out::Wait {
            got = step(&b, n, &mut c);
            witness!(matches!(got, Out::Done(..)));
        }
        // an invalid packet may be rejected late (once the announced bytes are there), never accepted
        let deferred = got == Out::Wait && want == Out::Err && !c.st.has_reached_target(&b[..n]);
        assert!(got == want || deferred, "outcome depends on how the bytes were split");
    }
    harness! {
        #[kani::unwind(24)]
        fn c02_scan_int() {
            // one (resumed) length field: any accumulator, up to 4 more bytes
            let b: [u8; 5] = vp::any();
            let n = vp::upto(1, 5);
            let c0 = vp::upto(0, n);
            let acc: u64 = vp::any();
            let mut s = unsafe { BufferedScanner::new_with_cursor(&b[..n], c0) };
            let r = scan_int(&mut s, acc);
            assert!(s.cursor() <= n);
            // reference
            let mut v = acc as u128;
            let mut i = c0;
            let mut want = Ok(None);
            while i < n {
                if b[i] == b'\n' { want = Ok(Some(i + 1)); break; }
                if !b[i].is_ascii_digit() { want = Err(()); break; }
                v = v * 10 + (b[i] - b'0') as u128;
                if v > u64::MAX as u128 { want = Err(()); break; }
                i += 1;
            }
            match want {
                Err(()) => assert!(r == Err(())),
                Ok(Some(j)) => { witness!(j > c0 + 2); assert!(r == Ok(AccumlatorStatus::Completed(v as u64)) && s.cursor() == j) }
                Ok(None) => assert!(r == Ok(AccumlatorStatus::Pending(v as u64)) && s.cursor() == n),
            }
        }
    }
}
