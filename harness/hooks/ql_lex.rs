// hook: server/src/engine/ql/lex/mod.rs
use super::*;

/// reference keyword table (BlueQL reserved words), independent of the perfect-hash tables
pub const REF_KW: [&str; 60] = [
    "sysctl", "create", "alter", "drop", "use", "inspect", "describe", "insert", "select", "update", "delete", "exists",
    "table", "model", "space", "index", "type", "function", "rename", "add", "remove", "transform", "set", "return",
    "order", "sort", "group", "limit", "asc", "desc", "all", "by", "with", "on", "from", "into", "as", "to", "in", "of",
    "and", "or", "not", "if", "else", "where", "when", "allow", "auto", "default", "null", "transaction", "batch",
    "lock", "read", "write", "begin", "end", "key", "value",
];
pub const REF_KW2: [&str; 2] = ["primary", "truncate"];

fn ieq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        let c = if a[i] >= b'A' && a[i] <= b'Z' { a[i] + 32 } else { a[i] };
        if c != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

#[cfg(feature = "c03")]
mod c03 {
    use super::super::*;
    use super::*;
    use crate::{harness, vp, witness};

    const REF_SYM: &[u8] = b"+-*/!&^|=()[]{}<>'\"@#$%_\\:;,.?~`";

    fn sym_byte(s: Symbol) -> u8 {
        match s {
            Symbol::OpArithmeticAdd => b'+',
            Symbol::OpArithmeticSub => b'-',
            Symbol::OpArithmeticMul => b'*',
            Symbol::OpArithmeticDiv => b'/',
            Symbol::OpLogicalNot => b'!',
            Symbol::OpLogicalAnd => b'&',
            Symbol::OpLogicalXor => b'^',
            Symbol::OpLogicalOr => b'|',
            Symbol::OpAssign => b'=',
            Symbol::TtOpenParen => b'(',
            Symbol::TtCloseParen => b')',
            Symbol::TtOpenSqBracket => b'[',
            Symbol::TtCloseSqBracket => b']',
            Symbol::TtOpenBrace => b'{',
            Symbol::TtCloseBrace => b'}',
            Symbol::OpComparatorLt => b'<',
            Symbol::OpComparatorGt => b'>',
            Symbol::QuoteS => b'\'',
            Symbol::QuoteD => b'"',
            Symbol::SymAt => b'@',
            Symbol::SymHash => b'#',
            Symbol::SymDollar => b'$',
            Symbol::SymPercent => b'%',
            Symbol::SymUnderscore => b'_',
            Symbol::SymBackslash => b'\\',
            Symbol::SymColon => b':',
            Symbol::SymSemicolon => b';',
            Symbol::SymComma => b',',
            Symbol::SymPeriod => b'.',
            Symbol::SymQuestion => b'?',
            Symbol::SymTilde => b'~',
            Symbol::SymAccent => b'`',
            #[allow(unreachable_patterns)]
            _ => 0,
        }
    }
    harness! {
        #[kani::unwind(36)]
        fn c03_symbols() {
            // every byte: exactly the punctuation of the language is a symbol, and it denotes itself
            let b: u8 = vp::any();
            let got = Symbol::get(b);
            let mut is = false;
            let mut i = 0;
            while i < REF_SYM.len() { is |= REF_SYM[i] == b; i += 1; }
            witness!(is);
            assert!(got.is_some() == is);
            if let Some(s) = got { assert!(sym_byte(s) == b, "byte lexed as a different symbol"); }
        }
    }
    fn kw_at(i: usize) -> &'static [u8] {
        if i < 60 { REF_KW[i].as_bytes() } else { REF_KW2[i - 60].as_bytes() }
    }
    harness! {
        #[kani::unwind(13)]
        fn c03_keywords_recognized() {
            // every reserved word, in every mixture of cases
            let i = vp::below(62);
            let w = kw_at(i);
            let mask: u16 = vp::any();
            let mut buf = [0u8; 11];
            let mut j = 0;
            while j < w.len() {
                buf[j] = if (mask >> j) & 1 == 1 { w[j] - 32 } else { w[j] };
                j += 1;
            }
            let got = Keyword::get(&buf[..w.len()]);
            witness!(got.is_some());
            match got {
                Some(k) => assert!(k.as_str().as_bytes() == w, "keyword resolves to a different keyword"),
                None => panic!("reserved word not recognized"),
            }
        }
    }
    harness! {
        #[kani::unwind(13)]
        fn c03_keywords_only() {
            // any identifier of up to 12 bytes: resolves to a keyword only if it spells that keyword
            let buf: [u8; 12] = vp::any();
            let n = vp::upto(0, 12);
            let mut j = 0;
            while j < 12 { vp::assume(buf[j].is_ascii_alphanumeric() || buf[j] == b'_'); j += 1; }
            if let Some(k) = Keyword::get(&buf[..n]) {
                witness!(n == 6);
                assert!(ieq(&buf[..n], k.as_str().as_bytes()), "identifier mistaken for a keyword");
            }
        }
    }
    fn is_id(b: u8) -> bool { b.is_ascii_alphanumeric() || b == b'_' }
    #[cfg(kani)]
    fn kw_stub(w: &[u8]) -> Option<Keyword> {
        if ieq(w, b"by") { Some(Keyword::Misc(KeywordMisc::By)) } else { None }
    }
    #[cfg(not(kani))]
    fn kw_stub(w: &[u8]) -> Option<Keyword> { Keyword::get(w) }
    /// one identifier/keyword/boolean token at the start of any text of N bytes
    fn ident<const N: usize>() {
        let q: [u8; N] = vp::any();
        vp::assume(q[0].is_ascii_alphabetic() || q[0] == b'_');
        let mut l = Lexer::new(&q);
        l.scan_ident_or_keyword();
        let mut e = 0;
        while e < N && is_id(q[e]) { e += 1; }
        witness!(e == N);
        witness!(e == N - 1);
        assert!(l.token_buffer.cursor() == e, "identifier ends at the wrong byte");
        assert!(l.last_error.is_none() && l.tokens.len() == 1);
        match &l.tokens[0] {
            Token::Ident(id) => {
                assert!(!(e == 2 && ieq(&q[..2], b"by")) && !(e == 4 && ieq(&q[..4], b"true")));
                assert!(id.as_slice().as_ptr() == q.as_ptr() && id.as_slice().len() == e)
            }
            Token::Keyword(_) => { witness!(true); assert!(e == 2 && ieq(&q[..2], b"by")) }
            Token::Lit(x) => { witness!(N < 4 || e == 4); assert!(e == 4 && ieq(&q[..4], b"true") && x.try_bool() == Some(true)) }
            _ => panic!("not an identifier, keyword or boolean"),
        }
        core::mem::forget(l);
    }
    harness! { #[kani::unwind(6)] #[kani::stub(Keyword::get, kw_stub)] fn c03_ident() { ident::<4>() } }
    harness! {
        #[kani::unwind(6)]
        fn c03_ident_false() {
            let mut q = *b"false)";
            let m: u8 = vp::any();
            let mut i = 0;
            while i < 5 { if (m >> i) & 1 == 1 { q[i] -= 32; } i += 1; }
            let mut l = Lexer::new(&q);
            l.scan_ident_or_keyword();
            witness!(m & 31 == 31);
            assert!(matches!(&l.tokens[0], Token::Lit(x) if x.try_bool() == Some(false)));
            core::mem::forget(l);
        }
    }
    harness! {
        #[kani::unwind(4)]
        fn c03_other_byte() {
            let q: [u8; 2] = vp::any();
            let mut l = Lexer::new(&q);
            l.scan_byte(q[0]);
            match Symbol::get(q[0]) {
                Some(_) => {
                    witness!(true);
                    assert!(l.token_buffer.cursor() == 1 && l.last_error.is_none());
                    assert!(matches!(&l.tokens[0], Token::Symbol(s) if sym_byte(*s) == q[0]));
                }
                None => { witness!(true); assert!(l.last_error.is_some() && l.tokens.len() == 0) }
            }
            core::mem::forget(l);
        }
    }
    harness! {
        #[kani::unwind(6)]
        fn c03_blank() {
            // blanks are skipped, nothing else is, and no token comes out
            let q: [u8; 3] = vp::any();
            let mut l = Lexer::new(&q);
            l.trim_ahead();
            let mut e = 0;
            while e < 3 && (q[e] == b' ' || q[e] == b'\t' || q[e] == b'\n') { e += 1; }
            witness!(e == 3);
            assert!(l.token_buffer.cursor() == e && l.tokens.is_empty() && l.last_error.is_none());
            core::mem::forget(l);
        }
    }
}

#[cfg(feature = "c04")]
mod c04 {
    use super::super::*;
    use super::*;
    use crate::{harness, vp, witness};

    const P: usize = if cfg!(feature = "thorough") { 8 } else { 6 };
    const PS: usize = if cfg!(feature = "thorough") { 5 } else { 4 };
    /// `< u64 in decimal > LF`, or None
    fn num(p: &[u8], n: usize, mut i: usize) -> Option<(u64, usize)> {
        let mut v: u128 = 0;
        while i < n {
            if p[i] == b'\n' { return Some((v as u64, i + 1)); }
            if p[i] < b'0' || p[i] > b'9' { return None; }
            v = v * 10 + (p[i] - b'0') as u128;
            if v > u64::MAX as u128 { return None; }
            i += 1;
        }
        None
    }
    #[cfg(kani)]
    fn f64_stub(s: &str) -> Result<f64, core::num::ParseFloatError> { Ok(s.len() as f64 + 0.5) }

    /// lex `?` against the parameter bytes; the one literal that comes out, if any
    fn one(code: u8) {
        // every parameter segment length up to P (lengths are unrolled, contents symbolic)
        let mut ok = false;
        let mut n = 1;
        let mx = if code == 4 || code == 6 { PS } else { P };
        while n <= mx { ok |= one_n(code, n); n += 1; }
        witness!(ok || code > 6);
    }
    fn one_n(code: u8, n: usize) -> bool {
        let mut p: [u8; P] = vp::any();
        p[0] = code;
        let mut w_ok = code == 0;
        let r = SecureLexer::new_with_segments(b"?", &p[..n]).lex();
        if let Ok(t) = &r { assert!(t.len() == 1); }
        let lit = match &r { Ok(t) => match &t[0] { Token::Lit(l) => Some(l), Token::Keyword(k) => { assert!(code == 0 && *k == Keyword::Misc(KeywordMisc::Null)); None } _ => panic!("a parameter must become a literal") }, Err(_) => None };
        match code {
            0 => assert!(r.is_ok()),
            1 => match lit {
                Some(l) => { w_ok = true; assert!(n >= 2 && p[1] < 2 && l.try_bool() == Some(p[1] == 1)) }
                None => assert!(n < 2 || p[1] > 1),
            },
            2 => match (lit, num(&p, n, 1)) {
                (Some(l), Some((v, _))) => { w_ok = v > 10; assert!(l.try_uint() == Some(v)) }
                (None, None) => {}
                // (a lone LF may be read as zero or rejected)
                (None, Some((_, e))) => assert!(e == 2),
                _ => panic!("unsigned parameter"),
            },
            3 => {
                let neg = n > 1 && p[1] == b'-';
                let st = if neg { 2 } else { 1 };
                let want = match num(&p, n, st) {
                    Some((v, e)) if e > st + 1 => Some(if neg { -(v as i64) } else { v as i64 }),
                    Some(_) => { core::mem::forget(r); return false; } // no digits: not a number, accepted or not is unspecified
                    None => None,
                };
                match lit { Some(l) => { w_ok = neg; assert!(l.try_sint() == want) } None => assert!(want.is_none()) }
            }
            4 => {
                let mut e = 1;
                while e < n && p[e] != b'\n' { e += 1; }
                if let Some(l) = lit { w_ok = e == 2; assert!(e < n); let f = l.try_float().unwrap(); if cfg!(kani) { assert!(f == (e - 1) as f64 + 0.5); } }
                if e >= n { assert!(lit.is_none()); }
            }
            5 | 6 => {
                let want = match num(&p, n, 1) {
                    Some((v, e)) if v <= (n - e) as u64 => { let b = &p[e..e + v as usize]; if code == 6 && core::str::from_utf8(b).is_err() { None } else { Some(b) } }
                    _ => None,
                };
                match (lit, want) {
                    (Some(l), Some(w)) => {
                        w_ok = w.len() == 1;
                        let got = if code == 5 { l.try_bin().unwrap() } else { l.try_str().unwrap().as_bytes() };
                        assert!(got == w, "parameter bytes changed");
                    }
                    (None, None) => {}
                    (None, Some(w)) => assert!(w.len() == 0 && n < 3),
                    _ => panic!("string/binary parameter"),
                }
            }
            _ => assert!(r.is_err(), "unknown parameter type accepted"),
        }
        core::mem::forget(r);
        w_ok
    }
    harness! { #[kani::unwind(12)] fn c04_param_null() { one(0) } }
    harness! { #[kani::unwind(12)] fn c04_param_bool() { one(1) } }
    harness! { #[kani::unwind(12)] fn c04_param_uint() { one(2) } }
    harness! { #[kani::unwind(12)] fn c04_param_sint() { one(3) } }
    harness! { #[kani::unwind(12)] #[kani::stub(<f64 as core::str::FromStr>::from_str, f64_stub)] fn c04_param_float() { one(4) } }
    harness! { #[kani::unwind(12)] fn c04_param_bin() { one(5) } }
    harness! { #[kani::unwind(12)] #[kani::stub(core::str::from_utf8, crate::vp::utf8_stub)] fn c04_param_str() { one(6) } }
    harness! { #[kani::unwind(12)] fn c04_param_unknown() { one(7); one(8); one(255) } }
    /// code, concrete leading digits, two symbolic digits, LF, a two-byte payload for blocks
    fn edge<const N: usize>(code: u8, pre: &[u8; N], base: u128, neg: bool) -> (u128, bool) {
        let mut p = [0u8; 28];
        p[0] = code;
        let mut i = 0;
        while i < N { p[1 + i] = pre[i]; i += 1; }
        let d: u8 = vp::any();
        let f: u8 = vp::any();
        vp::assume(d < 10 && f < 10);
        p[1 + N] = b'0' + d;
        p[2 + N] = b'0' + f;
        p[3 + N] = b'\n';
        let mut e = 4 + N;
        if code >= 5 { p[e] = b'a'; p[e + 1] = b'b'; e += 2; }
        let v = base * 100 + (d * 10 + f) as u128;
        let r = SecureLexer::new_with_segments(b"?", &p[..e]).lex();
        if let Ok(t) = &r { assert!(t.len() == 1); }
        let lit = match &r { Ok(t) => match &t[0] { Token::Lit(l) => Some(l), _ => panic!("a parameter must become a literal") }, Err(_) => None };
        let ok = lit.is_some();
        match code {
            2 => assert!(lit.and_then(|l| l.try_uint()) == if v <= u64::MAX as u128 { Some(v as u64) } else { None }, "unsigned boundary"),
            3 => {
                let fits = v <= i64::MAX as u128 + neg as u128;
                let w = if neg { (v as u64).wrapping_neg() as i64 } else { v as i64 };
                assert!(lit.and_then(|l| l.try_sint()) == if fits { Some(w) } else { None }, "signed boundary");
            }
            _ => assert!(ok == (v <= 2), "block length"),
        }
        core::mem::forget(r);
        (v, ok)
    }
    harness! {
        #[kani::unwind(28)]
        fn c04_edge_uint() {
            let a = edge(2, b"184467440737095516", 184467440737095516, false); // 2^64 - 1 = 18446744073709551615
            edge(2, b"1844674407370955161", 1844674407370955161, false);
            edge(2, b"42949672", 42949672, false);
            witness!(a.0 == u64::MAX as u128 && a.1);
        }
    }
    harness! {
        #[kani::unwind(28)]
        fn c04_edge_sint() {
            let a = edge(3, b"92233720368547758", 92233720368547758, false); // 2^63 = 9223372036854775808
            edge(3, b"-92233720368547758", 92233720368547758, true);
            witness!(a.0 == i64::MAX as u128 && a.1);
        }
    }
    harness! {
        #[kani::unwind(28)]
        fn c04_edge_bin() {
            // lengths around 2^8, 2^32, 2^64 announced for a two-byte block
            let k = edge(5, b"", 0, false);
            edge(5, b"42949672", 42949672, false); edge(5, b"184467440737095516", 184467440737095516, false);
            witness!(k.1 && k.0 == 2);
        }
    }
    harness! {
        #[kani::unwind(28)]
        #[kani::stub(core::str::from_utf8, crate::vp::utf8_stub)]
        fn c04_edge_str() {
            let k = edge(6, b"", 0, false);
            edge(6, b"42949672", 42949672, false); edge(6, b"184467440737095516", 184467440737095516, false);
            witness!(k.1 && k.0 == 2);
        }
    }
    harness! {
        #[kani::unwind(12)]
        fn c04_params_in_order() {
            // two placeholders: the parameters are consumed in order, each by exactly its own bytes
            let b: u8 = vp::any();
            vp::assume(b < 2);
            let p = [0, 1, b];
            let r = SecureLexer::new_with_segments(b"? ,?", &p).lex();
            match &r {
                Ok(t) => {
                    witness!(t.len() == 3);
                    assert!(t.len() == 3);
                    assert!(matches!(&t[0], Token::Keyword(k) if *k == Keyword::Misc(KeywordMisc::Null)));
                    assert!(matches!(&t[1], Token::Symbol(Symbol::SymComma)));
                    assert!(matches!(&t[2], Token::Lit(l) if l.try_bool() == Some(b == 1)));
                }
                Err(_) => panic!("well-formed parameters rejected"),
            }
            core::mem::forget(r);
        }
    }
}
