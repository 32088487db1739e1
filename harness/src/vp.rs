//! Nondeterminism shim. Under Kani every `any()` is a symbolic value; natively (replay) the
//! values come, in order, from the solver's counterexample.

#[cfg(not(kani))]
pub mod rt {
    use std::{cell::RefCell, collections::VecDeque, sync::Mutex};
    thread_local! { static VALS: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new()); }
    pub static REG: Mutex<Vec<(&'static str, fn())>> = Mutex::new(Vec::new());
    pub fn load(v: Vec<Vec<u8>>) {
        VALS.with(|x| *x.borrow_mut() = v.into());
    }
    pub fn next(n: usize) -> Vec<u8> {
        VALS.with(|x| match x.borrow_mut().pop_front() {
            Some(v) if v.len() == n => v,
            // value not constrained by the solver, or stream misaligned
            Some(v) => {
                eprintln!("REPLAY-MISALIGNED want={n} have={}", v.len());
                std::process::exit(78)
            }
            None => vec![0; n],
        })
    }
    pub fn register(n: &'static str, f: fn()) {
        REG.lock().unwrap().push((n, f));
    }
}

pub trait Nd: Sized {
    fn nd() -> Self;
}
macro_rules! nd_int { ($($t:ty),*) => {$(
    impl Nd for $t {
        #[cfg(kani)]
        fn nd() -> Self { kani::any() }
        #[cfg(not(kani))]
        fn nd() -> Self {
            const N: usize = core::mem::size_of::<$t>();
            let v = rt::next(N);
            let mut a = [0u8; N];
            a.copy_from_slice(&v);
            <$t>::from_le_bytes(a)
        }
    }
)*}}
nd_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64);
impl Nd for bool {
    fn nd() -> Self {
        let b: u8 = any();
        assume(b < 2);
        b == 1
    }
}
impl<T: Nd, const N: usize> Nd for [T; N]
where
    T: NdArr,
{
    #[cfg(kani)]
    fn nd() -> Self {
        T::arr()
    }
    #[cfg(not(kani))]
    fn nd() -> Self {
        core::array::from_fn(|_| T::nd())
    }
}
pub trait NdArr: Sized {
    fn arr<const N: usize>() -> [Self; N];
}
macro_rules! nd_arr { ($($t:ty),*) => {$(
    impl NdArr for $t {
        #[cfg(kani)]
        fn arr<const N: usize>() -> [Self; N] { kani::any() }
        #[cfg(not(kani))]
        fn arr<const N: usize>() -> [Self; N] { core::array::from_fn(|_| <$t>::nd()) }
    }
)*}}
nd_arr!(u8, u16, u32, u64, usize, i64);

pub fn any<T: Nd>() -> T {
    T::nd()
}
/// a symbolic value below `n`
pub fn below(n: usize) -> usize {
    let x: usize = any();
    assume(x < n);
    x
}
/// a symbolic value in `lo..=hi`
pub fn upto(lo: usize, hi: usize) -> usize {
    let x: usize = any();
    assume(lo <= x && x <= hi);
    x
}
#[cfg(kani)]
pub fn assume(b: bool) {
    kani::assume(b)
}
#[cfg(not(kani))]
pub fn assume(b: bool) {
    if !b {
        eprintln!("REPLAY-ASSUME-FAILED");
        std::process::exit(77)
    }
}

/// `witness!(cond)`: vacuity guard; the driver insists that the solver finds it satisfiable.
#[macro_export]
macro_rules! witness {
    ($c:expr) => {{
        let __c: bool = $c;
        #[cfg(all(kani, not(feature = "nowitness")))]
        kani::cover!(__c);
        #[cfg(not(kani))]
        if __c {
            eprintln!("WITNESS {}", stringify!($c));
        }
    }};
}

/// Declares a harness: a Kani proof under Kani, a registered replay entry natively.
#[macro_export]
macro_rules! harness {
    ($(#[$m:meta])* fn $name:ident() $body:block) => {
        #[cfg(kani)]
        #[kani::proof]
        #[kani::stub(alloc::fmt::format, $crate::vp::stub_format)]
        #[kani::stub($crate::vp::real_catch_unwind, $crate::vp::stub_catch_unwind)]
        #[kani::stub(crate::engine::fractal::context::get_origin, crate::engine::skyverif::no_origin)]
        #[kani::stub(crate::engine::fractal::context::get_dmsg, crate::engine::skyverif::no_dmsg)]
        #[kani::stub(crate::engine::fractal::context::pop_dmsg, crate::engine::skyverif::no_dmsg)]
        #[kani::stub(crate::engine::fractal::context::pop_origin, crate::engine::skyverif::no_origin)]
        #[kani::stub(crate::engine::fractal::context::set_dmsg, crate::engine::skyverif::no_set_dmsg)]
        #[kani::stub(crate::engine::fractal::context::set_origin, crate::engine::skyverif::no_set_origin)]
        #[kani::stub(crate::engine::fractal::context::set, crate::engine::skyverif::no_set)]
        $(#[$m])*
        pub fn $name() $body
        #[cfg(not(kani))]
        pub fn $name() $body
        #[cfg(not(kani))]
        const _: () = {
            #[used]
            #[link_section = ".init_array"]
            static CTOR: extern "C" fn() = {
                extern "C" fn ctor() { $crate::vp::rt::register(stringify!($name), $name as fn()); }
                ctor
            };
        };
    };
}

pub fn stub_format(_: core::fmt::Arguments<'_>) -> String {
    String::new()
}

/// Ends every path at its first error (after running a check), so that the paths that go on stay
/// concrete in control: the caller asserts what an error-free run must guarantee.
pub static mut TRAP: Option<fn()> = None;
pub fn trap() {
    #[cfg(kani)]
    if let Some(f) = unsafe { TRAP } { f(); assume(false); }
}

pub use std::panic::catch_unwind as real_catch_unwind;
/// Kani does not model unwinding: a panic is a violation wherever it happens
pub fn stub_catch_unwind<F: FnOnce() -> R + std::panic::UnwindSafe, R>(f: F) -> std::thread::Result<R> {
    Ok(f())
}

#[cfg(kani)]
/// contract of core::str::from_utf8 for short inputs: only well-formed ASCII and two-byte
/// sequences are accepted (longer sequences are reported as errors)
pub fn utf8_stub(b: &[u8]) -> Result<&str, core::str::Utf8Error> {
    let mut i = 0;
    while i < b.len() {
        if b[i] < 0x80 { i += 1; }
        else if b[i] >= 0xC2 && b[i] < 0xE0 && i + 1 < b.len() && (b[i + 1] & 0xC0) == 0x80 { i += 2; }
        else { return Err(unsafe { core::mem::transmute::<[usize; 2], core::str::Utf8Error>([i, 0]) }); }
    }
    Ok(unsafe { core::str::from_utf8_unchecked(b) })
}
