//! The harness side of the symbolic executor. Every function here is a builtin of `pensym` and, in a native
//! replay, a function of /verif/runner/runner.c.
mod raw {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, m: *const u8, n: usize);
        pub fn sym_fail(m: *const u8, n: usize) -> !;
        pub fn sym_cover(k: u32);
        pub fn sym_observe(v: u64);
        pub fn sym_live() -> u64;
        pub fn sym_expect_panic(c: bool);
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_spawn(f: extern "C" fn(*mut u8), a: *mut u8);
        pub fn sym_join();
        pub fn sym_yield();
        pub fn sym_end() -> !;
        pub fn sym_dump(p: *const u8, n: usize);
        pub fn sym_native_panic(m: *const u8, n: usize) -> !;
    }
}

/// Fills the buffer with fresh symbolic bytes.
pub fn fill(b: &mut [u8]) {
    unsafe { raw::sym_bytes(b.as_mut_ptr(), b.len()) }
}
pub fn bytes<const N: usize>() -> [u8; N] {
    let mut b = [0; N];
    fill(&mut b);
    b
}
pub fn u8() -> u8 {
    bytes::<1>()[0]
}
pub fn u16() -> u16 {
    u16::from_le_bytes(bytes())
}
pub fn u32() -> u32 {
    u32::from_le_bytes(bytes())
}
pub fn u64() -> u64 {
    u64::from_le_bytes(bytes())
}
pub fn f64() -> f64 {
    f64::from_bits(u64())
}
pub fn bool() -> bool {
    let b = u8();
    assume(b < 2);
    b == 1
}
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}
/// The property: decided by the solver for every value of the current path.
#[inline(never)]
pub fn check(c: bool, m: &str) {
    unsafe { raw::sym_assert(c, m.as_ptr(), m.len()) }
}
pub fn fail(m: &str) -> ! {
    unsafe { raw::sym_fail(m.as_ptr(), m.len()) }
}
/// Marks a point that some path of the entry must reach (guards against vacuity).
pub fn cover(k: u32) {
    unsafe { raw::sym_cover(k) }
}
/// Adds a value to the trace by which the executor and the native build are compared.
pub fn observe(v: u64) {
    unsafe { raw::sym_observe(v) }
}
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for &x in b {
        observe(x as u64);
    }
}
/// The number of live heap blocks.
pub fn live() -> u64 {
    unsafe { raw::sym_live() }
}
pub fn expect_panic(c: bool) {
    unsafe { raw::sym_expect_panic(c) }
}
/// Splits the path over the feasible values of `v`.
pub fn concrete(v: u64) -> u64 {
    unsafe { raw::sym_concretize(v) }
}
/// One of 0..n, split over.
pub fn pick(n: usize) -> usize {
    if n <= 256 {
        let b = u8();
        assume((b as usize) < n);
        concrete(b as u64) as usize
    } else {
        let b = u16();
        assume((b as usize) < n);
        concrete(b as u64) as usize
    }
}
pub fn spawn(f: extern "C" fn(*mut u8), a: *mut u8) {
    unsafe { raw::sym_spawn(f, a) }
}
pub fn join() {
    unsafe { raw::sym_join() }
}
pub fn yield_() {
    unsafe { raw::sym_yield() }
}
pub fn end() -> ! {
    unsafe { raw::sym_end() }
}
pub fn dump(b: &[u8]) {
    unsafe { raw::sym_dump(b.as_ptr(), b.len()) }
}

/// Declares entry points.
#[macro_export]
macro_rules! entries {
    ($($(#[$a:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$a])* #[no_mangle] pub extern "C" fn $n() $b )*
    };
}

/// Called by the native runner only.
#[no_mangle]
pub extern "C" fn sym_native_init() {
    // the first access makes the block of all thread-local variables, which is not to be counted later
    thread_local!(static TOUCH: core::cell::Cell<u64> = const { core::cell::Cell::new(0) });
    TOUCH.with(|x| x.set(x.get() + 1));
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{i}");
        unsafe { raw::sym_native_panic(s.as_ptr(), s.len()) }
    }));
}
