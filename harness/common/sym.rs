//! Harness side of the llsym interface.
#![allow(dead_code)]

extern "C" {
    fn sym_int(bits: u32, name: *const u8, len: usize) -> u64;
    fn sym_choose(n: u64, name: *const u8, len: usize) -> u64;
    fn sym_concretize(v: u64) -> u64;
    fn sym_assume(c: bool);
    fn sym_check(c: bool, name: *const u8, len: usize);
    fn sym_cover(name: *const u8, len: usize);
    fn sym_observe(v: u64);
    fn sym_note(name: *const u8, len: usize);
    fn sym_spawn(f: extern "C" fn(*mut u8), arg: *mut u8) -> u32;
    fn sym_join(t: u32);
    fn sym_live_heap() -> u64;
    fn sym_clock(ns: u64);
}

pub fn int(bits: u32, name: &str) -> u64 {
    unsafe { sym_int(bits, name.as_ptr(), name.len()) }
}
pub fn u64(name: &str) -> u64 {
    int(64, name)
}
pub fn i64(name: &str) -> i64 {
    int(64, name) as i64
}
pub fn u32(name: &str) -> u32 {
    int(32, name) as u32
}
pub fn u8(name: &str) -> u8 {
    int(8, name) as u8
}
/// A nondeterministic choice; every outcome is explored separately.
pub fn choose(n: usize, name: &str) -> usize {
    unsafe { sym_choose(n as u64, name.as_ptr(), name.len()) as usize }
}
pub fn flag(name: &str) -> bool {
    choose(2, name) == 1
}
pub fn concretize(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, msg: &str) {
    unsafe { sym_check(c, msg.as_ptr(), msg.len()) }
}
pub fn cover(msg: &str) {
    unsafe { sym_cover(msg.as_ptr(), msg.len()) }
}
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
pub fn observe_str(v: &str) {
    observe(v.len() as u64);
    let mut h = 0u64;
    for b in v.bytes() {
        h = h.wrapping_mul(257).wrapping_add(b as u64);
    }
    observe(h);
}
pub fn note(msg: &str) {
    unsafe { sym_note(msg.as_ptr(), msg.len()) }
}
pub fn live_heap() -> u64 {
    unsafe { sym_live_heap() }
}
pub fn clock(ns: u64) {
    unsafe { sym_clock(ns) }
}

/// Did `f` panic?
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}

extern "C" fn tramp<F: FnOnce()>(p: *mut u8) {
    let f = unsafe { Box::from_raw(p as *mut F) };
    f()
}
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) -> u32 {
    let p = Box::into_raw(Box::new(f)) as *mut u8;
    unsafe { sym_spawn(tramp::<F>, p) }
}
/// Like `spawn`, for closures that borrow; the caller joins before the borrows end.
pub unsafe fn spawn_borrow<F: FnOnce()>(f: F) -> u32 {
    let p = Box::into_raw(Box::new(f)) as *mut u8;
    sym_spawn(tramp::<F>, p)
}
pub fn join(t: u32) {
    unsafe { sym_join(t) }
}

/// Run the closures in threads of their own and wait for all of them.
pub fn par2<A: FnOnce(), B: FnOnce()>(a: A, b: B) {
    unsafe {
        let t1 = spawn_borrow(a);
        let t2 = spawn_borrow(b);
        join(t1);
        join(t2);
    }
}
pub fn par3<A: FnOnce(), B: FnOnce(), C: FnOnce()>(a: A, b: B, c: C) {
    unsafe {
        let t1 = spawn_borrow(a);
        let t2 = spawn_borrow(b);
        let t3 = spawn_borrow(c);
        join(t1);
        join(t2);
        join(t3);
    }
}

#[repr(C)]
pub struct Entry {
    pub name: *const u8,
    pub len: usize,
    pub f: extern "C" fn(),
}
unsafe impl Sync for Entry {}

#[macro_export]
macro_rules! harnesses {
    ($($f:path),* $(,)?) => {
        static TABLE: &[sym::Entry] = &[
            $( sym::Entry { name: stringify!($f).as_ptr(), len: stringify!($f).len(), f: $f } ),*
        ];
        extern "C" { fn sym_rt_main(t: *const sym::Entry, n: usize) -> i32; }
        fn main() {
            std::panic::set_hook(Box::new(|_| {}));
            let r = unsafe { sym_rt_main(TABLE.as_ptr(), TABLE.len()) };
            std::process::exit(r);
        }
    };
}
