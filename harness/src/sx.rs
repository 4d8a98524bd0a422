//! Harness interface; implemented by the engine and, natively, by sx.c.
#![allow(dead_code)]
mod c {
    extern "C" {
        pub fn sx_f64(t: *const u8, n: usize) -> f64;
        pub fn sx_f32(t: *const u8, n: usize) -> f32;
        pub fn sx_int(t: *const u8, n: usize, lo: u64, hi: u64) -> u64;
        pub fn sx_choose(t: *const u8, n: usize, k: u64) -> u64;
        pub fn sx_param(t: *const u8, n: usize, d: i64) -> i64;
        pub fn sx_shard(k: u64);
        pub fn sx_assume(c: bool);
        pub fn sx_fork(c: bool) -> bool;
        pub fn sx_assert(c: bool, l: *const u8, n: usize);
        pub fn sx_assert_bits(a: f64, b: f64, l: *const u8, n: usize);
        pub fn sx_assert_bits32(a: f32, b: f32, l: *const u8, n: usize);
        pub fn sx_assert_real(a: f64, b: f64, l: *const u8, n: usize);
        pub fn sx_assert_real32(a: f32, b: f32, l: *const u8, n: usize);
        pub fn sx_observe(t: *const u8, n: usize, v: f64);
        pub fn sx_observe_u(t: *const u8, n: usize, v: u64);
        pub fn sx_expect_panic(l: *const u8, n: usize);
        pub fn sx_after_panic(f: extern "C" fn(*mut u8), d: *mut u8);
        pub fn sx_reach(l: *const u8, n: usize);
        pub fn sx_uf(id: u32, a: u64, b: u64) -> u64;
        pub fn sx_uff(id: u32, a: f64, b: f64) -> f64;
        pub fn sx_live() -> i64;
        pub fn sx_bytes() -> i64;
        pub fn sx_stop() -> !;
        pub fn sx_spawn(f: extern "C" fn(*mut u8) -> *mut u8, a: *mut u8) -> u64;
        pub fn sx_join(t: u64);
        pub fn sx_finish();
    }
}
#[inline(always)]
pub fn f64(t: &str) -> f64 {
    unsafe { c::sx_f64(t.as_ptr(), t.len()) }
}
#[inline(always)]
pub fn f32(t: &str) -> f32 {
    unsafe { c::sx_f32(t.as_ptr(), t.len()) }
}
/// a finite double
#[inline(always)]
pub fn fin(t: &str) -> f64 {
    let x = f64(t);
    assume(x.is_finite());
    x
}
#[inline(always)]
pub fn int(t: &str, lo: u64, hi: u64) -> u64 {
    unsafe { c::sx_int(t.as_ptr(), t.len(), lo, hi) }
}
/// a power of two, so that directions can be made small without rounding
pub fn scale() -> f64 {
    match param("scale", 0) {
        0 => 1.0,
        k => 2f64.powi(-(k as i32)),
    }
}
/// one run per value
#[inline(always)]
pub fn choose(t: &str, n: usize) -> usize {
    unsafe { c::sx_choose(t.as_ptr(), t.len(), n as u64) as usize }
}
/// choices: one run per value or, with the parameter `long`, that many
/// fixed sequences of choices
pub struct Pick(u64);
impl Pick {
    pub fn new() -> Pick {
        match param("long", 0) {
            0 => Pick(0),
            k => {
                let c = choose("sequence", k as usize);
                shard(c as u64);
                Pick(1 + c as u64 * 7919 + param("salt", 0) as u64 * 15485863)
            }
        }
    }
    pub fn choose(&mut self, t: &str, n: usize) -> usize {
        if self.0 == 0 {
            return choose(t, n);
        }
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) as usize % n
    }
    /// a long sequence skips what does not fit; elsewhere the run ends
    pub fn long(&self) -> bool {
        self.0 != 0
    }
    pub fn shard(&self, key: u64) {
        if self.0 == 0 {
            shard(key)
        }
    }
}
#[inline(always)]
pub fn param(t: &str, d: i64) -> i64 {
    unsafe { c::sx_param(t.as_ptr(), t.len(), d) }
}
#[inline(always)]
pub fn shard(k: u64) {
    unsafe { c::sx_shard(k) }
}
#[inline(always)]
pub fn assume(x: bool) {
    unsafe { c::sx_assume(x) }
}
#[inline(always)]
pub fn fork(x: bool) -> bool {
    unsafe { c::sx_fork(x) }
}
#[inline(always)]
pub fn check(x: bool, l: &str) {
    unsafe { c::sx_assert(x, l.as_ptr(), l.len()) }
}
#[inline(always)]
pub fn bits(a: f64, b: f64, l: &str) {
    unsafe { c::sx_assert_bits(a, b, l.as_ptr(), l.len()) }
}
#[inline(always)]
pub fn bits32(a: f32, b: f32, l: &str) {
    unsafe { c::sx_assert_bits32(a, b, l.as_ptr(), l.len()) }
}
/// wherever spec is defined over the reals, code is defined and equal to it
#[inline(always)]
pub fn real(code: f64, spec: f64, l: &str) {
    unsafe { c::sx_assert_real(code, spec, l.as_ptr(), l.len()) }
}
#[inline(always)]
pub fn real32(code: f32, spec: f32, l: &str) {
    unsafe { c::sx_assert_real32(code, spec, l.as_ptr(), l.len()) }
}
/// the two precisions
pub trait Sc: num::Float + std::fmt::Debug + 'static {
    fn sym(t: &str) -> Self;
    fn real(code: Self, spec: Self, l: &str);
    fn bits(a: Self, b: Self, l: &str);
    fn c(x: f64) -> Self;
}
impl Sc for f64 {
    fn sym(t: &str) -> f64 {
        f64(t)
    }
    fn real(a: f64, b: f64, l: &str) {
        real(a, b, l)
    }
    fn bits(a: f64, b: f64, l: &str) {
        bits(a, b, l)
    }
    fn c(x: f64) -> f64 {
        x
    }
}
impl Sc for f32 {
    fn sym(t: &str) -> f32 {
        f32(t)
    }
    fn real(a: f32, b: f32, l: &str) {
        real32(a, b, l)
    }
    fn bits(a: f32, b: f32, l: &str) {
        bits32(a, b, l)
    }
    fn c(x: f64) -> f32 {
        x as f32
    }
}
/// a finite value of either precision
pub fn fs<S: Sc>(t: &str) -> S {
    let x = S::sym(t);
    assume(x.is_finite());
    x
}
#[inline(always)]
pub fn obs(t: &str, v: f64) {
    unsafe { c::sx_observe(t.as_ptr(), t.len(), v) }
}
#[inline(always)]
pub fn obs_u(t: &str, v: u64) {
    unsafe { c::sx_observe_u(t.as_ptr(), t.len(), v) }
}
#[inline(always)]
pub fn expect_panic(l: &str) {
    unsafe { c::sx_expect_panic(l.as_ptr(), l.len()) }
}
/// the same, and what holds afterwards. `f` runs where the panic happened,
/// before anything is unwound
pub fn refused<F: FnMut() + 'static>(l: &str, f: F) {
    extern "C" fn go<F: FnMut()>(p: *mut u8) {
        unsafe { (*(p as *mut F))() }
    }
    unsafe {
        c::sx_after_panic(go::<F>, Box::into_raw(Box::new(f)) as *mut u8);
        c::sx_expect_panic(l.as_ptr(), l.len());
    }
}
#[inline(always)]
pub fn reach(l: &str) {
    unsafe { c::sx_reach(l.as_ptr(), l.len()) }
}
#[inline(always)]
pub fn uf(id: u32, a: u64, b: u64) -> u64 {
    unsafe { c::sx_uf(id, a, b) }
}
#[inline(always)]
pub fn uff(id: u32, a: f64, b: f64) -> f64 {
    unsafe { c::sx_uff(id, a, b) }
}
pub fn live() -> i64 {
    unsafe { c::sx_live() }
}
pub fn bytes() -> i64 {
    unsafe { c::sx_bytes() }
}
pub fn stop() -> ! {
    unsafe { c::sx_stop() }
}
pub fn spawn(f: extern "C" fn(*mut u8) -> *mut u8, a: *mut u8) -> u64 {
    unsafe { c::sx_spawn(f, a) }
}
pub fn join(t: u64) {
    unsafe { c::sx_join(t) }
}
pub fn finish() {
    unsafe { c::sx_finish() }
}
