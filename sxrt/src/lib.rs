//! What a harness says to the symbolic executor (feature `sym`), or, without the feature, to the native
//! replayer: where the free input bytes are, what is assumed, and what must hold.
#[cfg(feature = "sym")]
mod imp {
    extern "C" {
        fn sx_bytes(p: *mut u8, n: usize);
        fn sx_assume(c: bool);
        fn sx_assert(c: bool, p: *const u8, n: usize);
        fn sx_cover(i: u64);
        fn sx_concretize(v: u64) -> u64;
        fn sx_observe(v: u64);
        fn sx_is_symbolic(v: u64) -> u64;
        fn sx_dead() -> !;
        fn sx_skip(p: *const u8, n: usize, c: u8) -> usize;
        fn sx_rskip(p: *const u8, n: usize, c: u8) -> usize;
        pub fn sx_choose(n: usize) -> usize;
        pub fn sx_arm(on: usize);
        pub fn sx_tid(t: usize);
        pub fn sx_suspend(k: usize);
        pub fn sx_resume(k: usize);
    }
    #[inline(never)] pub fn bytes(b: &mut [u8]) { unsafe { sx_bytes(b.as_mut_ptr(), b.len()) } }
    #[inline(always)] pub fn assume(c: bool) { unsafe { sx_assume(c) } }
    #[inline(always)] pub fn check(c: bool, m: &'static str) { unsafe { sx_assert(c, m.as_ptr(), m.len()) } }
    #[inline(always)] pub fn cover(i: u32) { unsafe { sx_cover(i as u64) } }
    #[inline(always)] pub fn fix(v: u64) -> u64 { unsafe { sx_concretize(v) } }
    #[inline(always)] pub fn observe(v: u64) { unsafe { sx_observe(v) } }
    #[inline(always)] pub fn is_symbolic(v: u64) -> bool { unsafe { sx_is_symbolic(v) != 0 } }
    #[inline(always)] pub fn dead() -> ! { unsafe { sx_dead() } }
    /// how many bytes from the start are known to differ from `c`
    #[inline(always)] pub fn skip(b: &[u8], c: u8) -> usize { unsafe { sx_skip(b.as_ptr(), b.len(), c) } }
    #[inline(always)] pub fn rskip(b: &[u8], c: u8) -> usize { unsafe { sx_rskip(b.as_ptr(), b.len(), c) } }
    pub fn rest() -> Vec<u8> { vec![] }
    pub const SYM: bool = true;
}
#[cfg(not(feature = "sym"))]
mod imp {
    use std::sync::{LazyLock, Mutex};
    // a program started by a replay gets what is left of the input
    static IN: LazyLock<Mutex<(Vec<u8>, usize)>> = LazyLock::new(|| Mutex::new((std::env::var("VX_CHOICES").map_or(vec![], |s| s.as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect()), 0)));
    fn input() -> std::sync::MutexGuard<'static, (Vec<u8>, usize)> { IN.lock().unwrap_or_else(|e| e.into_inner()) }
    pub fn rest() -> Vec<u8> { let i = input(); i.0[i.1.min(i.0.len())..].to_vec() }
    pub fn set_input(v: Vec<u8>) { *input() = (v, 0) }
    pub fn bytes(b: &mut [u8]) { crate::sched::quiet(|| { let mut i = input(); for x in b.iter_mut() { let k = i.1; *x = i.0.get(k).copied().unwrap_or(0); i.1 += 1; } }) }
    pub fn assume(c: bool) { if !c { println!("ASSUMED-AWAY"); std::process::exit(77) } }
    pub fn check(c: bool, m: &'static str) { if !c { println!("CHECK-FAILED {}", m); std::process::exit(102) } }
    pub fn cover(_: u32) {}
    pub fn fix(v: u64) -> u64 { v }
    pub fn observe(v: u64) { println!("OBS {}", v) }
    pub fn is_symbolic(_: u64) -> bool { false }
    pub fn dead() -> ! { println!("ASSUMED-AWAY"); std::process::exit(77) }
    pub fn skip(b: &[u8], c: u8) -> usize { b.iter().position(|x| *x == c).unwrap_or(b.len()) }
    pub fn rskip(b: &[u8], c: u8) -> usize { b.iter().rev().position(|x| *x == c).unwrap_or(b.len()) }
    pub const SYM: bool = false;
}
pub use imp::*;
pub mod sched;

pub fn array<const N: usize>() -> [u8; N] { let mut b = [0u8; N]; bytes(&mut b); b }
pub fn vec(n: usize) -> Vec<u8> { let mut b = vec![0u8; n]; bytes(&mut b); b }
pub fn u8() -> u8 { array::<1>()[0] }
pub fn u16() -> u16 { u16::from_be_bytes(array()) }
pub fn u32() -> u32 { u32::from_be_bytes(array()) }
pub fn bool() -> bool { u8() & 1 == 1 }
/// a free value in 0..n, left symbolic
pub fn below(n: u8) -> u8 { let v = u8(); assume(v < n); v }
/// a free value in 0..n; every value is explored on paths of its own
pub fn pick(n: usize) -> usize { assert!(n <= 256); let v = u8() as usize; assume(v < n); fix(v as u64) as usize }
pub fn fixed(v: usize) -> usize { fix(v as u64) as usize }
