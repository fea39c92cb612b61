//! The environment of a harness: symbolic inputs, assumptions, checks, uninterpreted functions.
//!
//! In the symbolic build the `sym_*` functions are left undefined and interpreted by /verif/symx.  With the
//! feature `native` they are implemented here and read a counterexample tape, so that the very same harness
//! runs as an ordinary program.
#![cfg_attr(not(feature = "native"), no_std)]

#[cfg(feature = "native")]
pub mod native;
pub mod ro;

extern "C-unwind" {
    fn sym_input(p: *mut u8, n: usize, tag: *const u8, tl: usize);
    fn sym_choose(lo: u64, hi: u64, tag: *const u8, tl: usize) -> u64;
    fn sym_assume(c: bool);
    fn sym_check(c: bool, m: *const u8, ml: usize);
    fn sym_reach(m: *const u8, ml: usize);
    fn sym_unsupported(m: *const u8, ml: usize);
    fn sym_uf(fid: u32, flags: u32, ip: *const u8, il: usize, op: *mut u8, ol: usize);
    fn sym_uf_inv(fid: u32, ip: *const u8, il: usize, op: *mut u8, ol: usize);
    fn sym_modpow(b: u64, e: *const u64, el: usize, m: u64) -> u64;
    fn sym_eq(a: *const u8, b: *const u8, n: usize) -> bool;
    fn sym_note(p: *const u8, n: usize);
    fn sym_real() -> bool;
    fn sym_pmod(p: *const u8, n: usize, q: u64) -> u64;
    fn sym_ring(op: u32, a: u64, b: u64, q: u64) -> u64;
    fn sym_inv(v: u64, q: u64) -> u64;
    fn sym_big(op: u32, a: *const u64, al: usize, b: *const u64, bl: usize, m: *const u64, ml: usize, out: *mut u64) -> usize;
    fn sym_big_cmp(a: *const u64, al: usize, b: *const u64, bl: usize) -> u32;
    fn sym_big_norm(a: *const u64, al: usize) -> usize;
    fn sym_big_top(limb: u64) -> usize;
    fn sym_known_same(a: *const u8, b: *const u8, n: usize) -> bool;
}

/// An arbitrary array of bytes.
#[inline(never)]
pub fn bytes<const N: usize>(tag: &str) -> [u8; N] {
    let mut a = [0u8; N];
    fill(&mut a, tag);
    a
}
#[inline(never)]
pub fn fill(b: &mut [u8], tag: &str) {
    unsafe { sym_input(b.as_mut_ptr(), b.len(), tag.as_ptr(), tag.len()) }
}
#[inline(never)]
pub fn u8(tag: &str) -> u8 {
    bytes::<1>(tag)[0]
}
/// An arbitrary number in lo..=hi, explored as separate paths.
#[inline(never)]
pub fn choose(lo: u64, hi: u64, tag: &str) -> usize {
    unsafe { sym_choose(lo, hi, tag.as_ptr(), tag.len()) as usize }
}
/// One of the given lengths, explored as separate paths.
#[inline(never)]
pub fn pick(set: &[usize], tag: &str) -> usize {
    set[choose(0, set.len() as u64 - 1, tag)]
}
#[inline(never)]
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline(never)]
pub fn check(c: bool, m: &str) {
    unsafe { sym_check(c, m.as_ptr(), m.len()) }
}
#[inline(never)]
pub fn reach(m: &str) {
    unsafe { sym_reach(m.as_ptr(), m.len()) }
}
/// The model cannot represent this situation: the run is inconclusive.
#[inline(never)]
pub fn unsupported(m: &str) {
    unsafe { sym_unsupported(m.as_ptr(), m.len()) }
}
/// Uninterpreted function `fid`.
#[inline(never)]
pub fn uf(fid: u32, input: &[u8], out: &mut [u8]) {
    unsafe { sym_uf(fid, 0, input.as_ptr(), input.len(), out.as_mut_ptr(), out.len()) }
}
/// Uninterpreted injective function (distinct inputs, including inputs of distinct lengths, give distinct outputs).
#[inline(never)]
pub fn uf_inj(fid: u32, input: &[u8], out: &mut [u8]) {
    unsafe { sym_uf(fid, 1, input.as_ptr(), input.len(), out.as_mut_ptr(), out.len()) }
}
/// Left inverse of an injective function; arbitrary outside its range.
#[inline(never)]
pub fn uf_inv(fid: u32, input: &[u8], out: &mut [u8]) {
    unsafe { sym_uf_inv(fid, input.as_ptr(), input.len(), out.as_mut_ptr(), out.len()) }
}
#[inline(never)]
pub fn modpow(b: u64, e: &[u64], m: u64) -> u64 {
    unsafe { sym_modpow(b, e.as_ptr(), e.len(), m) }
}
/// Branch-free equality (lengths compared concretely).
#[inline(never)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { sym_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}
/// Record bytes in the execution trace (used to compare the symbolic engine with native runs).
#[inline(never)]
pub fn note(b: &[u8]) {
    unsafe { sym_note(b.as_ptr(), b.len()) }
}
/// the little-endian number `b` modulo `q`
#[inline(never)]
pub fn pmod(b: &[u8], q: u64) -> u64 {
    unsafe { sym_pmod(b.as_ptr(), b.len(), q) }
}
/// arithmetic on residues modulo `q`
#[inline(never)]
pub fn addm(a: u64, b: u64, q: u64) -> u64 {
    unsafe { sym_ring(0, a, b, q) }
}
#[inline(never)]
pub fn subm(a: u64, b: u64, q: u64) -> u64 {
    unsafe { sym_ring(1, a, b, q) }
}
#[inline(never)]
pub fn mulm(a: u64, b: u64, q: u64) -> u64 {
    unsafe { sym_ring(2, a, b, q) }
}
/// the inverse of `v` modulo the prime `q`; 0 for 0
#[inline(never)]
pub fn inv(v: u64, q: u64) -> u64 {
    unsafe { sym_inv(v, q) }
}
/// Big integers of several limbs as whole numbers (for the vendored num-bigint); None: compute it yourself.
pub mod big {
    /// add (0), sub (1; Err when negative), mul (2), a mod b (3), a^b mod m (4); Ok(number of limbs written to out)
    #[inline(never)]
    pub fn op(op: u32, a: &[u64], b: &[u64], m: &[u64], out: &mut [u64]) -> Option<Result<usize, ()>> {
        let n = unsafe { super::sym_big(op, a.as_ptr(), a.len(), b.as_ptr(), b.len(), m.as_ptr(), m.len(), out.as_mut_ptr()) };
        match n {
            usize::MAX => None,
            n if n == usize::MAX - 1 => Some(Err(())),
            n => Some(Ok(n)),
        }
    }
    #[inline(never)]
    pub fn cmp(a: &[u64], b: &[u64]) -> Option<core::cmp::Ordering> {
        match unsafe { super::sym_big_cmp(a.as_ptr(), a.len(), b.as_ptr(), b.len()) } {
            0 => Some(core::cmp::Ordering::Less),
            1 => Some(core::cmp::Ordering::Equal),
            2 => Some(core::cmp::Ordering::Greater),
            _ => None,
        }
    }
    /// the number of limbs in use
    #[inline(never)]
    pub fn norm(a: &[u64]) -> Option<usize> {
        match unsafe { super::sym_big_norm(a.as_ptr(), a.len()) } {
            usize::MAX => None,
            n => Some(n),
        }
    }
    /// the number of bytes in use of the top limb
    #[inline(never)]
    pub fn top(limb: u64) -> usize {
        unsafe { super::sym_big_top(limb) }
    }
}
/// are the byte strings syntactically equal?  (false does not mean that they differ)
#[inline(never)]
pub fn known_same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { sym_known_same(a.as_ptr(), b.as_ptr(), a.len()) }
}
/// true in the native build against the real dependencies
pub fn real() -> bool {
    unsafe { sym_real() }
}

/// A random number generator whose output is arbitrary.
pub mod rng {
    pub fn fill(dst: &mut [u8]) {
        super::fill(dst, "rng")
    }
}

/// Defines harnesses: exported functions plus a table for the native runner.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[doc = $d:expr])* fn $name:ident() $body:block )*) => {
        $( $(#[doc = $d])* #[no_mangle] pub extern "C-unwind" fn $name() $body )*
        pub static TABLE: &[(&str, extern "C-unwind" fn())] = &[ $((stringify!($name), $name as extern "C-unwind" fn())),* ];
    };
}
