//! Interface to the symbolic engine. In the IR build these functions are intrinsics of the
//! engine; in the native replay build they are provided by `bin/replay.rs`, which feeds the
//! input values the solver chose.
mod ext {
    extern "C" {
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_u64() -> u64;
        pub fn sym_u32() -> u32;
        pub fn sym_u16() -> u16;
        pub fn sym_u8() -> u8;
        pub fn sym_assume(c: bool);
        pub fn sym_check(c: bool, id: u32);
        pub fn sym_fail(id: u32) -> !;
        pub fn sym_cover(id: u32);
        pub fn sym_pick(v: u64) -> u64;
        pub fn sym_log(v: u64);
        pub fn sym_heap() -> u64;
        pub fn sym_linear();
        pub fn sym_freeze(on: bool);
        pub fn sym_bits(n: u32) -> u64;
        pub fn sym_scaled_lt(a: u64, b: u64, p2: i32, p10: i32) -> bool;
        pub fn sym_float_ok(bits: u64, w: u32, m: u64, e: i32, neg: bool) -> bool;
    }
}
pub fn u64() -> u64 { unsafe { ext::sym_u64() } }
pub fn u32() -> u32 { unsafe { ext::sym_u32() } }
pub fn u16() -> u16 { unsafe { ext::sym_u16() } }
pub fn u8() -> u8 { unsafe { ext::sym_u8() } }
pub fn i16() -> i16 { u16() as i16 }
pub fn boolean() -> bool { let b = u8(); assume(b < 2); b == 1 }
/// a value below n
pub fn below(n: u8) -> u8 { let b = u8(); assume(b < n); b }
/// a value below n, one path per value
pub fn choose(n: u64) -> u64 { let b = u8() as u64; assume(b < n); pick(b) }
pub fn assume(c: bool) { unsafe { ext::sym_assume(c) } }
pub fn check(c: bool, id: u32) { unsafe { ext::sym_check(c, id) } }
pub fn fail(id: u32) -> ! { unsafe { ext::sym_fail(id) } }
pub fn cover(id: u32) { unsafe { ext::sym_cover(id) } }
pub fn pick(v: u64) -> u64 { unsafe { ext::sym_pick(v) } }
pub fn log(v: u64) { unsafe { ext::sym_log(v) } }
pub fn heap() -> u64 { unsafe { ext::sym_heap() } }
/// exactly-sized buffer of n arbitrary bytes
pub fn bytes(n: usize) -> Box<[u8]> {
    let mut v = vec![0u8; n].into_boxed_slice();
    unsafe { ext::sym_bytes(v.as_mut_ptr(), n) };
    v
}
/// n arbitrary ASCII characters
pub fn ascii(n: usize) -> String {
    let b = bytes(n);
    for &c in b.iter() { assume(c < 0x80); }
    unsafe { String::from_utf8_unchecked(b.into_vec()) }
}
/// A string of exactly n bytes, any content: all UTF-8 shapes are explored.
pub fn string(n: usize) -> String {
    let b = bytes(n);
    match std::str::from_utf8(&b) { Ok(_) => {} Err(_) => { assume(false); } }
    unsafe { String::from_utf8_unchecked(b.into_vec()) }
}

/// From here on this path is decided over linear real arithmetic: quotients and inputs are relaxed to
/// real numbers, floats to any value within the rounding error. What holds of the relaxation holds of
/// the code; what does not is reported only with inputs that show it exactly.
pub fn linear() { unsafe { ext::sym_linear() } }
/// a value of n bits
pub fn bits(n: u32) -> u64 { if n == 0 { 0 } else { unsafe { ext::sym_bits(n) } } }
/// a * 2^p2 * 10^p10 < b, exactly
pub fn scaled_lt(a: u64, b: u64, p2: i32, p10: i32) -> bool { unsafe { ext::sym_scaled_lt(a, b, p2, p10) } }
/// the float of w bits is an acceptable reading of m * 10^e (m > 0), see big::float_ok
pub fn float_ok(bits: u64, w: u32, m: u64, e: i32, neg: bool) -> bool { unsafe { ext::sym_float_ok(bits, w, m, e, neg) } }
/// until `thaw`, everything now on the heap, and all memory shared between threads, may only be read
pub fn freeze() { unsafe { ext::sym_freeze(true) } }
pub fn thaw() { unsafe { ext::sym_freeze(false) } }
