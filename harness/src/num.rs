//! Harnesses over `Number`: printing, integer and fixed-point conversions, equality (P09, P12-P14, P23).
use crate::sym;
use json::number::{self, Number};
use json::JsonValue;
use std::convert::TryFrom;

pub const POW: [u128; 39] = { let mut t = [1u128; 39]; let mut i = 1; while i < 39 { t[i] = t[i - 1] * 10; i += 1; } t };

/// an arbitrary number without NaN: value is (-1)^neg * m * 10^e
#[derive(Clone, Copy)]
pub struct N { pub neg: bool, pub m: u64, pub e: i64, pub nan: bool }
impl N {
    pub fn num(&self) -> Number { if self.nan { number::NAN } else { unsafe { Number::from_parts_unchecked(!self.neg, self.m, self.e as i16) } } }
    pub fn log(&self) { sym::log(self.neg as u64); sym::log(self.m); sym::log(self.e as u64); }
}
pub fn any() -> N { N { neg: sym::boolean(), m: sym::u64(), e: sym::i16() as i64, nan: false } }
/// number or NaN (of either category)
pub fn any_nan() -> (N, Number) {
    let mut a = any();
    match sym::choose(3) { 0 => (a, a.num()), 1 => { a.nan = true; (a, number::NAN) } _ => { a.nan = true; (a, -number::NAN) } }
}

/// Reads a JSON number strictly: (negative, all digits, digits after the point, exponent if written)
pub fn read(t: &[u8]) -> Option<(bool, u128, i64, Option<i64>)> {
    let mut i = 0;
    let neg = i < t.len() && t[i] == b'-';
    if neg { i += 1; }
    let dig = |i: usize| i < t.len() && t[i] >= b'0' && t[i] <= b'9';
    let (mut v, mut frac) = (0u128, 0i64);
    if !dig(i) { return None; }
    if t[i] == b'0' && dig(i + 1) { return None; }
    while dig(i) { v = v.checked_mul(10)?.checked_add((t[i] - b'0') as u128)?; i += 1; }
    if i < t.len() && t[i] == b'.' {
        i += 1;
        if !dig(i) { return None; }
        while dig(i) { v = v.checked_mul(10)?.checked_add((t[i] - b'0') as u128)?; i += 1; frac += 1; }
    }
    let mut exp = None;
    if i < t.len() && (t[i] == b'e' || t[i] == b'E') {
        i += 1;
        let mut minus = false;
        if i < t.len() && (t[i] == b'-' || t[i] == b'+') { minus = t[i] == b'-'; i += 1; }
        if !dig(i) { return None; }
        let mut e = 0i64;
        while dig(i) { e = e.checked_mul(10)?.checked_add((t[i] - b'0') as i64)?; i += 1; }
        exp = Some(if minus { -e } else { e });
    }
    if i != t.len() { return None; }
    Some((neg, v, frac, exp))
}

/// x * 10^d == y * 10^e, both not zero, over all values
pub fn same(x: u128, d: i64, y: u128, e: i64) -> bool {
    let k = d - e;
    if k < -38 || k > 38 { return false; }
    let k = sym::pick(k as u64) as i64;
    if k >= 0 { x.checked_mul(POW[k as usize]) == Some(y) } else { y.checked_mul(POW[-k as usize]) == Some(x) }
}

/// the text is a JSON number that denotes exactly `a`
pub fn denotes(t: &[u8], a: &N, base: u32) {
    let (neg, v, frac, exp) = match read(t) { Some(r) => r, None => sym::fail(base) };
    sym::check(neg == a.neg, base + 1);
    if a.m == 0 { sym::check(v == 0, base + 2); return; }
    match exp {
        Some(x) => {
            // usually the very digits of the mantissa
            if v == a.m as u128 && x - frac == a.e { return; }
            sym::check(v != 0 && same(v, x - frac, a.m as u128, a.e), base + 2);
        }
        None => sym::check(v != 0 && same(v, -frac, a.m as u128, a.e), base + 2),
    }
}

/// P09: printing; exponents lo..=hi (biased by 32768)
#[no_mangle]
pub extern "C" fn h_print(lo: u64, hi: u64, mode: u64) {
    let a = any();
    sym::assume(a.e + 32768 >= lo as i64 && a.e + 32768 <= hi as i64);
    if mode & 2 != 0 { sym::assume(a.m >= 1 << 52); }
    if mode & 4 != 0 { sym::assume(a.m < 1 << 52); }
    if lo == hi { sym::pick(a.e as u64); }
    let t = json::stringify(a.num());
    sym::log(t.len() as u64);
    sym::cover(1);
    denotes(t.as_bytes(), &a, 901);
    if mode & 1 != 0 {
        let d = format!("{}", a.num());
        sym::check(d == t, 911);
        let mut w = Vec::new();
        sym::check(JsonValue::from(a.num()).write(&mut w).is_ok(), 912);
        sym::check(w == t.as_bytes(), 912);
    }
}

macro_rules! ints {
    ($($k:expr, $t:ty, $as:ident, $signed:expr;)*) => {
        fn from_int(k: u64, bits: u64) {
            match k { $($k => {
                let v = bits as $t;
                let n = Number::from(v);
                let (pos, m, e) = n.as_parts();
                let want: i128 = v as i128;
                sym::check(!n.is_nan() && e == 0 && (if pos { m as i128 } else { -(m as i128) }) == want && (pos || m != 0), 1201);
                let r: Result<$t, _> = TryFrom::try_from(n);
                sym::check(r.ok() == Some(v), 1202);
                let j = JsonValue::from(v);
                sym::check(j.$as() == Some(v), 1203);
                sym::check(n == v && v == n && j == v && v == j, 1204);
                sym::check(j.as_number() == Some(n), 1205);
                sym::cover(1);
            })* _ => {} }
        }
        fn to_int(k: u64, a: &N, n: Number) {
            match k { $($k => {
                let r: Result<$t, _> = TryFrom::try_from(n);
                for x in [r.ok(), JsonValue::Number(n).$as()] {
                    match x {
                        Some(x) => {
                            sym::cover(1);
                            sym::check(!a.nan, 1211);
                            let (xn, xm) = ((x as i128) < 0, (x as i128).unsigned_abs());
                            if a.m == 0 { sym::check(xm == 0, 1212); }
                            else {
                                sym::check(xn == a.neg, 1212);
                                if a.e == 0 { sym::check(xm == a.m as u128, 1212); } else { sym::check(xm != 0 && same(xm, 0, a.m as u128, a.e), 1212); }
                            }
                        }
                        None => {
                            sym::cover(2);
                            let v = if a.neg { -(a.m as i128) } else { a.m as i128 };
                            let fits = !a.nan && a.e == 0 && v >= <$t>::MIN as i128 && v <= <$t>::MAX as i128 && ($signed || !a.neg);
                            sym::check(!fits, 1213);
                        }
                    }
                }
            })* _ => {} }
        }
        fn eq_int(k: u64, a: &N, n: Number, bits: u64) {
            match k { $($k => {
                let v = bits as $t;
                let b = N { neg: (v as i128) < 0, m: (v as i128).unsigned_abs() as u64, e: 0, nan: false };
                let w = equal(a, &b);
                sym::check((n == v) == w, 1411);
                sym::check((v == n) == w, 1412);
                let j = JsonValue::Number(n);
                sym::check((j == v) == w && (v == j) == w && (&j == v) == w, 1413);
                if w { sym::cover(1); } else { sym::cover(2); }
            })* _ => {} }
        }
    };
}
ints! {
    0, i8, as_i8, true; 1, i16, as_i16, true; 2, i32, as_i32, true; 3, i64, as_i64, true; 4, isize, as_isize, true;
    5, u8, as_u8, false; 6, u16, as_u16, false; 7, u32, as_u32, false; 8, u64, as_u64, false; 9, usize, as_usize, false;
}
/// the two numbers denote the same value (or are both NaN)
pub fn equal(a: &N, b: &N) -> bool {
    if a.nan || b.nan { return a.nan && b.nan; }
    if a.m == 0 || b.m == 0 { return a.m == 0 && b.m == 0; }
    a.neg == b.neg && same(a.m as u128, a.e, b.m as u128, b.e)
}

/// P12: every value of integer type `k` to a number and back
#[no_mangle]
pub extern "C" fn h_from_int(k: u64, _b: u64, _c: u64) { let v = sym::u64(); sym::log(v); from_int(k, v); }
/// P12: every number read as integer type `k`
#[no_mangle]
pub extern "C" fn h_to_int(k: u64, _b: u64, _c: u64) { let (a, n) = any_nan(); a.log(); to_int(k, &a, n); }

/// P13: every number read as fixed point with any number of places
#[no_mangle]
pub extern "C" fn h_fixed(signed: u64, _b: u64, _c: u64) {
    let (a, n) = any_nan();
    let p = sym::u16();
    a.log(); sym::log(p as u64);
    let j = JsonValue::Number(n);
    let d = p as i64 + a.e;
    // the exact value truncated, if it is below 10^38
    let exact = |a: &N| -> Option<u128> {
        if a.m == 0 || d < -19 { return Some(0); }
        if d > 19 { return None; }
        let k = sym::pick(d as u64) as i64;
        Some(if k >= 0 { a.m as u128 * POW[k as usize] } else { a.m as u128 / POW[-k as usize] })
    };
    if signed == 0 {
        for r in [n.as_fixed_point_u64(p), j.as_fixed_point_u64(p)] {
            sym::log(r.is_some() as u64);
            if a.nan || (a.neg && a.m != 0) { sym::check(r.is_none(), 1301); continue; }
            match (r, exact(&a)) {
                (Some(x), Some(v)) => { sym::cover(1); sym::check(x as u128 == v, 1302); }
                (Some(_), None) => sym::fail(1303),
                (None, Some(v)) => { sym::cover(2); sym::check(v > u64::MAX as u128 || (a.neg && v == 0), 1304); }
                (None, None) => {}
            }
        }
    } else {
        for r in [n.as_fixed_point_i64(p), j.as_fixed_point_i64(p)] {
            sym::log(r.is_some() as u64);
            if a.nan { sym::check(r.is_none(), 1301); continue; }
            match (r, exact(&a)) {
                (Some(x), Some(v)) => { sym::cover(1); sym::check((x as i128).unsigned_abs() == v && (x == 0 || (x < 0) == a.neg), 1302); }
                (Some(_), None) => sym::fail(1303),
                (None, Some(v)) => { sym::cover(2); sym::check(v > i64::MAX as u128 + a.neg as u128, 1304); }
                (None, None) => {}
            }
        }
    }
}

/// P14: equality of two arbitrary numbers
#[no_mangle]
pub extern "C" fn h_num_eq(k: u64, _b: u64, _c: u64) {
    let (a, x) = any_nan();
    if k == 0 {
        let (b, y) = any_nan();
        a.log(); b.log();
        let w = equal(&a, &b);
        if w { sym::cover(1); } else { sym::cover(2); }
        sym::check((x == y) == w, 1401);
        sym::check((y == x) == w, 1402);
        sym::check((JsonValue::Number(x) == JsonValue::Number(y)) == w, 1403);
        sym::check((x != y) != w, 1404);
    } else if k == 1 {
        a.log();
        sym::check(x == x, 1405);
        sym::check(x.is_nan() == a.nan, 1406);
        sym::check(x.is_zero() == (!a.nan && a.m == 0), 1407);
        sym::check(x.is_empty() == (a.nan || a.m == 0), 1408);
        sym::check(JsonValue::Number(x).is_empty() == x.is_empty(), 1408);
        sym::check(a.nan || x.is_sign_positive() == !a.neg, 1409);
        let y = -x;
        sym::check(y.is_nan() == a.nan && (a.nan || y.as_parts() == (a.neg, a.m, a.e as i16)), 1410);
        sym::check((x == y) == (a.nan || a.m == 0), 1410);
        // parts and back, trailing zeros dropped
        if !a.nan && (a.m != 0 || a.e > -30) {
            let f = Number::from_parts(!a.neg, a.m, a.e as i16);
            let (p, m, e) = f.as_parts();
            sym::check(f == x && (a.m == 0 || p == !a.neg), 1415);
            sym::check(e >= 0 || m % 10 != 0, 1415);
        }
        sym::cover(1);
    } else { let v = sym::u64(); a.log(); sym::log(v); eq_int(k - 10, &a, x, v); }
}

/// P26: parts of numbers. k 0: any number with an exponent of at least -30, or not negative at all; 1: exponent -32768 + c
/// with any mantissa but zero; 2: mantissa zero with exponent -c; 3: NaN
#[no_mangle]
pub extern "C" fn h_parts(k: u64, _b: u64, c: u64) {
    let neg = sym::boolean();
    let (m, e) = match k {
        0 => { let e = sym::i16(); sym::assume(e >= -30); (sym::u64(), e) }
        1 => { let e = sym::i16(); let m = sym::u64(); sym::assume(m != 0); (m, e) }
        2 => (0, (c as i64).wrapping_neg() as i16),
        _ => (0, 0),
    };
    sym::log(neg as u64); sym::log(m); sym::log(e as u64);
    if k == 3 {
        let n = number::NAN;
        let p = -n;
        let q = -p;
        sym::check(n.is_nan() && p.is_nan() && q.is_nan() && p == n && q == n, 2607);
        sym::check(JsonValue::from(n).as_number().map_or(false, |x| x.is_nan()), 2606);
        sym::check(JsonValue::from(p).dump() == "null" && JsonValue::from(q).dump() == "null", 2607);
        sym::cover(1);
        return;
    }
    let n = unsafe { Number::from_parts_unchecked(!neg, m, e) };
    sym::check(n.as_parts() == (!neg, m, e), 2601);
    sym::check(n.is_sign_positive() == !neg && !n.is_nan(), 2601);
    let f = Number::from_parts(!neg, m, e);
    let (fp, fm, fe) = f.as_parts();
    sym::check(!f.is_nan() && fp == !neg, 2602);
    if m == 0 { sym::check(fm == 0, 2603); }
    else {
        // the exact value: as many factors of ten as the exponent went up
        let d = fe as i64 - e as i64;
        sym::check(d >= 0 && d < 20, 2603);
        let d = sym::pick(d as u64);
        let mut back = fm as u128;
        for _ in 0..d { back *= 10; }
        sym::check(back == m as u128, 2603);
    }
    sym::check(fe >= 0 || fm % 10 != 0, 2604);
    if e >= 0 { sym::check(fm == m && fe == e, 2605); sym::cover(2); }
    for x in [n, f] {
        let (p, m, e) = x.as_parts();
        let y = -x;
        sym::check(y.as_parts() == (!p, m, e) && !y.is_nan(), 2607);
        let z = -y;
        sym::check(z.as_parts() == (p, m, e), 2607);
        match JsonValue::from(x) {
            JsonValue::Number(r) => sym::check(r.as_parts() == (p, m, e), 2606),
            _ => sym::fail(2606),
        }
        match JsonValue::from(x).as_number() { Some(r) => sym::check(r.as_parts() == (p, m, e) && !r.is_nan(), 2606), None => sym::fail(2606) }
    }
    sym::cover(1);
}
