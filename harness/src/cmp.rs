//! Comparison of a `JsonValue`, seen through the public API, with the reference tree.
use crate::refp::{RNum, RV};
use crate::sym;
use json::number::Number;
use json::JsonValue;

/// (-1)^neg * mant * 10^exp == n, exactly
pub fn num_is(n: Number, neg: bool, mant: u64, exp: i64) -> bool {
    if n.is_nan() { return false; }
    let (pos, m, e) = n.as_parts();
    let e = e as i64;
    if pos == neg { return false; } // the sign of zero is kept as well
    if m == mant && e == exp { return true; }
    if mant == 0 || m == 0 { return mant == 0 && m == 0; }
    let (mut a, mut ea, mut b, mut eb) = (m, e, mant, exp);
    if ea < eb { std::mem::swap(&mut a, &mut b); std::mem::swap(&mut ea, &mut eb); }
    let mut d = ea - eb;
    if d > 19 { return false; }
    while d > 0 { a = match a.checked_mul(10) { Some(x) => x, None => return false }; d -= 1; }
    a == b
}

/// What the parser must deliver for a number literal: exact when the digits fit 64 bits, the
/// exponent saturating at the limits of i16.
pub fn num_ok(n: Number, r: &RNum) -> bool {
    if !r.exact {
        let (pos, m, e) = n.as_parts();
        if n.is_nan() || pos == r.neg { return false; }
        if r.digits > 38 || r.exp > 32767 || r.exp < -32768 { return true; }
        // never larger, and at most 1e-17 smaller
        let k = e as i64 - r.fexp;
        if k < 0 || k > 19 { return false; }
        let mut v = m as u128;
        for _ in 0..k { v = match v.checked_mul(10) { Some(x) => x, None => return false }; }
        return v <= r.full && match (r.full - v).checked_mul(100_000_000_000_000_000) { Some(x) => x < r.full, None => false };
    }
    if r.exp > 32767 || r.exp < -32768 {
        let (pos, m, e) = n.as_parts();
        return !n.is_nan() && pos != r.neg && m == r.mant && (r.mant == 0 || e == if r.exp > 0 { 32767 } else { -32768 });
    }
    num_is(n, r.neg, r.mant, r.exp)
}

/// check `j` against `r`; assertion ids are base + 0..9
pub fn tree(j: &JsonValue, r: &RV, base: u32) {
    match r {
        RV::Null => sym::check(j.is_null(), base),
        RV::Bool(b) => sym::check(j.as_bool() == Some(*b), base + 1),
        RV::Num(n) => match j.as_number() { Some(k) => sym::check(num_ok(k, n), base + 2), None => sym::fail(base + 2) },
        RV::Str(s) => match j.as_str() { Some(k) => sym::check(k.as_bytes() == &s[..], base + 3), None => sym::fail(base + 3) },
        RV::Arr(v) => {
            sym::check(j.is_array() && j.len() == v.len(), base + 4);
            let mut it = j.members();
            for x in v { match it.next() { Some(k) => tree(k, x, base), None => sym::fail(base + 4) } }
        }
        RV::Obj(v) => {
            sym::check(j.is_object() && j.len() == v.len(), base + 5);
            let mut it = j.entries();
            for (key, x) in v {
                match it.next() {
                    Some((k, y)) => {
                        sym::check(k.as_bytes() == &key[..], base + 6);
                        tree(y, x, base);
                        // the member is also found by its key
                        sym::check(std::ptr::eq(&j[k], y), base + 7);
                    }
                    None => sym::fail(base + 5),
                }
            }
        }
    }
}

/// value without NaN, compared with `==` semantics written out independently
pub fn dump_eq(a: &str, b: &[u8]) -> bool { a.as_bytes() == b }
