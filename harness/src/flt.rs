//! Harnesses over floats: reading numbers as floats and making numbers of floats (P15, P16).
use crate::sym;
use json::number::{self, Number};
use json::JsonValue;

fn read64(n: Number, how: u64) -> Option<f64> {
    match how {
        0 => Some(f64::from(n)),
        1 => JsonValue::Number(n).as_f64(),
        _ => Some(n.into()),
    }
}
fn read32(n: Number, how: u64) -> Option<f32> {
    match how {
        0 => Some(f32::from(n)),
        1 => JsonValue::Number(n).as_f32(),
        _ => Some(n.into()),
    }
}

/// P16: every mantissa and both signs at every exponent from..from+count, as f64 and f32
#[no_mangle]
pub extern "C" fn h_read(from: u64, count: u64, how: u64) {
    let e = sym::u16();
    let from = from as i64 as i16 as u16;
    sym::assume((e.wrapping_sub(from) as u64) < count);
    for k in [12, 8, 4] { sym::pick((e >> k) as u64); }
    let e = sym::pick(e as u64) as i16;
    let neg = sym::choose(2) == 1;
    let m = sym::u64();
    let n = unsafe { Number::from_parts_unchecked(!neg, m, e) };
    sym::log(e as u64); sym::log(m); sym::log(neg as u64);
    if m == 0 {
        sym::cover(1);
        match read64(n, how) { Some(x) => { sym::log(x.to_bits()); sym::check(x.to_bits() == (neg as u64) << 63, 1600) } None => sym::fail(1601) }
        match read32(n, how) { Some(x) => { sym::log(x.to_bits() as u64); sym::check(x.to_bits() == (neg as u32) << 31, 1602) } None => sym::fail(1603) }
        return;
    }
    let x = match read64(n, how) { Some(x) => x, None => sym::fail(1604) };
    let y = match read32(n, how) { Some(y) => y, None => sym::fail(1605) };
    sym::log(x.to_bits()); sym::log(y.to_bits() as u64);
    sym::cover(2);
    let (f, g) = (f64::from_bits(sym::u64()), f32::from_bits(sym::u32()));
    let j = JsonValue::Number(n);
    sym::check((n == f) == (x == f) && (f == n) == (x == f) && (j == f) == (x == f) && (f == j) == (x == f), 1615);
    sym::check((n == g) == (y == g) && (g == n) == (y == g) && (j == g) == (y == g) && (g == j) == (y == g), 1616);
    if m <= 1 << 53 && e >= -22 && e <= 22 {
        // one rounding of an exact quotient or product
        sym::cover(3);
        let p = POW10[(if e < 0 { -e } else { e }) as usize];
        let r = if e < 0 { m as f64 / p } else { m as f64 * p };
        sym::check(x.to_bits() == if neg { (-r).to_bits() } else { r.to_bits() }, 1606);
    }
    sym::linear();
    sym::check(sym::float_ok(x.to_bits(), 64, m, e as i32, neg), 1607);
    sym::check(sym::float_ok(y.to_bits() as u64, 32, m, e as i32, neg), 1608);
}
static POW10: [f64; 23] = [1.0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22];

/// P16: NaN reads as NaN, and is equal to no float
#[no_mangle]
pub extern "C" fn h_read_nan(how: u64, _: u64, _: u64) {
    let n = if sym::boolean() { number::NAN } else { -number::NAN };
    match read64(n, how) { Some(x) => sym::check(x.is_nan(), 1610), None => sym::fail(1611) }
    match read32(n, how) { Some(x) => sym::check(x.is_nan(), 1612), None => sym::fail(1613) }
    let (f, g) = (f64::from_bits(sym::u64()), f32::from_bits(sym::u32()));
    sym::check(!(n == f) && !(f == n) && !(n == g) && !(g == n), 1614);
}

/// The number made of the positive float f * 2^e (f > 0; `edge`: the float below is nearer) denotes it
fn denotes(n: Number, neg: bool, f: u64, e: i32, edge: bool) {
    let (pos, d, k) = n.as_parts();
    let k = sym::pick(k as u64) as i16 as i32;
    sym::log(d); sym::log(k as u64);
    sym::check(pos == !neg && !n.is_nan(), 1501);
    sym::check(d < 100_000_000_000_000_000, 1502);
    // below the middle between this float and the next, above the middle between it and the previous
    sym::check(sym::scaled_lt(d, 2 * f + 1, 1 - e, k), 1503);
    sym::check(if edge { sym::scaled_lt(4 * f - 1, d, e - 2, -k) } else { sym::scaled_lt(2 * f - 1, d, e - 1, -k) }, 1504);
}

fn part(from: u64, count: u64) -> u64 {
    from + if count > 1 { let x = sym::u16() as u64; sym::assume(x < count); for k in [8, 4] { sym::pick(x >> k); } sym::pick(x) } else { 0 }
}
fn sign(s: u64) -> bool { if s & 3 == 2 { sym::choose(2) == 1 } else { s & 3 == 1 } }
/// bits below the leading one: zero, or anything else
fn low(n: u32) -> u64 { if n == 0 || sym::choose(2) == 0 { 0 } else { let f = sym::bits(n); sym::assume(f > 0); f } }
fn num64(x: f64, s: u64) -> Number { if s & 4 == 0 { Number::from(x) } else { match JsonValue::from(x) { JsonValue::Number(n) => n, _ => sym::fail(1505) } } }
fn num32(x: f32, s: u64) -> Number { if s & 4 == 0 { Number::from(x) } else { match JsonValue::from(x) { JsonValue::Number(n) => n, _ => sym::fail(1505) } } }

/// P15: all fractions of the f64 exponents from..from+count (biased, 1..=2046);
/// sign: 0 positive, 1 negative, 2 both; +4: as JsonValue; +8: zero fraction only
#[no_mangle]
pub extern "C" fn h_from_f64(from: u64, count: u64, s: u64) {
    let be = part(from, count);
    let neg = sign(s);
    let frac = if s & 8 != 0 { 0 } else { low(52) };
    let x = f64::from_bits((neg as u64) << 63 | be << 52 | frac);
    sym::log(be); sym::log(frac); sym::log(neg as u64);
    sym::linear();
    sym::cover(1);
    denotes(num64(x, s), neg, 1 << 52 | frac, be as i32 - 1075, frac == 0 && be > 1);
}

/// P15: all subnormal f64 with the leading one at place from..from+count (0..=51)
#[no_mangle]
pub extern "C" fn h_from_sub64(from: u64, count: u64, s: u64) {
    let j = part(from, count);
    let neg = sign(s);
    let f = 1 << j | low(j as u32);
    let x = f64::from_bits((neg as u64) << 63 | f);
    sym::log(j); sym::log(f); sym::log(neg as u64);
    sym::linear();
    sym::cover(1);
    denotes(num64(x, s), neg, f, -1074, false);
}

/// P15: all fractions of the f32 exponents from..from+count (biased, 1..=254)
#[no_mangle]
pub extern "C" fn h_from_f32(from: u64, count: u64, s: u64) {
    let be = part(from, count);
    let neg = sign(s);
    let frac = if s & 8 != 0 { 0 } else { low(23) };
    let x = f32::from_bits((neg as u32) << 31 | (be as u32) << 23 | frac as u32);
    sym::log(be); sym::log(frac); sym::log(neg as u64);
    sym::linear();
    sym::cover(1);
    denotes(num32(x, s), neg, (1 << 23 | frac) << 29, be as i32 - 150 - 29, frac == 0);
}

/// P15: all subnormal f32 with the leading one at place from..from+count (0..=22)
#[no_mangle]
pub extern "C" fn h_from_sub32(from: u64, count: u64, s: u64) {
    let j = part(from, count);
    let neg = sign(s);
    let r = low(j as u32);
    let x = f32::from_bits((neg as u32) << 31 | 1 << j | r as u32);
    sym::log(j); sym::log(r); sym::log(neg as u64);
    sym::linear();
    sym::cover(1);
    denotes(num32(x, s), neg, (1 << j | r) << (52 - j), -149 + j as i32 - 52, r == 0);
}

/// P15: zeros, infinities and every NaN
#[no_mangle]
pub extern "C" fn h_from_special(s: u64, _: u64, _: u64) {
    let neg = sym::choose(2) == 1;
    for zero in [true, false] {
        let (n, m) = if zero {
            (num64(if neg { -0.0 } else { 0.0 }, s), num32(if neg { -0.0 } else { 0.0 }, s))
        } else {
            (num64(f64::from_bits((neg as u64) << 63 | 2047 << 52 | sym::bits(52)), s), num32(f32::from_bits((neg as u32) << 31 | 255 << 23 | sym::bits(23) as u32), s))
        };
        for n in [n, m] {
            if zero {
                sym::check(n.is_zero() && !n.is_nan() && n.is_sign_positive() == !neg && n.as_parts().1 == 0, 1506);
                sym::check(f64::from(n).to_bits() == (neg as u64) << 63, 1507);
            } else {
                sym::check(n.is_nan() && n == number::NAN && !n.is_zero(), 1508);
                sym::check(json::stringify(n) == "null", 1509);
                sym::check(f64::from(n).is_nan() && f32::from(n).is_nan(), 1510);
            }
        }
    }
    sym::cover(1);
}
