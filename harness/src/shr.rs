//! Reading a shared value: nothing that another thread may be reading at the same time is written (P25).
use crate::obj::{is_val, keys, val, Model};
use crate::num::N;
use crate::val::{any_of, holds, make, number, R};
use crate::{obj, sym};
use json::number::Number;
use json::object::Object;
use json::{Error, JsonValue};
use std::convert::TryFrom;
use std::fmt::Write;

/// a string that formats without keeping anything
struct Sink(usize);
impl Write for Sink { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len(); Ok(()) } }
struct Bytes(usize);
impl std::io::Write for Bytes {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 += b.len(); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn accessors(j: &JsonValue) -> u64 {
    let mut n = 0;
    n += j.is_null() as u64 + j.is_boolean() as u64 + j.is_number() as u64 + j.is_string() as u64 + j.is_array() as u64 + j.is_object() as u64 + j.is_empty() as u64;
    n += j.len() as u64;
    n += j.as_str().map_or(0, |s| s.len() as u64);
    n += j.as_bool().is_some() as u64 + j.as_number().is_some() as u64;
    n += j.as_u8().is_some() as u64 + j.as_u16().is_some() as u64 + j.as_u32().is_some() as u64 + j.as_u64().is_some() as u64 + j.as_usize().is_some() as u64;
    n += j.as_i8().is_some() as u64 + j.as_i16().is_some() as u64 + j.as_i32().is_some() as u64 + j.as_i64().is_some() as u64 + j.as_isize().is_some() as u64;
    n += j.as_fixed_point_u64(2).is_some() as u64 + j.as_fixed_point_i64(2).is_some() as u64;
    n
}
fn lookups(j: &JsonValue, ks: &[String]) -> u64 {
    let mut n = 0;
    for (i, k) in ks.iter().enumerate() {
        n += j.has_key(k) as u64;
        n += j[k.as_str()].is_null() as u64 + j[k].is_null() as u64;
        if let JsonValue::Object(o) = j { n += o.get(k).is_some() as u64 + o[k.as_str()].is_null() as u64 + o[k].is_null() as u64; }
        n += j[i].is_null() as u64;
    }
    n += j.contains("a") as u64 + j.contains(3) as u64;
    n
}
fn iterate(j: &JsonValue) -> u64 {
    let mut n = 0;
    for (k, v) in j.entries() { n += k.len() as u64 + v.is_null() as u64; }
    for (k, v) in j.entries().rev() { n += k.len() as u64 + v.is_null() as u64; }
    for v in j.members() { n += v.is_null() as u64; }
    for v in j.members().rev() { n += v.is_null() as u64; }
    if let JsonValue::Object(o) = j { let mut it = o.iter(); while let Some((k, _)) = it.next() { n += k.len() as u64; if let Some((k, _)) = it.next_back() { n += k.len() as u64 + it.len() as u64; } } }
    n
}
fn compare(j: &JsonValue, o: &JsonValue) -> u64 {
    let mut n = (*j == *o) as u64 + (*o == *j) as u64 + (*j != *o) as u64 + (*j == *j) as u64;
    n += (*j == "abc") as u64 + ("abc" == *j) as u64 + (*j == 5) as u64 + (5 == *j) as u64 + (*j == true) as u64 + (*j == 0.5) as u64;
    if let JsonValue::Object(ref x) = *o { n += (*j == *x) as u64 + (*x == *j) as u64; }
    n
}
fn serialize(j: &JsonValue) -> u64 {
    let mut n = j.dump().len() + j.pretty(2).len();
    let mut w = Bytes(0);
    let _ = j.write(&mut w);
    let _ = j.write_pretty(&mut w, 3);
    n += w.0;
    if let JsonValue::Object(o) = j { n += o.dump().len() + o.pretty(1).len(); }
    n as u64
}
fn display(j: &JsonValue) -> u64 {
    let mut s = Sink(0);
    let _ = write!(s, "{} {:#}", j, j);
    s.0 as u64
}
fn run(j: &JsonValue, ks: &[String], op: u64) -> u64 {
    match op {
        0 => accessors(j),
        1 => lookups(j, ks),
        2 => iterate(j),
        3 => { let o = j.clone(); compare(j, &o) }
        4 => { let c = j.clone(); let d = c.clone(); drop(c); let mut e = d.clone(); e.clear(); let _ = e.insert("x", d); accessors(&e) }
        5 => serialize(j),
        _ => display(j),
    }
}

/// kind 0: any value (shape: depth 0-2); 1: an object of symbolic keys that came about in the way `shape` says.
/// op: which operations are used while the value is shared
#[no_mangle]
pub extern "C" fn h_share(kind: u64, op: u64, shape: u64) {
    if kind == 0 {
        let r = any_of(shape, 2, true, op > 4);
        let j = Box::new(make(&r));
        let ks = vec![String::from("a"), String::from("")];
        sym::freeze();
        let n = run(&j, &ks, op);
        sym::thaw();
        sym::log(n);
        sym::check(holds(&j, &r), 2501);
        sym::cover(1);
        return;
    }
    let (n, kk) = match kind { 1 => (3, 0), 2 => (3, 1), 3 => (3, 4), _ => (9, 6) };
    let ks = keys(kk, n);
    let mut m = Model::new();
    let mut j = JsonValue::new_object();
    for i in 0..n { obj::write(&mut j, &mut m, &ks, i, i as u64 * 3 + shape, 0); }
    let gone = if shape == 2 { let s = sym::choose(n as u64) as usize; obj::remove(&mut j, &mut m, &ks, s, 0); true } else { false };
    let j = match shape {
        1 => { let c = j.clone(); drop(j); c }
        3 => { let mut h = JsonValue::new_array(); let _ = h.push(j); h.array_remove(0) }
        4 => { let mut h = JsonValue::new_object(); h["in"] = j; h["in"].take() }
        5 => { let o: Object = ks.iter().enumerate().map(|(i, k)| (k, val(i as u64 * 3 + shape))).collect(); JsonValue::Object(o) }
        _ => j,
    };
    let j = Box::new(j);
    sym::freeze();
    let r = run(&j, &ks, op);
    sym::thaw();
    sym::log(r);
    sym::check(j.len() == m.n && (gone || m.n == n), 2501);
    for (s, k) in ks.iter().enumerate() { match m.get(s) { Some(v) => sym::check(is_val(&j[k.as_str()], v), 2501), None => sym::check(!j.has_key(k), 2501) } }
    sym::cover(1);
}

static TEXTS: [&str; 12] = ["", "[1, 2.5e-3, \"a\\u00e9\\n\", {\"k\": null, \"k\": []}]", "{\"a\" 1}", "\"\\ud83d\\ude00\"", "[[[", "123456789012345678901234567890e5", "tru", "\"\\ud800x\"", "1.5e99999999", " {\"a long key that is stored outside the node\": true} ", "-0.000", "[\n\n 1,\u{e9}]"];
static FLOATS: [f64; 12] = [0.0, -1.5, 0.1, 1e300, 5e-324, 1.7976931348623157e308, f64::NAN, f64::INFINITY, 123456789.123, 9007199254740993.0, 1e-7, 2.2250738585072014e-308];

/// numbers, parsing and errors: nothing is kept between calls. which 0: reading and printing any integer and NaN, 4: any number,
/// 1: floats, 2: parsing fixed texts and displaying the errors, 3: parsing n symbolic characters
#[no_mangle]
pub extern "C" fn h_share_num(which: u64, n: u64, _c: u64) {
    let anchor = Box::new(n); // something to share
    match which {
        0 | 4 => {
            let a: N = if which == 0 { number(true) } else { crate::num::any() };
            let x = Box::new(a.num());
            let y = Box::new(JsonValue::Number(*x));
            sym::freeze();
            let mut s = Sink(0);
            let _ = write!(s, "{}", x);
            let mut r = s.0 as u64 + accessors(&y) + serialize(&y);
            r += (*x == *x) as u64 + (*x == 7u64) as u64 + (-1i64 == *x) as u64 + (-*x).is_zero() as u64 + x.is_nan() as u64;
            r += x.as_fixed_point_u64(3).is_some() as u64 + x.as_fixed_point_i64(3).is_some() as u64;
            r += u8::try_from(*x).is_ok() as u64 + i64::try_from(*x).is_ok() as u64 + u64::try_from(*x).is_ok() as u64;
            sym::thaw();
            sym::log(r);
            sym::check(holds(&y, &R::Num(a)), 2501);
        }
        1 => {
            let f = FLOATS[sym::choose(12) as usize];
            sym::freeze();
            let x = Number::from(f);
            let z = Number::from(f as f32);
            let g: f64 = x.into();
            let h: f32 = z.into();
            let t = JsonValue::from(f).dump();
            let u = JsonValue::from(f).as_f64();
            let e = (x == f) as u64 + (f == x) as u64;
            sym::thaw();
            sym::log(g.to_bits());
            sym::log(h.to_bits() as u64);
            sym::log(t.len() as u64 + u.is_some() as u64 + e);
        }
        _ => {
            let t = Box::new(if which == 2 { String::from(TEXTS[sym::choose(12) as usize]) } else { sym::ascii(n as usize) });
            sym::freeze();
            let mut s = Sink(0);
            let r = match json::parse(&t) {
                Ok(v) => v.len() as u64,
                Err(e) => { let _ = write!(s, "{}", e); let b: &dyn std::error::Error = &e; let _ = write!(s, "{}", b); 1000 }
            };
            let e = Error::wrong_type("array");
            let _ = write!(s, "{}", e);
            sym::thaw();
            sym::log(r);
            sym::log(s.0 as u64);
        }
    }
    sym::check(*anchor == n, 2501);
    sym::cover(1);
}
