//! Harnesses over the serializers: escaping, layout, writers, round trip, display (P07, P08, P10, P11, P23).
use crate::num::{denotes, equal, N};
use crate::sym;
use crate::val::{any_of, plain, bytes_eq, holds, make, text, R};
use json::JsonValue;
use std::io::{self, Write};

/// how a byte of a string is written: 0 as it is, 'u' as \u00XX, else after a backslash
const HOW: [u8; 256] = {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 32 { t[i] = b'u'; i += 1; }
    t[8] = b'b'; t[9] = b't'; t[10] = b'n'; t[12] = b'f'; t[13] = b'r'; t[34] = b'"'; t[92] = b'\\';
    t
};
const HEX: [u8; 16] = *b"0123456789abcdef";

pub fn ser_str(s: &[u8], out: &mut Vec<u8>) {
    out.push(b'"');
    for &c in s {
        let h = HOW[c as usize];
        if h == 0 { out.push(c); continue; }
        out.push(b'\\');
        out.push(h);
        if h == b'u' { out.push(b'0'); out.push(b'0'); out.push(HEX[(c >> 4) as usize & 15]); out.push(HEX[(c & 15) as usize]); }
    }
    out.push(b'"');
}
pub fn ser_num(n: &N, out: &mut Vec<u8>) {
    if n.nan { out.extend_from_slice(b"null"); return; }
    if n.m < 1000 && n.e == 0 {
        if n.neg { out.push(b'-'); }
        if n.m >= 100 { out.push(b'0' + (n.m / 100) as u8); }
        if n.m >= 10 { out.push(b'0' + (n.m / 10 % 10) as u8); }
        out.push(b'0' + (n.m % 10) as u8);
        return;
    }
    // the number's own text, judged here against its value
    let t = json::stringify(n.num());
    denotes(t.as_bytes(), n, 1001);
    out.extend_from_slice(t.as_bytes());
}
fn line(indent: Option<usize>, depth: usize, out: &mut Vec<u8>) { if let Some(k) = indent { out.push(b'\n'); for _ in 0..depth * k { out.push(b' '); } } }
/// the serialization of `r` as the properties state it
pub fn ser(r: &R, indent: Option<usize>, depth: usize, out: &mut Vec<u8>) {
    match r {
        R::Null => out.extend_from_slice(b"null"),
        R::Bool(b) => if *b { out.extend_from_slice(b"true") } else { out.extend_from_slice(b"false") },
        R::Num(n) => ser_num(n, out),
        R::Str(s, _) => ser_str(s, out),
        R::Arr(v) => {
            if v.is_empty() { out.extend_from_slice(b"[]"); return; }
            let mut c = b'[';
            for x in v { out.push(c); c = b','; line(indent, depth + 1, out); ser(x, indent, depth + 1, out); }
            line(indent, depth, out);
            out.push(b']');
        }
        R::Obj(v) => {
            if v.is_empty() { out.extend_from_slice(b"{}"); return; }
            let mut c = b'{';
            for (k, x) in v { out.push(c); c = b','; line(indent, depth + 1, out); ser_str(k, out); out.push(b':'); if indent.is_some() { out.push(b' '); } ser(x, indent, depth + 1, out); }
            line(indent, depth, out);
            out.push(b'}');
        }
    }
}
pub fn text_of(r: &R, indent: Option<usize>) -> Vec<u8> { let mut o = vec![]; ser(r, indent, 0, &mut o); o }

// ---------------------------------------------------------------- escaping

/// P08. mode 0: n ASCII characters; 1: n bytes of any UTF-8; 2: n fixed characters with two symbolic ones placed anywhere;
/// 3: n fixed characters, any UTF-8 of 3 bytes and an ASCII character around position b
#[no_mangle]
pub extern "C" fn h_escape(n: u64, mode: u64, b: u64) {
    let n = n as usize;
    let s: Vec<u8> = match mode {
        0 => sym::ascii(n).into_bytes(),
        1 => sym::string(n).into_bytes(),
        2 => {
            let mut v = vec![b'a'; n];
            let i = sym::choose(n as u64) as usize;
            let j = sym::choose(n as u64) as usize;
            let c = sym::ascii(2).into_bytes();
            v[i] = c[0];
            v[j] = c[1];
            v
        }
        // one symbolic character anywhere, and fixed ones that need escapes
        4 => { let mut v = vec![b'a'; n]; v[n / 2] = b'"'; v[n / 3] = 0x7f; let i = sym::choose(n as u64) as usize; v[i] = sym::ascii(1).as_bytes()[0]; v }
        // a long one, symbolic at the end and around position b
        5 => { let mut v = vec![b'a'; n]; for i in [b as usize, b as usize + 1, n - 1].iter() { v[*i] = sym::ascii(1).as_bytes()[0]; } v }
        // the same few characters again and again
        6 => { let u = sym::ascii(b as usize).into_bytes(); (0..n).map(|i| u[i % u.len()]).collect() }
        _ => {
            let mut v = vec![b'.'; n];
            let u = sym::string(3);
            let mut w = u.as_bytes().to_vec();
            w.extend_from_slice(sym::ascii(1).as_bytes());
            let at = b as usize;
            v.splice(at..at, w);
            v
        }
    };
    let mut want = vec![];
    ser_str(&s, &mut want);
    let t = text(&s);
    let j = JsonValue::from(t);
    let d = j.dump();
    sym::check(bytes_eq(d.as_bytes(), &want), 801);
    sym::check(std::str::from_utf8(d.as_bytes()).is_ok(), 802);
    let h = JsonValue::from(String::from(t));
    sym::check(bytes_eq(h.dump().as_bytes(), &want), 801);
    let mut w = vec![];
    sym::check(h.write(&mut w).is_ok() && bytes_eq(&w, &want), 803);
    sym::check(bytes_eq(j.pretty(2).as_bytes(), &want), 803);
    let mut w = vec![];
    sym::check(j.write_pretty(&mut w, 3).is_ok() && bytes_eq(&w, &want), 803);
    // as a key
    let mut o = JsonValue::new_object();
    o[t] = JsonValue::Null;
    let mut k = b"{".to_vec();
    k.extend_from_slice(&want);
    k.extend_from_slice(b":null}");
    let mut w = vec![];
    sym::check(bytes_eq(o.dump().as_bytes(), &k), 804);
    sym::check(o.write(&mut w).is_ok() && bytes_eq(&w, &k), 804);
    let mut k = b"{\n\t".to_vec();
    k.pop();
    k.push(b' ');
    k.extend_from_slice(&want);
    k.extend_from_slice(b": null\n}");
    sym::check(bytes_eq(o.pretty(1).as_bytes(), &k), 804);
    // decoding gives the string back
    match json::parse(&d) { Ok(p) => sym::check(match p.as_str() { Some(x) => bytes_eq(x.as_bytes(), &s), None => false }, 805), Err(_) => sym::fail(805) }
    sym::cover(1);
}

// ---------------------------------------------------------------- layout

const SPACES: [u16; 12] = [0, 1, 2, 3, 4, 5, 8, 16, 255, 256, 257, 1000];
#[allow(deprecated)]
fn agree(r: &R, j: &JsonValue, k: u16) {
    let c = text_of(r, None);
    let p = text_of(r, Some(k as usize));
    sym::log(c.len() as u64);
    sym::check(bytes_eq(j.dump().as_bytes(), &c), 1011);
    sym::check(bytes_eq(json::stringify(j.clone()).as_bytes(), &c), 1012);
    let mut w: Vec<u8> = vec![];
    sym::check(j.write(&mut w).is_ok() && bytes_eq(&w, &c), 1013);
    let mut w: Vec<u8> = vec![];
    j.to_writer(&mut w);
    sym::check(bytes_eq(&w, &c), 1013);
    sym::check(bytes_eq(j.pretty(k).as_bytes(), &p), 1014);
    sym::check(bytes_eq(json::stringify_pretty(j.clone(), k).as_bytes(), &p), 1015);
    let mut w: Vec<u8> = vec![];
    sym::check(j.write_pretty(&mut w, k).is_ok() && bytes_eq(&w, &p), 1016);
    if let JsonValue::Object(o) = j {
        sym::check(bytes_eq(o.dump().as_bytes(), &c), 1017);
        sym::check(bytes_eq(o.pretty(k).as_bytes(), &p), 1017);
    }
    sym::cover(1);
}
/// P10: any value
#[no_mangle]
pub extern "C" fn h_layout(depth: u64, width: u64, wide: u64) {
    let r = any_of(depth, width, wide & 1 == 1, wide & 2 == 2);
    let k = SPACES[sym::choose(6) as usize];
    let j = make(&r);
    agree(&r, &j, k);
}
/// n elements or members: kind 0 numbers, 1 strings, 2 mixed and nested elements; 3 members, 4 members that are containers, 5 members
/// under long keys; the last one and one in the middle symbolic
fn wide(n: u64, kind: u64) -> R {
    let one = |i: u64, x: u64| -> R { match x { 0 => R::Num(N { neg: i & 1 == 1, m: i, e: 0, nan: false }), 1 => R::Str(format!("text {}", i).into_bytes(), i & 1 == 1), _ => match i % 5 { 0 => R::Null, 1 => R::Arr(vec![]), 2 => R::Bool(true), 3 => R::Arr(vec![R::Null, R::Obj(vec![])]), _ => R::Obj(vec![(b"a".to_vec(), R::Bool(false))]) } } };
    if kind < 3 {
        let mut v: Vec<R> = (0..n).map(|i| one(i, kind)).collect();
        for &i in [n / 2, n - 1].iter() { v[i as usize] = R::Str(sym::ascii(1).into_bytes(), false); }
        return R::Arr(v);
    }
    let mut v: Vec<(Vec<u8>, R)> = (0..n).map(|i| (if kind == 5 { format!("a key of more than thirty-two characters {}", i) } else { format!("k{}", i) }.into_bytes(), one(i, if kind == 4 { 2 } else { kind % 2 }))).collect();
    v[n as usize / 2].1 = R::Bool(sym::boolean());
    v[n as usize - 1].1 = R::Str(sym::ascii(1).into_bytes(), true);
    R::Obj(v)
}
/// P10: many elements
#[no_mangle]
pub extern "C" fn h_layout_wide(n: u64, kind: u64, k: u64) {
    let r = wide(n, kind);
    let j = make(&r);
    agree(&r, &j, k as u16);
}
/// P07: many elements
#[no_mangle]
pub extern "C" fn h_round_wide(n: u64, kind: u64, k: u64) {
    let r = wide(n, kind);
    let j = make(&r);
    round(&r, &j, k as u16);
}
/// P23: many elements
#[no_mangle]
pub extern "C" fn h_display_wide(n: u64, kind: u64, _c: u64) {
    let r = wide(n, kind);
    display(&r);
}
/// nested containers: pat says which levels are objects, `sib` adds siblings before and after
pub fn nest(d: u64, pat: u64, sib: bool) -> R {
    if d == 0 { return match sym::choose(4) { 0 => R::Null, 1 => R::Arr(vec![]), 2 => R::Obj(vec![]), _ => R::Str(sym::ascii(1).into_bytes(), false) }; }
    let x = nest(d - 1, pat >> 1 | (pat & 1) << 7, sib);
    if pat & 1 == 0 { R::Arr(if sib { vec![R::Null, x, R::Bool(true)] } else { vec![x] }) }
    else { R::Obj(if sib { vec![(b"a".to_vec(), R::Arr(vec![])), (b"".to_vec(), x), (b"z".to_vec(), R::Bool(false))] } else { vec![(b"key".to_vec(), x)] }) }
}
/// P10: deep nesting, any indentation. c: pattern of levels | siblings << 8
#[no_mangle]
pub extern "C" fn h_layout_deep(d: u64, k: u64, c: u64) {
    let r = nest(d, c & 255, c >> 8 & 1 == 1);
    let j = make(&r);
    agree(&r, &j, k as u16);
}

// ---------------------------------------------------------------- writers

struct Faulty { out: Vec<u8>, limit: usize, chunk: usize, kind: u64, intr: [u64; 2], calls: u64, once: bool }
const KINDS: [io::ErrorKind; 4] = [io::ErrorKind::BrokenPipe, io::ErrorKind::WouldBlock, io::ErrorKind::Other, io::ErrorKind::UnexpectedEof];
impl Faulty {
    fn error(kind: u64) -> io::Error { if kind < 4 { KINDS[kind as usize].into() } else if kind == 4 { io::Error::from_raw_os_error(28) } else { io::Error::new(io::ErrorKind::Other, Full(7)) } }
}
#[derive(Debug)]
struct Full(u32);
impl std::fmt::Display for Full { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("full") } }
impl std::error::Error for Full {}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let c = self.calls;
        self.calls += 1;
        if c == self.intr[0] || c == self.intr[1] { return Err(io::ErrorKind::Interrupted.into()); }
        if b.is_empty() { return Ok(0); }
        if self.out.len() >= self.limit {
            // a passing failure: whatever is written after it would be accepted
            if self.once { self.limit = usize::MAX; }
            return if self.kind == 6 { Ok(0) } else { Err(Faulty::error(self.kind)) };
        }
        let mut n = b.len();
        if n > self.chunk { n = self.chunk; }
        if n > self.limit - self.out.len() { n = self.limit - self.out.len(); }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn sample(which: u64) -> R {
    let s = |b: &str| R::Str(b.as_bytes().to_vec(), b.len() > 5);
    let n = |neg, m, e| R::Num(N { neg, m, e, nan: false });
    match which {
        0 => R::Obj(vec![(b"k\x01".to_vec(), R::Arr(vec![n(true, 12, 0), R::Null])), (b"".to_vec(), s("a\"\u{1f}\n\u{e9}")), (b"o".to_vec(), R::Obj(vec![]))]),
        1 => R::Arr(vec![n(false, 12345, 30), n(true, 12345, -40), n(false, 5, 18), n(true, 15, -1), R::Num(N { neg: false, m: 0, e: 0, nan: true }), n(true, 0, 0)]),
        2 => R::Arr(vec![R::Bool(true), R::Arr(vec![]), R::Arr(vec![R::Bool(false), R::Obj(vec![(b"a long key beyond the in-line limit of 32".to_vec(), R::Arr(vec![R::Null]))])])]),
        3 => R::Str(sym::ascii(3).into_bytes(), false),
        5 => { let mut t = vec![b'x'; 150]; t[40] = b'\n'; t[90] = b'"'; R::Arr(vec![R::Str(t.clone(), true), R::Obj(vec![(t, R::Null)])]) }
        6 => R::Arr((0..40).map(|i| n(i & 1 == 1, i * 7, 0)).collect()),
        // every form of printed number
        7 => R::Arr(vec![n(true, 12345678901234567890, -18), n(false, 12345678901234567890, -19), n(true, 7, -40), n(true, 0, 5)]),
        8 => R::Arr(vec![n(true, 1234567, -3), n(false, 5, -17), n(true, 99, 21), n(false, 3, 20), n(true, 4, 400), n(false, 123456789, 0), n(true, 18446744073709551615, -25)]),
        _ => { let k = sym::ascii(1).into_bytes(); R::Obj(vec![(k, R::Arr(vec![R::Str(sym::ascii(1).into_bytes(), true), R::Num(crate::val::number(false))]))]) }
    }
}
/// P11: one writer fault at any byte, short writes, interruptions. c: pretty | chunk << 1 | kinds << 8 (0: the error kinds in turn by position)
#[no_mangle]
pub extern "C" fn h_fault(which: u64, chunk: u64, c: u64) {
    let r = sample(which);
    let j = make(&r);
    let pretty = c & 1 == 1;
    let full = text_of(&r, if pretty { Some(2) } else { None });
    let limit = sym::u64();
    sym::assume(limit <= full.len() as u64 + 1);
    let limit = sym::pick(limit) as usize;
    let kind = if c >> 8 & 1 == 1 { sym::choose(7) } else { limit as u64 % 7 };
    let intr = match c >> 1 & 3 { 0 => [u64::MAX, u64::MAX], 1 => [sym::u64(), u64::MAX], _ => [sym::u64(), sym::u64()] };
    let mut w = Faulty { out: vec![], limit, chunk: if chunk == 0 { usize::MAX } else { chunk as usize }, kind, intr, calls: 0, once: sym::boolean() };
    let res = if pretty { j.write_pretty(&mut w, 2) } else { j.write(&mut w) };
    sym::log(w.out.len() as u64);
    match res {
        Ok(()) => { sym::check(limit >= full.len(), 1101); sym::check(bytes_eq(&w.out, &full), 1102); sym::cover(1); }
        Err(e) => {
            sym::check(limit < full.len(), 1103);
            sym::check(w.out.len() == limit && bytes_eq(&w.out, &full[..limit]), 1104);
            let ok = match kind {
                0..=3 => e.kind() == KINDS[kind as usize] && e.get_ref().is_none() && e.raw_os_error().is_none(),
                4 => e.raw_os_error() == Some(28),
                5 => match e.get_ref() { Some(x) => match x.downcast_ref::<Full>() { Some(f) => f.0 == 7, None => false }, None => false },
                _ => e.kind() == io::ErrorKind::WriteZero,
            };
            sym::check(ok, 1105);
            sym::cover(2);
        }
    }
}

// ---------------------------------------------------------------- round trip

fn has_nan(r: &R) -> bool { match r { R::Num(n) => n.nan, R::Arr(v) => { for x in v { if has_nan(x) { return true; } } false } R::Obj(v) => { for (_, x) in v { if has_nan(x) { return true; } } false } _ => false } }
fn round(r: &R, j: &JsonValue, k: u16) {
    let d = j.dump();
    sym::log(d.len() as u64);
    match json::parse(&d) {
        Ok(p) => {
            sym::check(p == *j && *j == p, 701);
            sym::check(matches(&p, r), 702);
            sym::check(p.dump() == d, 703);
        }
        Err(_) => sym::fail(704),
    }
    let d = j.pretty(k);
    match json::parse(&d) {
        Ok(p) => {
            sym::check(p == *j && *j == p, 711);
            sym::check(matches(&p, r), 712);
            sym::check(p.pretty(k) == d, 713);
        }
        Err(_) => sym::fail(714),
    }
    sym::cover(1);
}
/// `j` denotes `r`: numbers by value, members in order
fn matches(j: &JsonValue, r: &R) -> bool {
    match r {
        R::Num(n) => match j.as_number() { Some(x) => { let (pos, m, e) = x.as_parts(); equal(n, &N { neg: !pos, m, e: e as i64, nan: x.is_nan() }) && pos != n.neg } None => false },
        R::Arr(v) => { if !j.is_array() || j.len() != v.len() { return false; } let mut e = true; for (x, y) in j.members().zip(v.iter()) { e &= matches(x, y); } e }
        R::Obj(v) => { if !j.is_object() || j.len() != v.len() { return false; } let mut e = true; for ((k, x), (l, y)) in j.entries().zip(v.iter()) { e &= bytes_eq(k.as_bytes(), l) & matches(x, y); } e }
        _ => holds(j, r),
    }
}
/// P07: any value
#[no_mangle]
pub extern "C" fn h_round(depth: u64, width: u64, wide: u64) {
    let r = any_of(depth, width, wide & 1 == 1, wide & 2 == 2);
    let j = make(&r);
    if has_nan(&r) {
        if let R::Num(_) = r { sym::check(j.dump() == "null" && j.pretty(3) == "null", 705); }
        return;
    }
    round(&r, &j, 1);
}
#[no_mangle]
pub extern "C" fn h_round_deep(d: u64, k: u64, c: u64) {
    let r = nest(d, c & 255, c >> 8 & 1 == 1);
    let j = make(&r);
    round(&r, &j, k as u16);
}
/// P07: strings, mode as h_escape 0/1; keys, mode 2: n characters, the last symbolic, 3: n characters, all but the first without escapes
#[no_mangle]
pub extern "C" fn h_round_str(n: u64, mode: u64, _c: u64) {
    let s = match mode { 0 => sym::ascii(n as usize).into_bytes(), 1 => sym::string(n as usize).into_bytes(),
        3 => { let s = sym::ascii(n as usize).into_bytes(); plain(&s[1..]); s }
        _ => { let mut v = vec![b'x'; n as usize - 1]; v.extend_from_slice(sym::ascii(1).as_bytes()); v } };
    let r = if mode < 2 { R::Arr(vec![R::Str(s.clone(), false), R::Str(s, true)]) } else { R::Arr(vec![R::Obj(vec![(s.clone(), R::Str(s, true))])]) };
    let j = make(&r);
    round(&r, &j, 0);
}
fn digits(t: &[u8], neg: bool) -> bool {
    let d = if neg { &t[1..] } else { t };
    let mut ok = d.len() == 1 || d[0] != b'0';
    for &c in d { ok &= c >= b'0' && c <= b'9'; }
    ok && (!neg || t[0] == b'-')
}
/// P07: every number. sign, mantissa and exponent symbolic; exponents lo..=hi (biased by 32768)
#[no_mangle]
pub extern "C" fn h_round_num(lo: u64, hi: u64, mode: u64) {
    let a = crate::num::any();
    sym::assume(a.e + 32768 >= lo as i64 && a.e + 32768 <= hi as i64);
    if lo == hi { sym::pick(a.e as u64); }
    let n = a.num();
    let d = json::stringify(n);
    sym::log(d.len() as u64);
    match json::parse(&d) {
        Ok(p) => match p.as_number() {
            Some(x) => {
                let (pos, m, e) = x.as_parts();
                sym::check(pos != a.neg && !x.is_nan(), 706);
                sym::cover(1);
                // usually the very same parts, which then compare and print the same
                let parts = m == a.m && e as i64 == a.e;
                if a.m != 0 && parts && e != 0 { return; }
                let y = if a.m == 0 { sym::check(m == 0, 706); N { neg: a.neg, m: 0, e: e as i64, nan: false } } else if parts { a } else {
                    let k = a.e - e as i64;
                    if k < 0 || k > 19 { sym::fail(706); }
                    let k = sym::pick(k as u64) as usize;
                    let v = a.m as u128 * crate::num::POW[k];
                    sym::check(v < 1 << 64 && v as u64 == m, 706);
                    N { neg: a.neg, m: v as u64, e: e as i64, nan: false }
                };
                // y has the parts of the parsed number
                if mode & 1 == 0 && !parts { sym::check(y.num() == n && n == y.num(), 701); }
                if e >= 0 {
                    // an integer: both texts are its digits alone, of which there is one form only
                    sym::check(digits(d.as_bytes(), a.neg), 703);
                    if e > 0 { let t = json::stringify(y.num()); sym::check(digits(t.as_bytes(), a.neg) && t.len() == d.len(), 703); }
                    return;
                }
                sym::check(bytes_eq(json::stringify(y.num()).as_bytes(), d.as_bytes()), 703);
            }
            None => sym::fail(704),
        },
        Err(_) => sym::fail(704),
    }
}

// ---------------------------------------------------------------- display

/// P23: any value
#[no_mangle]
pub extern "C" fn h_display(depth: u64, width: u64, wide: u64) {
    display(&any_of(depth, width, wide & 1 == 1, wide & 2 == 2));
}
fn display(r: &R) {
    let j = make(r);
    let want = match r { R::Str(s, _) => s.clone(), R::Num(n) if n.nan => b"nan".to_vec(), _ => text_of(r, None) };
    let t = format!("{}", j);
    sym::log(t.len() as u64);
    sym::check(bytes_eq(t.as_bytes(), &want), 2301);
    sym::check(bytes_eq(j.to_string().as_bytes(), &want), 2301);
    let want = text_of(r, Some(4));
    sym::check(bytes_eq(format!("{:#}", j).as_bytes(), &want), 2302);
    sym::check(bytes_eq(format!("<{:#}>", j).as_bytes()[1..].split_last().unwrap().1, &want), 2302);
    sym::cover(1);
}
fn decimal(mut v: u64) -> Vec<u8> { let mut d = vec![]; loop { d.insert(0, b'0' + (v % 10) as u8); v /= 10; if v == 0 { return d; } } }
fn find(t: &[u8], w: &[u8]) -> bool { let mut f = false; for i in 0..=t.len() - w.len() { f |= bytes_eq(&t[i..i + w.len()], w); } f }
/// P23: the error text. which 0: any character, 1: any line, 2: any column, 3: the others
#[no_mangle]
pub extern "C" fn h_error(which: u64, b: u64, _c: u64) {
    use json::Error;
    if which == 4 { return error_eq(); }
    let c = if which == 0 { let c = sym::u32(); sym::assume(c < 0x110000 && !(c >= 0xd800 && c < 0xe000)); match char::from_u32(c) { Some(c) => c, None => return } } else { '#' };
    let big = || { let v = sym::u64(); sym::assume(v < if b == 0 { 1_000_000 } else { 10_000_000 }); v };
    let line = if which == 1 { big() } else { 40 };
    let column = if which == 2 { big() } else { u64::MAX };
    if which < 3 {
        let e = Error::UnexpectedCharacter { ch: c, line: line as usize, column: column as usize };
        let t = format!("{}", e);
        let mut b = [0; 4];
        let u = c.encode_utf8(&mut b);
        sym::check(find(t.as_bytes(), u.as_bytes()), 2303);
        let mut p = decimal(line);
        let (l, k) = (p.len(), decimal(column));
        sym::check(find(t.as_bytes(), &p[..l]) && find(t.as_bytes(), &k), 2304);
        p.push(b':');
        p.extend_from_slice(&k);
        sym::check(find(t.as_bytes(), &p), 2304);
        let e2 = Error::UnexpectedCharacter { ch: c, line: line as usize, column: column as usize };
        sym::check(e == e2 && e.to_string() == t, 2305);
        sym::cover(1);
        return;
    }
    let s = sym::ascii(3);
    let w = Error::wrong_type(&s);
    sym::check(find(format!("{}", w).as_bytes(), s.as_bytes()), 2306);
    let v = [Error::UnexpectedEndOfJson, Error::ExceededDepthLimit, Error::FailedUtf8Parsing, w];
    for i in 0..4 {
        let t = v[i].to_string();
        sym::check(!t.is_empty(), 2306);
        for k in 0..3 { if k < i { sym::check(v[k].to_string() != t && v[k] != v[i], 2306); } }
    }
    // the text of an error raised by the parser
    match json::parse("[1,\n  ?]") { Err(e) => sym::check(find(e.to_string().as_bytes(), b"?") && find(e.to_string().as_bytes(), b"2:3"), 2307), Ok(_) => sym::fail(2307) }
    sym::cover(1);
}

/// two errors of any kind with any content are equal exactly if they are the same
fn error_eq() {
    use json::Error;
    let pick = || {
        let k = sym::choose(5);
        let (c, l, n) = (sym::u32(), sym::u64(), sym::u64());
        sym::assume(c < 0xd800);
        let s = sym::ascii(2);
        let e = match k {
            0 => Error::UnexpectedCharacter { ch: match char::from_u32(c) { Some(c) => c, None => sym::fail(2308) }, line: l as usize, column: n as usize },
            1 => Error::UnexpectedEndOfJson,
            2 => Error::ExceededDepthLimit,
            3 => Error::FailedUtf8Parsing,
            _ => Error::wrong_type(&s),
        };
        (k, c, l, n, s, e)
    };
    let (a, b) = (pick(), pick());
    let same = a.0 == b.0 && match a.0 { 0 => a.1 == b.1 && a.2 == b.2 && a.3 == b.3, 4 => bytes_eq(a.4.as_bytes(), b.4.as_bytes()), _ => true };
    sym::check((a.5 == b.5) == same && (b.5 == a.5) == same && (a.5 != b.5) != same, 2305);
    sym::cover(1);
}
