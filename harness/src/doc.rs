//! Harnesses over whole documents: parsed, edited anywhere and written back (P28).
use crate::num::N;
use crate::ser::{ser, text_of};
use crate::sym;
use crate::val::{bytes_eq, holds, make, plain, same, text, R};
use json::JsonValue;

fn num(m: u64) -> R { R::Num(N { neg: false, m, e: 0, nan: false }) }
fn key(n: usize) -> Vec<u8> { let k = sym::ascii(n).into_bytes(); plain(&k); k }
fn put(v: &mut Vec<(Vec<u8>, R)>, k: Vec<u8>, x: R) { for (l, y) in v.iter_mut() { if bytes_eq(l, &k) { *y = x; return; } } v.push((k, x)); }
fn find(v: &[(Vec<u8>, R)], k: &[u8]) -> Option<usize> { for i in 0..v.len() { if bytes_eq(&v[i].0, k) { return Some(i); } } None }
fn nodes(r: &R) -> u64 {
    match r { R::Arr(v) => { let mut n = 1; for x in v { n += nodes(x); } n } R::Obj(v) => { let mut n = 1; for (_, x) in v { n += nodes(x); } n } _ => 1 }
}
/// the n-th part in document order, reached by position and key or through mutable iterators
fn at<'a>(j: &'a mut JsonValue, r: &'a mut R, mut n: u64, how: bool) -> (&'a mut JsonValue, &'a mut R) {
    if n == 0 { return (j, r); }
    n -= 1;
    match r {
        R::Arr(v) => for i in 0..v.len() {
            let c = nodes(&v[i]);
            if n < c { let x = if how { &mut j[i] } else { match j.members_mut().nth(i) { Some(x) => x, None => sym::fail(2804) } }; return at(x, &mut v[i], n, how); }
            n -= c;
        },
        R::Obj(v) => for i in 0..v.len() {
            let c = nodes(&v[i].1);
            if n < c {
                let (k, w) = &mut v[i];
                let x = if how { &mut j[text(k)] } else { match j.entries_mut().nth(i) { Some((l, x)) => { sym::check(bytes_eq(l.as_bytes(), k), 2804); x } None => sym::fail(2804) } };
                return at(x, w, n, how);
            }
            n -= c;
        },
        _ => {}
    }
    sym::fail(2804)
}
fn long(c: u8) -> Vec<u8> { let mut k = vec![b'k'; 36]; k.push(c); k }
/// documents: shape fixed, some keys and scalars symbolic
fn document(which: u64) -> R {
    let s = |b: &[u8]| R::Str(b.to_vec(), false);
    match which {
        0 => R::Obj(vec![(b"a".to_vec(), R::Arr(vec![num(1), R::Str(key(1), false)])), (b"b".to_vec(), R::Obj(vec![(long(b'c'), R::Null)])), (b"d".to_vec(), R::Bool(true))]),
        1 => R::Arr(vec![R::Obj(vec![(b"k".to_vec(), num(1)), (b"l".to_vec(), s(&[b's'; 31]))]), R::Arr(vec![num(2), R::Num(N { neg: true, m: 3, e: 0, nan: false })]), R::Obj(vec![])]),
        // members of any names, repeated ones among them
        2 => { let mut v = vec![]; for i in 0..3 { let x = match i { 0 => R::Null, 1 => R::Arr(vec![num(1)]), _ => num(2) }; v.push((key(1), x)); } R::Obj(v) }
        3 => { let mut v: Vec<(Vec<u8>, R)> = (0..9).map(|i| (vec![b'a' + i], num(i as u64))).collect(); v.push((long(b'x'), R::Arr(vec![]))); R::Obj(v) }
        4 => R::Arr(vec![s(&[b'e'; 30]), R::Str([&[b'f'; 30][..], &key(1)].concat(), false), s(b""), R::Bool(false)]),
        5 => R::Obj(vec![(b"".to_vec(), R::Obj(vec![(key(1), R::Obj(vec![(b"z".to_vec(), R::Arr(vec![R::Arr(vec![R::Null])]))]))]))]),
        6 => s(b"text"),
        8 => { let mut v: Vec<(Vec<u8>, R)> = (0..19).map(|i| (if i % 5 == 4 { long(b'a' + i) } else { vec![b'm', b'a' + i] }, num(i as u64))).collect(); v.push((key(1), R::Arr((0..9).map(|i| if i == 4 { R::Null } else { num(i) }).collect()))); R::Obj(v) }
        _ => num(7),
    }
}
/// repeated members: the first place, the last value
fn unique(r: R) -> R {
    match r {
        R::Obj(v) => { let mut o = vec![]; for (k, x) in v { put(&mut o, k, unique(x)); } R::Obj(o) }
        R::Arr(v) => R::Arr(v.into_iter().map(unique).collect()),
        r => r,
    }
}
fn read(t: &[u8]) -> JsonValue { match json::parse(text(t)) { Ok(j) => j, Err(_) => sym::fail(2801) } }
/// the same text with every string's first character and every letter x written as \u escapes
fn escaped(t: &[u8]) -> Vec<u8> {
    let (mut o, mut open) = (vec![], false);
    for &c in t {
        let first = o.last() == Some(&b'"') && open;
        if c == b'"' { open = !open; }
        if open && c != b'"' && (first || c == b'k') { o.extend_from_slice(b"\\u00"); o.push(b"0123456789abcdef"[(c >> 4) as usize & 15]); o.push(b"0123456789ABCDEF"[(c & 15) as usize]); } else { o.push(c); }
    }
    o
}
fn source(r: &R, form: u64) -> JsonValue {
    match form {
        0 => read(&text_of(r, None)),
        1 => { let mut t = b"\t\r\n ".to_vec(); ser(r, Some(3), 1, &mut t); t.push(b'\n'); read(&t) }
        2 => read(&escaped(&text_of(r, None))),
        3 => make(r),
        _ => { let a = read(&text_of(r, None)); let b = a.clone(); sym::check(a == b, 2805); drop(a); b }
    }
}
fn two_digits() -> R { let m = sym::u8() as u64; sym::assume(m >= 10 && m < 100); num(m) }
/// any position: one path for each there is, one for all others
fn position(len: usize) -> usize { let i = sym::u64(); if i < len as u64 { sym::pick(i) as usize } else { i as usize } }
/// one edit of a part of the document; ops 0..14
fn edit(j: &mut JsonValue, r: &mut R, t: u64, ops: u64) {
    let (n, how, v) = (sym::choose(nodes(r)), t & 1 == 0, if t & 1 == 0 { two_digits() } else { R::Str(key(1), true) });
    let op = sym::choose(ops);
    if op >= 11 { // the document as a whole
        match op {
            11 => { let d = j.clone(); sym::check(d == *j, 2805); *j = d; }
            12 => { let d = read(j.dump().as_bytes()); sym::check(d == *j, 2805); *j = d; }
            _ => { // a part taken out and put in last
                let (x, y) = at(j, r, n, how);
                let x = x.take();
                let y = std::mem::replace(y, R::Null);
                match r { R::Obj(o) => { j["moved"] = x; put(o, b"moved".to_vec(), y); } R::Arr(a) => { sym::check(j.push(x).is_ok(), 2806); a.push(y); } r => { *j = vec![x].into(); *r = R::Arr(vec![y]); } }
            }
        }
        return;
    }
    let (x, y) = at(j, r, n, how);
    // a name: one of the object's or another one
    let name = |y: &R| match y { R::Obj(o) => { let i = sym::choose(o.len() as u64 + 1) as usize; if i < o.len() { o[i].0.clone() } else if how { key(1) } else { long(b'n') } } _ => key(1) };
    match op {
        0 => { *x = make(&v); *y = v; }
        1 => {
            let k = name(y);
            x[text(&k)] = make(&v);
            match y { R::Obj(o) => put(o, k, v), y => *y = R::Obj(vec![(k, v)]) }
        }
        2 => {
            let k = name(y);
            let d = x.insert(text(&k), make(&v));
            match y { R::Obj(o) => { sym::check(d.is_ok(), 2806); put(o, k, v) } _ => sym::check(d.is_err(), 2806) }
        }
        3 => {
            let k = name(y);
            let d = x.remove(text(&k));
            match y { R::Obj(o) => match find(o, &k) { Some(i) => sym::check(holds(&d, &o.remove(i).1), 2806), None => sym::check(d.is_null(), 2806) }, _ => sym::check(d.is_null(), 2806) }
        }
        4 => { let d = x.push(make(&v)); match y { R::Arr(a) => { sym::check(d.is_ok(), 2806); a.push(v) } _ => sym::check(d.is_err(), 2806) } }
        5 => { let d = x.pop(); match y { R::Arr(a) => match a.pop() { Some(w) => sym::check(holds(&d, &w), 2806), None => sym::check(d.is_null(), 2806) }, _ => sym::check(d.is_null(), 2806) } }
        6 => {
            let i = position(match y { R::Arr(a) => a.len(), _ => 0 });
            let d = x.array_remove(i);
            match y { R::Arr(a) if i < a.len() => sym::check(holds(&d, &a.remove(i)), 2806), _ => sym::check(d.is_null(), 2806) }
        }
        7 => {
            let i = match y { R::Arr(a) => position(a.len()), _ => 0 };
            x[i] = make(&v);
            match y { R::Arr(a) => if i < a.len() { a[i] = v } else { a.push(v) }, y => *y = R::Arr(vec![v]) }
        }
        8 => { let d = x.take(); sym::check(holds(&d, y), 2806); *y = R::Null; }
        9 => { let d = x.take_string(); match (d, &y) { (Some(d), R::Str(s, _)) => { sym::check(bytes_eq(d.as_bytes(), s), 2806); *y = R::Null; } (None, R::Str(..)) | (Some(_), _) => sym::fail(2806), _ => {} } }
        _ => match y { R::Arr(a) => { x.clear(); a.clear(); } R::Obj(o) => { x.clear(); o.clear(); } _ => {} },
    }
}
/// everything that shows the content
fn shows(j: &JsonValue, r: &R) {
    sym::check(holds(j, r), 2802);
    let d = j.dump();
    sym::check(bytes_eq(d.as_bytes(), &text_of(r, None)), 2801);
    let p = j.pretty(2);
    sym::check(bytes_eq(p.as_bytes(), &text_of(r, Some(2))), 2801);
    let back = read(d.as_bytes());
    sym::check(back == *j && *j == back && holds(&back, r), 2803);
    lookups(j, r);
}
fn lookups(j: &JsonValue, r: &R) {
    match r {
        R::Arr(v) => for i in 0..v.len() { lookups(&j[i], &v[i]); },
        R::Obj(v) => { for (k, x) in v { sym::check(j.has_key(text(k)), 2804); lookups(&j[text(k)], x); } sym::check(!j.has_key("absent") && j["absent"].is_null(), 2804); }
        r => sym::check(holds(j, r), 2804),
    }
}
/// P28. a: document | form << 8; b: edits | kinds of edits << 8 (0: all); c: 1 the content is looked at after every edit
#[no_mangle]
pub extern "C" fn h_edit(a: u64, b: u64, c: u64) {
    let r = document(a & 255);
    let mut j = source(&r, a >> 8);
    let mut r = unique(r);
    let ops = if b >> 8 == 0 { 14 } else { b >> 8 };
    sym::check(holds(&j, &r), 2802);
    for t in 0..b & 255 { edit(&mut j, &mut r, t, ops); if c == 1 { shows(&j, &r); } }
    shows(&j, &r);
    sym::cover(1);
}
/// P28: two documents under the same edits, made in different ways (a: document | form << 8 | other form << 16), stay equal; b: edits
#[no_mangle]
pub extern "C" fn h_edit_two(a: u64, b: u64, _c: u64) {
    let r = document(a & 255);
    let (mut x, mut y) = (source(&r, a >> 8 & 255), source(&r, a >> 16));
    let mut r = unique(r);
    let first = r.clone();
    sym::check(x == y, 2805);
    for t in 0..b { edit(&mut x, &mut r, t, 14); }
    // the untouched one is what it was
    let eq = same(&r, &first);
    sym::check((x == y) == eq && (y == x) == eq && holds(&y, &first), 2805);
    // parts moved from one document to the other
    if x.is_array() && y.is_array() { while x.len() > 0 { let e = x.array_remove(0); sym::check(y.push(e).is_ok(), 2806); } if let (R::Arr(v), R::Arr(mut w)) = (r, first) { w.extend(v); sym::check(x.is_empty(), 2806); shows(&y, &R::Arr(w)); } }
    else if let (R::Obj(v), R::Obj(mut w)) = (r, first) {
        for (k, e) in v { let d = x.remove(text(&k)); sym::check(y.insert(text(&k), d).is_ok(), 2806); put(&mut w, k, e); }
        sym::check(x.is_empty(), 2806);
        shows(&y, &R::Obj(w));
    }
    sym::cover(1);
}
