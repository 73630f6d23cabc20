//! Harnesses over `JsonValue`: equality, arrays, access, strings, construction (P19-P22, P24).
use crate::num::{equal, N};
use crate::obj::{is_val, val};
use crate::sym;
use json::number::Number;
use json::object::Object;
use json::JsonValue;

/// reference value
#[derive(Clone)]
pub enum R { Null, Bool(bool), Num(N), Str(Vec<u8>, bool), Arr(Vec<R>), Obj(Vec<(Vec<u8>, R)>) }

pub fn text(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }
pub fn make(r: &R) -> JsonValue {
    match r {
        R::Null => JsonValue::Null,
        R::Bool(b) => JsonValue::from(*b),
        R::Num(n) => JsonValue::Number(n.num()),
        R::Str(s, heap) => if *heap { JsonValue::from(String::from(text(s))) } else { JsonValue::from(text(s)) },
        R::Arr(v) => { let mut a = JsonValue::new_array(); for x in v { let _ = a.push(make(x)); } a }
        R::Obj(v) => { let mut o = Object::new(); for (k, x) in v { o.insert(text(k), make(x)); } JsonValue::Object(o) }
    }
}
pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool { if a.len() != b.len() { return false; } let mut e = true; for i in 0..a.len() { e &= a[i] == b[i]; } e }
/// equality as the property states it, independent of the implementation
pub fn same(a: &R, b: &R) -> bool {
    match (a, b) {
        (R::Null, R::Null) => true,
        (R::Bool(x), R::Bool(y)) => x == y,
        (R::Num(x), R::Num(y)) => equal(x, y),
        (R::Str(x, _), R::Str(y, _)) => bytes_eq(x, y),
        (R::Arr(x), R::Arr(y)) => { if x.len() != y.len() { return false; } let mut e = true; for i in 0..x.len() { e &= same(&x[i], &y[i]); } e }
        (R::Obj(x), R::Obj(y)) => {
            if x.len() != y.len() { return false; }
            let mut e = true;
            for (k, v) in x { let mut f = false; for (l, w) in y { f |= bytes_eq(k, l) && same(v, w); } e &= f; }
            e
        }
        _ => false,
    }
}
/// `j` holds exactly `r`, members in this order
pub fn holds(j: &JsonValue, r: &R) -> bool {
    match r {
        R::Null => j.is_null(),
        R::Bool(b) => j.as_bool() == Some(*b),
        R::Num(n) => match j.as_number() { Some(x) => if n.nan { x.is_nan() } else { !x.is_nan() && x.as_parts() == (!n.neg, n.m, n.e as i16) }, None => false },
        R::Str(s, _) => match j.as_str() { Some(t) => bytes_eq(t.as_bytes(), s), None => false },
        R::Arr(v) => { if !j.is_array() || j.len() != v.len() { return false; } let mut e = true; for (x, y) in j.members().zip(v.iter()) { e &= holds(x, y); } e }
        R::Obj(v) => { if !j.is_object() || j.len() != v.len() { return false; } let mut e = true; for ((k, x), (l, y)) in j.entries().zip(v.iter()) { e &= bytes_eq(k.as_bytes(), l) & holds(x, y); } e }
    }
}

/// a symbolic value: shape by the path, content by variables. `depth` 0: scalars only
pub fn any(depth: u64, width: u64, wide: bool) -> R { any_of(depth, width, wide, false) }
pub fn plain(s: &[u8]) { for &c in s { sym::assume(c >= 0x20 && c != b'"' && c != b'\\'); } }
/// `tame`: strings and keys without characters that need escapes
pub fn any_of(depth: u64, width: u64, wide: bool, tame: bool) -> R {
    match sym::choose(if depth == 0 { 4 } else { 6 }) {
        0 => R::Null,
        1 => R::Bool(sym::boolean()),
        2 => R::Num(number(wide)),
        3 => { let n = if wide { sym::choose(3) } else { 1 } as usize; let heap = n > 0 && sym::choose(2) == 1; let s = sym::ascii(n).into_bytes(); if tame { plain(&s); } R::Str(s, heap) }
        4 => { let n = sym::choose(width + 1); R::Arr((0..n).map(|_| any_of(depth - 1, width, false, tame)).collect()) }
        _ => {
            let n = sym::choose(width + 1);
            let mut v: Vec<(Vec<u8>, R)> = vec![];
            for _ in 0..n {
                let k = sym::ascii(1).into_bytes();
                if tame { plain(&k); }
                for (o, _) in v.iter() { sym::assume(o[0] != k[0]); }
                v.push((k, any_of(depth - 1, width, false, tame)));
            }
            R::Obj(v)
        }
    }
}
pub fn number(wide: bool) -> N {
    if wide { match sym::choose(2) { 0 => N { neg: sym::boolean(), m: sym::u64(), e: 0, nan: false }, _ => N { neg: false, m: 0, e: 0, nan: true } } }
    else { N { neg: sym::boolean(), m: sym::u8() as u64, e: sym::choose(2) as i64, nan: false } }
}

/// P19: two arbitrary values
#[no_mangle]
pub extern "C" fn h_eq(depth: u64, width: u64, c: u64) {
    let (a, b) = (any(depth & 15, width, c & 1 == 0), any(depth >> 4, width, c & 1 == 0));
    let (x, y) = (make(&a), make(&b));
    let w = same(&a, &b);
    sym::check((x == y) == w, 1901);
    sym::check((y == x) == w, 1902);
    sym::check((x != y) != w, 1903);
    sym::check(x == x, 1904);
    let z = x.clone();
    sym::check(z == x && (z == y) == w, 1905);
    if w { sym::cover(1); } else { sym::cover(2); }
}

/// P19: two objects (which 0) of b and c members with one-character keys, in any order; two arrays (1) of b and c numbers;
/// two nests (2) of b containers whose innermost values differ anywhere; (3) two members under long keys
#[no_mangle]
pub extern "C" fn h_eq_shape(which: u64, b: u64, c: u64) {
    let obj = |n: u64, len: usize| -> R {
        let mut v: Vec<(Vec<u8>, R)> = vec![];
        for i in 0..n {
            let mut k = vec![b'k'; len - 1];
            k.extend_from_slice(sym::ascii(1).as_bytes());
            for (o, _) in v.iter() { sym::assume(o[len - 1] != k[len - 1]); }
            v.push((k, if i & 1 == 0 { R::Num(N { neg: false, m: sym::u8() as u64, e: 0, nan: false }) } else { R::Bool(sym::boolean()) }));
        }
        R::Obj(v)
    };
    let arr = |n: u64| R::Arr((0..n).map(|_| R::Num(N { neg: sym::boolean(), m: sym::u64(), e: 0, nan: false })).collect());
    fn nest(d: u64, pat: u64) -> R {
        if d == 0 { return any(0, 0, false); }
        let x = nest(d - 1, pat >> 1);
        if pat & 1 == 0 { R::Arr(vec![x]) } else { R::Obj(vec![(vec![b'a' + (d & 7) as u8], x), (b"last".to_vec(), R::Bool(true))]) }
    }
    let (a, z) = match which {
        0 => (obj(b, 1), obj(c, 1)),
        1 => (arr(b), arr(c)),
        4 => { // b numbers and c other members or elements, all fixed but for one anywhere in each
            let free = |x: &mut R| *x = R::Num(N { neg: false, m: sym::u8() as u64, e: 0, nan: false });
            let at = sym::choose(b) as usize;
            if c & 1 == 0 {
                let mut v: Vec<R> = (0..b).map(|i| R::Num(N { neg: false, m: i, e: 0, nan: false })).collect();
                let mut w = v.clone();
                free(&mut v[at]); free(&mut w[at]);
                (R::Arr(v), R::Arr(w))
            } else {
                let mut v: Vec<(Vec<u8>, R)> = (0..b).map(|i| (format!("k{}", i).into_bytes(), R::Num(N { neg: false, m: i, e: 0, nan: false }))).collect();
                let mut w = v.clone();
                w.rotate_left((c >> 1) as usize % b as usize);
                if c >> 1 & 1 == 1 { w.reverse(); }
                free(&mut v[at].1);
                if sym::choose(2) == 0 { for x in w.iter_mut() { if x.0 == v[at].0 { free(&mut x.1); } } } else { w[at].0 = b"other".to_vec(); }
                (R::Obj(v), R::Obj(w))
            }
        }
        // the same b members in any order, with a value that may differ; c: the kind of keys
        5 => {
            let key = |i: u64| if c == 0 { vec![b'a' + (i * 7 % 26) as u8] } else { format!("a key longer than thirty-two characters {}", i * 3).into_bytes() };
            let at = sym::choose(b);
            let val = |i: u64| R::Num(N { neg: false, m: if i == at { sym::u8() as u64 } else { i }, e: 0, nan: false });
            let v: Vec<_> = (0..b).map(|i| (key(i), val(i))).collect();
            let mut left: Vec<u64> = (0..b).collect();
            let mut w = vec![];
            while !left.is_empty() { let i = left.remove(sym::choose(left.len() as u64) as usize); w.push((key(i), val(i))); }
            (R::Obj(v), R::Obj(w))
        }
        2 => { let p = sym::choose(4); let p = [0, u64::MAX, 0x5555_5555_5555_5555, 0x3c3c_3c3c_3c3c_3c3c][p as usize]; (nest(b, p), nest(c, p)) }
        _ => (obj(b, 32 + (c >> 4) as usize), obj(c & 15, 32 + (c >> 4) as usize)),
    };
    let (x, y) = (make(&a), make(&z));
    let w = same(&a, &z);
    sym::check((x == y) == w && (y == x) == w && (x != y) != w, 1901);
    if w { sym::cover(1); } else { sym::cover(2); }
}

/// P19: comparison with native values. n: length of the string
#[no_mangle]
pub extern "C" fn h_eq_native(kind: u64, n: u64, m: u64) {
    match kind {
        0 => { // a string value of either storage against native strings
            let (s, t) = (sym::ascii(n as usize), sym::ascii(m as usize));
            let j = if sym::choose(2) == 0 { JsonValue::from(s.as_str()) } else { JsonValue::from(s.clone()) };
            let w = bytes_eq(s.as_bytes(), t.as_bytes());
            sym::check((j == t.as_str()) == w && (t.as_str() == j) == w, 1911);
            sym::check((j == *t.as_str()) == w && (*t.as_str() == j) == w, 1911);
            sym::check((j == t) == w, 1912);
            sym::check((t == j) == w, 1912);
            sym::check((&j == t) == w, 1912);
            sym::check((j == JsonValue::from(t.as_str())) == w && (j == JsonValue::from(t)) == w, 1913);
            if w { sym::cover(1); } else { sym::cover(2); }
        }
        1 => { // anything against native values of another kind
            let a = any(1, 1, true);
            let j = make(&a);
            let s = sym::ascii(n as usize);
            let w = match &a { R::Str(t, _) => bytes_eq(t, s.as_bytes()), _ => false };
            sym::check((j == s.as_str()) == w && (s.as_str() == j) == w && (j == *s.as_str()) == w && (j == s) == w && (s == j) == w, 1914);
            let b = sym::boolean();
            let w = match &a { R::Bool(t) => *t == b, _ => false };
            sym::check((j == b) == w && (b == j) == w && (&j == b) == w, 1915);
            let v = sym::u64();
            let k = N { neg: false, m: v, e: 0, nan: false };
            let w = match &a { R::Num(t) => equal(t, &k), _ => false };
            sym::check((j == v) == w && (v == j) == w && (&j == v) == w, 1916);
            let w = match &a { R::Num(t) => equal(t, &k), _ => false };
            sym::check((j == k.num()) == w && (k.num() == j) == w, 1916);
            let mut key = vec![b'k'; if n > 2 { n as usize - 1 } else { 0 }]; // one symbolic character in long keys
            if n > 2 { key.push(s.as_bytes()[0]); } else { key.extend_from_slice(s.as_bytes()); }
            let mut o = Object::new();
            o.insert(text(&key), JsonValue::from(b));
            let ro = R::Obj(vec![(key.clone(), R::Bool(b))]);
            let w = same(&a, &ro);
            sym::check((j == o) == w && (o == j) == w, 1917);
            sym::cover(1);
        }
        _ => { // a value of another kind never equals a float
            let a = any(1, 1, true);
            if let R::Num(_) = a { return; }
            let j = make(&a);
            sym::check(!(j == 1.5f64) && !(1.5f64 == j) && !(j == f64::NAN) && !(j == 0f32) && !(0f32 == j), 1918);
            sym::cover(1);
        }
    }
}

// ---------------------------------------------------------------- arrays

fn arr_same(j: &mut JsonValue, m: &[u64], how: u64) {
    sym::check(j.is_array() && j.len() == m.len() && j.is_empty() == m.is_empty(), 2001);
    match how {
        0 => { let mut it = j.members(); sym::check(it.len() == m.len(), 2001); for &v in m { match it.next() { Some(x) => sym::check(is_val(x, v), 2002), None => sym::fail(2002) } } sym::check(it.next().is_none(), 2002); }
        1 => { let mut it = j.members(); for &v in m.iter().rev() { match it.next_back() { Some(x) => sym::check(is_val(x, v), 2002), None => sym::fail(2002) } } sym::check(it.next().is_none(), 2002); }
        2 => { let mut it = j.members_mut(); for &v in m { match it.next() { Some(x) => sym::check(is_val(x, v), 2002), None => sym::fail(2002) } } sym::check(it.next_back().is_none(), 2002); }
        _ => { for (i, &v) in m.iter().enumerate() { sym::check(is_val(&j[i], v), 2003); } sym::check(j[m.len()].is_null(), 2004); }
    }
}
/// P20: a history on one array. a: elements first pushed; b: steps
#[no_mangle]
pub extern "C" fn h_array(a: u64, steps: u64, c: u64) {
    let mut j = JsonValue::new_array();
    let mut m: Vec<u64> = vec![];
    for i in 0..a { let v = i % 97; sym::check(j.push(val(v)).is_ok(), 2005); m.push(v); }
    for t in 0..steps {
        let v = 20 + t;
        match sym::choose(8) {
            0 => { sym::check(j.push(val(v)).is_ok(), 2005); m.push(v); }
            1 => { let x = j.pop(); match m.pop() { Some(v) => sym::check(is_val(&x, v), 2006), None => sym::check(x.is_null(), 2006) } }
            2 => { // removal at any position
                let i = sym::u64() as usize;
                if i < m.len() { let i = sym::pick(i as u64) as usize; let x = j.array_remove(i); let v = m.remove(i); sym::check(is_val(&x, v), 2007); }
                else { sym::check(j.array_remove(i).is_null(), 2007); }
            }
            3 => { // write at any position
                let i = sym::u64() as usize;
                if i < m.len() { let i = sym::pick(i as u64) as usize; j[i] = val(v); m[i] = v; } else { j[i] = val(v); m.push(v); }
            }
            4 => { // read at any position
                let i = sym::u64() as usize;
                if i < m.len() { let i = sym::pick(i as u64) as usize; sym::check(is_val(&j[i], m[i]), 2003); } else { sym::check(j[i].is_null(), 2004); }
            }
            5 => { // mutation through the iterator
                let mut i = sym::choose(3) as usize;
                if a > 16 && i == 2 { i = a as usize - 1; }
                if let Some(x) = j.members_mut().nth(i) { *x = val(v); }
                if i < m.len() { m[i] = v; }
            }
            6 => { j.clear(); m.clear(); }
            _ => { let d = j.clone(); sym::check(d == j, 2008); j = d; }
        }
        arr_same(&mut j, &m, t & 3);
    }
    for h in 0..4 { arr_same(&mut j, &m, h); }
    if c == 1 {
        // membership: numbers and strings of the model, and absent ones
        for v in 0..30u64 {
            let has = { let mut h = false; for &x in &m { h |= x == v; } h };
            if v & 3 == 0 { sym::check(j.contains(v) == has, 2009); }
            sym::check(j.contains(val(v)) == has, 2009);
        }
    }
    sym::cover(1);
}
/// P20: membership with symbolic content
#[no_mangle]
pub extern "C" fn h_contains(n: u64, _b: u64, _c: u64) {
    let v: Vec<R> = (0..n).map(|_| any(0, 0, false)).collect();
    let x = any(0, 0, false);
    let j = make(&R::Arr(v.clone()));
    let mut w = false;
    for y in &v { w |= same(y, &x); }
    sym::check(j.contains(make(&x)) == w, 2009);
    match &x { R::Bool(b) => sym::check(j.contains(*b) == w, 2010), R::Str(s, _) => sym::check(j.contains(text(s)) == w, 2010), R::Num(k) => sym::check(j.contains(k.num()) == w, 2010), _ => {} }
    sym::check(!make(&x).contains(make(&x)), 2010);
    if w { sym::cover(1); } else { sym::cover(2); }
}

// ---------------------------------------------------------------- access

/// every kind of value: 0 null, 1 false/true, 2 number, 3 short string, 4 long string, 5 owned short string, 6 [], 7 [x], 8 {}, 9 {k: x}
fn kind(k: u64) -> R {
    match k {
        0 => R::Null,
        1 => R::Bool(sym::boolean()),
        2 => R::Num(number(true)),
        3 => R::Str(sym::ascii(2).into_bytes(), false),
        4 => R::Str(sym::ascii(31).into_bytes(), false),
        5 => R::Str(sym::ascii(1).into_bytes(), true),
        6 => R::Arr(vec![]),
        7 => R::Arr(vec![any(1, 1, false), R::Str(sym::ascii(1).into_bytes(), true)]),
        8 => R::Obj(vec![]),
        _ => {
            let (a, b) = (sym::ascii(1).into_bytes(), sym::ascii(1).into_bytes());
            sym::assume(a[0] != b[0]);
            R::Obj(vec![(a, any(1, 1, false)), (b, R::Str(sym::ascii(33).into_bytes(), true))])
        }
    }
}
/// P21: every accessor and operation on every kind. k: kind, op: group of operations
#[no_mangle]
pub extern "C" fn h_access(k: u64, op: u64, _c: u64) {
    let r = kind(k);
    let mut j = make(&r);
    let (isnull, isbool, isnum, isstr, isarr, isobj) = (k == 0, k == 1, k == 2, k >= 3 && k <= 5, k == 6 || k == 7, k >= 8);
    let key = sym::ascii(1);
    let pos = sym::u64() as usize;
    let at = match &r { R::Obj(v) => { let mut a = None; for i in 0..v.len() { if v[i].0[0] == key.as_bytes()[0] { a = Some(i); } } a } _ => None };
    let member = at.is_some();
    let gone = R::Null;
    let own = match (&r, at) { (R::Obj(v), Some(i)) => &v[i].1, _ => &gone };
    match op {
        0 => {
            sym::check(j.is_null() == isnull && j.is_boolean() == isbool && j.is_number() == isnum && j.is_string() == isstr && j.is_array() == isarr && j.is_object() == isobj, 2101);
            sym::check(j.as_bool().is_some() == isbool && j.as_number().is_some() == isnum && j.as_str().is_some() == isstr, 2102);
            sym::check(holds(&j, &r), 2103);
            if !isnum {
                sym::check(j.as_f64().is_none() && j.as_f32().is_none() && j.as_u64().is_none() && j.as_u32().is_none() && j.as_u16().is_none() && j.as_u8().is_none() && j.as_usize().is_none(), 2102);
                sym::check(j.as_i64().is_none() && j.as_i32().is_none() && j.as_i16().is_none() && j.as_i8().is_none() && j.as_isize().is_none(), 2102);
                let p = sym::u16();
                sym::check(j.as_fixed_point_u64(p).is_none() && j.as_fixed_point_i64(p).is_none(), 2102);
            }
            let empty = match &r { R::Null => true, R::Bool(b) => !*b, R::Num(n) => n.nan || n.m == 0, R::Str(s, _) => s.is_empty(), R::Arr(v) => v.is_empty(), R::Obj(v) => v.is_empty() };
            sym::check(j.is_empty() == empty, 2104);
            let len = match &r { R::Arr(v) => v.len(), R::Obj(v) => v.len(), _ => 0 };
            sym::check(j.len() == len, 2105);
            sym::check(j.members().count() == if isarr { len } else { 0 } && j.entries().count() == if isobj { len } else { 0 }, 2105);
            sym::check(j.members().rev().count() == if isarr { len } else { 0 } && j.entries().rev().count() == if isobj { len } else { 0 }, 2105);
            sym::check(j.members_mut().count() == if isarr { len } else { 0 } && j.entries_mut().count() == if isobj { len } else { 0 }, 2105);
        }
        1 => { // reading
            sym::check(j.has_key(&key) == member, 2106);
            sym::check(holds(&j[key.as_str()], own) && holds(&j[&key], own) && holds(&j[key.clone()], own), 2106);
            sym::check(holds(&j["absent"], &gone) && !j.has_key("absent"), 2106);
            match &r { R::Arr(v) if pos < v.len() => { let p = sym::pick(pos as u64) as usize; sym::check(holds(&j[p], &v[p]), 2107); } _ => sym::check(j[pos].is_null(), 2107) }
            sym::check(j["absent"][pos].is_null() && j["a"]["b"]["c"].is_null() && j[7][key.as_str()].is_null(), 2107);
            match own { R::Arr(v) => { for i in 0..v.len() { sym::check(holds(&j[key.as_str()][i], &v[i]), 2107); } } R::Obj(_) => {} _ => sym::check(j[key.as_str()][pos].is_null() && j[key.as_str()][key.as_str()].is_null(), 2107) }
            if !isarr { sym::check(!j.contains(1) && !j.contains("a"), 2107); }
        }
        2 => { // operations for another kind
            if !isarr {
                match j.push(1) { Err(json::Error::WrongType(s)) => sym::check(s == "Array", 2108), _ => sym::fail(2108) }
                sym::check(j.pop().is_null() && j.array_remove(pos).is_null(), 2109);
            }
            if !isobj {
                match j.insert(&key, 1) { Err(json::Error::WrongType(s)) => sym::check(s == "Object", 2108), _ => sym::fail(2108) }
                sym::check(j.remove(&key).is_null(), 2109);
            } else if !member { sym::check(j.remove(&key).is_null(), 2109); }
            else {
                // removing takes exactly the member away
                let d = j.remove(&key);
                sym::check(holds(&d, own) && !j.has_key(&key) && j[&key].is_null(), 2109);
                let mut rest = vec![];
                if let R::Obj(v) = &r { for i in 0..v.len() { if Some(i) != at { rest.push(v[i].clone()); } } }
                sym::check(holds(&j, &R::Obj(rest)), 2109);
                sym::check(j.remove(&key).is_null(), 2109);
                sym::cover(1);
                return;
            }
            if !isstr { sym::check(j.take_string().is_none(), 2109); }
        }
        3 => { // taking
            let d = j.take();
            sym::check(j.is_null() && holds(&d, &r), 2110);
            sym::check(j.take().is_null() && j.is_null(), 2110);
            j = d;
            if let R::Str(s, _) = &r {
                match j.take_string() { Some(t) => sym::check(bytes_eq(t.as_bytes(), s), 2110), None => sym::fail(2110) }
                sym::check(j.is_null() && j.take_string().is_none(), 2110);
                sym::cover(1);
                return;
            }
        }
        4 => { // write through a key
            let v = sym::u64();
            j[key.as_str()] = JsonValue::from(v);
            sym::check(j.is_object() && j[key.as_str()].as_u64() == Some(v), 2111);
            let mut o = match &r { R::Obj(o) => o.clone(), _ => vec![] };
            let new = R::Num(N { neg: false, m: v, e: 0, nan: false });
            match at { Some(i) => o[i].1 = new, None => o.push((key.as_bytes().to_vec(), new)) }
            sym::check(holds(&j, &R::Obj(o)), 2111);
            sym::cover(1);
            return;
        }
        5 => { // write through a position
            let v = sym::u64();
            if isarr && pos < j.len() { let p = sym::pick(pos as u64) as usize; j[p] = JsonValue::from(v); sym::check(j.len() == 2 && j[p].as_u64() == Some(v), 2112); }
            else {
                j[pos] = JsonValue::from(v);
                let n = j.len(); // another kind becomes an array that ends in the value
                sym::check(j.is_array() && (isarr && n == if k == 7 { 3 } else { 1 } || !isarr && (n == 1 || n == 2 && pos > 0 && j[0].is_null())), 2112);
                sym::check(n > 0 && j[n - 1].as_u64() == Some(v), 2112);
                if let R::Arr(a) = &r { for i in 0..a.len() { sym::check(holds(&j[i], &a[i]), 2112); } }
            }
            sym::cover(1);
            return;
        }
        _ => { // clearing
            j.clear();
            match k {
                6 | 7 => sym::check(j.is_array() && j.len() == 0, 2113),
                8 | 9 => sym::check(j.is_object() && j.len() == 0, 2113),
                4 | 5 => sym::check(j.as_str() == Some(""), 2113),
                _ => sym::check(j.is_null(), 2113),
            }
            sym::cover(1);
            return;
        }
    }
    sym::check(holds(&j, &r), 2103);
    sym::cover(1);
}

// ---------------------------------------------------------------- strings

/// P22: a string of n bytes; mode 0: ASCII, 1: ends in up to 3 bytes of any UTF-8, 2: starts with them
#[no_mangle]
pub extern "C" fn h_string(n: u64, mode: u64, _c: u64) {
    let n = n as usize;
    let free = if mode == 0 { 0 } else if n < 3 { n } else { 3 };
    let mut s = vec![0u8; 0];
    let fill = n - free;
    let u = if free > 0 { sym::string(free) } else { String::new() };
    if mode == 2 { s.extend_from_slice(u.as_bytes()); }
    if fill > 1000 { s.resize(s.len() + fill - 8, b'.'); s.extend_from_slice(sym::ascii(8).as_bytes()); } else if fill <= 100 { s.extend_from_slice(sym::ascii(fill).as_bytes()); } else { s.extend_from_slice(sym::ascii(50).as_bytes()); for _ in 0..fill - 100 { s.push(b'.'); } s.extend_from_slice(sym::ascii(50).as_bytes()); }
    if mode != 2 { s.extend_from_slice(u.as_bytes()); }
    let t = unsafe { std::str::from_utf8_unchecked(&s) };
    let mut a = JsonValue::from(t);
    let mut b = JsonValue::from(String::from(t));
    let c = json::from(Some(t));
    let mut o = Object::new();
    o.insert("key", t.into());
    let d = o["key"].clone();
    let e: JsonValue = vec![t].into();
    for j in [&a, &b, &c, &d, &o["key"], &e[0], &a.clone(), &b.clone()] {
        sym::check(j.is_string() && !j.is_null() && !j.is_object(), 2201);
        match j.as_str() { Some(x) => sym::check(x.len() == n && bytes_eq(x.as_bytes(), &s), 2202), None => sym::fail(2202) }
        sym::check(j.is_empty() == (n == 0), 2203);
        sym::check(*j == t && t == *j && *j == *t && *t == *j, 2204);
        sym::check(*j == a && *j == b && a == *j && b == *j, 2204);
        sym::check(j.len() == 0, 2205);
    }
    let x = format!("{}", a);
    let y = format!("{}", b);
    sym::check(bytes_eq(x.as_bytes(), &s) && bytes_eq(y.as_bytes(), &s), 2206);
    // the in-line string itself
    if let JsonValue::Short(x) = &a {
        let y = *x;
        let z = String::from(y);
        let mut other = s.clone();
        if n > 0 { other[n - 1] = if other[n - 1] == b'#' { b'+' } else { b'#' }; }
        sym::check(bytes_eq(x.as_bytes(), &s) && bytes_eq(x.as_str().as_bytes(), &s) && bytes_eq(z.as_bytes(), &s), 2202);
        sym::check(y == *x && y == *t && *t == y && y == z && z == y, 2204);
        let w = format!("{}", y);
        sym::check(bytes_eq(w.as_bytes(), &s), 2206);
        for m in 0..3 {
            let mut o = s.clone();
            match m { 0 => o.push(b'x'), 1 => o.push(0), _ => if o.pop().is_none() { continue; } }
            if mode != 0 && m == 2 || o.len() > 30 { continue; }
            let o = unsafe { String::from_utf8_unchecked(o) };
            sym::check(y != *o.as_str() && *o.as_str() != y && y != o && o != y && y != unsafe { json::short::Short::from_slice(&o) } && a != o.as_str() && o.as_str() != a && a != o && o != a && b != o && a != JsonValue::from(o), 2204);
        }
        if n > 0 && mode == 0 { let o = unsafe { std::str::from_utf8_unchecked(&other) }; sym::check(y != *o && *o != y && y != String::from(o) && String::from(o) != y && y != unsafe { json::short::Short::from_slice(o) }, 2204); }
    }
    let mut c2 = a.clone();
    let mut d2 = b.clone();
    let ta = c2.take();
    sym::check(c2.is_null() && ta == a, 2207);
    let tb = d2.take();
    sym::check(d2.is_null() && tb == b, 2207);
    let (mut c3, mut d3, mut e3) = (a.clone(), b.clone(), JsonValue::from(String::from(t)));
    c3.clear();
    d3.clear();
    e3.clear();
    // a clone of an owned string is one, too
    for j in [&d3, &e3] { sym::check(j.is_string() && j.is_empty() && j.as_str() == Some(""), 2209); }
    sym::check(c3.is_empty() && (c3.is_null() || c3.as_str() == Some("")), 2209);
    match a.take_string() { Some(x) => sym::check(bytes_eq(x.as_bytes(), &s) && a.is_null(), 2208), None => sym::fail(2208) }
    match b.take_string() { Some(x) => sym::check(bytes_eq(x.as_bytes(), &s) && b.is_null(), 2208), None => sym::fail(2208) }
    sym::cover(1);
}

// ---------------------------------------------------------------- construction

/// P24: which: constructor; n: number of elements
#[no_mangle]
pub extern "C" fn h_build(which: u64, n: u64, _c: u64) {
    let n = n as usize;
    match which {
        0 => {
            let v: Vec<u64> = (0..n).map(|_| sym::u64()).collect();
            let mut p = JsonValue::new_array();
            for &x in &v { let _ = p.push(x); }
            let (a, b) = (JsonValue::from(v.clone()), JsonValue::from(&v[..]));
            for j in [&a, &b] { sym::check(j.is_array() && j.len() == n, 2401); for i in 0..n { sym::check(j[i].as_u64() == Some(v[i]), 2402); } sym::check(*j == p, 2403); }
        }
        1 => { // optional strings, nested vectors
            let s: Vec<String> = (0..n).map(|i| sym::ascii(if i & 1 == 0 { 2 } else { 31 })).collect();
            let some: Vec<bool> = (0..n).map(|_| sym::choose(2) == 1).collect();
            let v: Vec<Option<&str>> = (0..n).map(|i| if some[i] { Some(s[i].as_str()) } else { None }).collect();
            let j = JsonValue::from(vec![v.clone(), vec![None]]);
            sym::check(j.len() == 2 && j[0].len() == n && j[1].len() == 1 && j[1][0].is_null(), 2401);
            let k = JsonValue::from(&v[..]);
            let owned: Vec<String> = s.clone();
            let l = JsonValue::from(owned);
            sym::check(k == j[0], 2403);
            for i in 0..n {
                if some[i] { sym::check(j[0][i] == s[i].as_str(), 2402); } else { sym::check(j[0][i].is_null() && j[0].len() == n, 2402); }
                sym::check(l[i] == s[i].as_str(), 2402);
            }
        }
        2 => { // pairs, repeated keys possible
            let ks: Vec<String> = (0..n).map(|_| sym::ascii(1)).collect();
            let vs: Vec<u64> = (0..n).map(|_| sym::u64()).collect();
            let o: Object = ks.iter().zip(vs.iter().cloned()).collect();
            let mut p = Object::new();
            for i in 0..n { p.insert(&ks[i], vs[i].into()); }
            // last value of each key, in order of first appearance
            let mut want: Vec<(usize, u64)> = vec![];
            'l: for i in 0..n { for w in want.iter_mut() { if ks[w.0].as_bytes()[0] == ks[i].as_bytes()[0] { w.1 = vs[i]; continue 'l; } } want.push((i, vs[i])); }
            sym::check(o.len() == want.len() && p.len() == want.len(), 2404);
            for (x, w) in o.iter().zip(want.iter()) { sym::check(bytes_eq(x.0.as_bytes(), ks[w.0].as_bytes()) && x.1.as_u64() == Some(w.1), 2405); }
            for (x, y) in o.iter().zip(p.iter()) { sym::check(x == y, 2403); }
            sym::check(o == p, 2403);
        }
        3 => { // ordered map
            let mut m = std::collections::BTreeMap::new();
            for _ in 0..n { m.insert(sym::ascii(1), sym::u64()); }
            let j = JsonValue::from(m.clone());
            sym::check(j.is_object() && j.len() == m.len(), 2404);
            for ((k, v), (l, w)) in j.entries().zip(m.iter()) { sym::check(bytes_eq(k.as_bytes(), l.as_bytes()) && v.as_u64() == Some(*w), 2405); }
        }
        4 => { // hash map with fixed keys
            let names = ["alpha", "beta", "a key of more than thirty-two characters", "", "x"];
            let vs: Vec<u64> = (0..n).map(|_| sym::u64()).collect();
            let mut m = std::collections::HashMap::new();
            for i in 0..n { m.insert(names[i], vs[i]); }
            let order: Vec<&str> = m.keys().cloned().collect();
            let j = JsonValue::from(m);
            sym::check(j.is_object() && j.len() == n, 2404);
            for i in 0..n { sym::check(j[names[i]].as_u64() == Some(vs[i]), 2405); }
            for ((k, _), l) in j.entries().zip(order.iter()) { sym::check(k == *l, 2406); }
        }
        5 => { // macros
            let (a, b, c) = (sym::u64(), sym::u16() as i16, sym::boolean());
            let s = sym::ascii(2);
            let t = s.as_str();
            let j = json::array![a, null, [b, [], [null]], { "x": c, y: t, [t]: a }, {}, t, a + 0, "lit",];
            sym::check(j.is_array() && j.len() == 8, 2407);
            sym::check(j[0].as_u64() == Some(a) && j[1].is_null() && j[6].as_u64() == Some(a) && j[7] == "lit" && j[5] == t, 2407);
            sym::check(j[2].is_array() && j[2].len() == 3 && j[2][0].as_i16() == Some(b) && j[2][1].is_array() && j[2][1].len() == 0 && j[2][2].len() == 1 && j[2][2][0].is_null(), 2407);
            let o = &j[3];
            sym::check(o.is_object() && o.len() == 3 && o["x"].as_bool() == Some(c) && o["y"] == t && o[t].as_u64() == Some(a), 2408);
            let mut it = o.entries();
            sym::check(it.next().map(|e| e.0) == Some("x") && it.next().map(|e| e.0) == Some("y") && it.next().map(|e| e.0) == Some(t) && it.next().is_none(), 2408);
            sym::check(j[4].is_object() && j[4].len() == 0, 2408);
            let l = json::object! { "k" => a, t => b, "n" => json::Null, "k" => c };
            sym::check(l.is_object() && l.len() == 3 && l["k"].as_bool() == Some(c) && l[t].as_i16() == Some(b) && l["n"].is_null() && l.has_key("n"), 2408);
            sym::check(json::object! {}.is_object() && json::array![].is_array() && json::array![null].len() == 1, 2407);
            let f = json::object! { x: a & 1, "y": -1, [t]: s.len(), z: [a % 3, b], w: { v: c } };
            sym::check(f["x"] == a & 1 && f["y"].as_i64() == Some(-1) && f.len() == 5 && f[t] == 2 && f["z"][0] == a % 3 && f["z"][1] == b && f["w"]["v"] == c, 2408);
            let f = json::object! { k: a, l: null, k: !c, l: [c], m: a / 2 + 1, };
            sym::check(f.len() == 3 && f["k"] == !c && f["l"].is_array() && f["l"][0] == c && f["m"] == a / 2 + 1, 2408);
            let e: Vec<&str> = f.entries().map(|e| e.0).collect();
            sym::check(e == ["k", "l", "m"], 2408);
            let f = json::array![a / 3, !c, -7, (b), t.len()];
            sym::check(f.len() == 5 && f[0] == a / 3 && f[1] == !c && f[2] == -7 && f[3] == b && f[4] == 2, 2407);
            let big = json::object! { one: { two: { three: [1, 2, { four: null }] } }, "a long key, longer than the in-line buffer": [a, b], last: null };
            sym::check(big.len() == 3 && big["one"]["two"]["three"][2].has_key("four") && big["one"]["two"]["three"][1] == 2 && big["a long key, longer than the in-line buffer"][0] == a && big["a long key, longer than the in-line buffer"][1] == b && big.has_key("last"), 2408);
        }
        _ => { // scalars
            let (a, b) = (sym::u64(), sym::boolean());
            let s = sym::ascii(3);
            sym::check(JsonValue::from(Some(a)).as_u64() == Some(a) && JsonValue::from(None::<u64>).is_null(), 2409);
            sym::check(JsonValue::from(b).as_bool() == Some(b) && json::from(b) == b, 2409);
            sym::check(JsonValue::from(Some(Some(s.as_str()))) == s.as_str() && JsonValue::from(Some(None::<bool>)).is_null(), 2409);
            let mut o = Object::new();
            o.insert(&s, a.into());
            let j = JsonValue::from(o.clone());
            sym::check(j.is_object() && j[&s].as_u64() == Some(a) && j == o, 2409);
            let n: Number = a.into();
            sym::check(JsonValue::from(n).as_number() == Some(n), 2409);
            let st: String = s.clone();
            sym::check(JsonValue::from(st) == s.as_str() && json::from(s.clone()) == s.as_str(), 2409);
        }
    }
    sym::cover(1);
}

/// P24: many elements under fixed keys, contents symbolic; which: 0 vector and slice, 1 pairs with every third key
/// repeated, 2 ordered map, 3 iterators over strings, options and nested collections
#[no_mangle]
pub extern "C" fn h_build_many(which: u64, n: u64, _c: u64) {
    let n = n as usize;
    let free = if which == 4 { sym::choose(n.min(8) as u64) as usize } else { 0 };
    let v: Vec<u64> = (0..n).map(|i| if which == 4 && i != free && i + 1 != n { i as u64 } else { let x = sym::u64(); if i > 0 { sym::assume(x != 0); } x }).collect();
    let name = |i: usize| format!("{}{}", if i % 2 == 0 { "k" } else { "a key of more than thirty-two characters, " }, i);
    match which {
        0 => {
            let mut p = JsonValue::new_array();
            for &x in &v { let _ = p.push(x); }
            for j in [JsonValue::from(v.clone()), JsonValue::from(&v[..])].iter() {
                sym::check(j.is_array() && j.len() == n, 2401);
                for (x, i) in j.members().zip(0..) { sym::check(x.as_u64() == Some(v[i]), 2402); }
                sym::check(*j == p, 2403);
            }
        }
        1 => {
            let keys: Vec<String> = (0..n).map(|i| name(if i % 3 == 2 { i / 2 } else { i })).collect();
            let o: Object = keys.iter().zip(v.iter().cloned()).collect();
            let mut p = Object::new();
            let mut want: Vec<(usize, u64)> = vec![];
            'l: for i in 0..n {
                p.insert(&keys[i], v[i].into());
                for w in want.iter_mut() { if keys[w.0] == keys[i] { w.1 = v[i]; continue 'l; } }
                want.push((i, v[i]));
            }
            sym::check(o.len() == want.len(), 2404);
            // iterators that do not know how many they are
            let mut i = 0;
            let q: Object = std::iter::from_fn(|| { i += 1; if i <= n { Some((keys[i - 1].as_str(), v[i - 1])) } else { None } }).collect();
            let (e, f): (Vec<_>, Vec<_>) = (0..n).map(|i| (keys[i].clone(), v[i])).partition(|x| x.0.len() > 32);
            let r: Object = e.into_iter().chain(f.into_iter().filter(|x| x.0.len() != 1)).collect();
            sym::check(q.len() == want.len() && r.len() == want.len(), 2404);
            for (x, w) in q.iter().zip(want.iter()) { sym::check(x.0 == keys[w.0] && x.1.as_u64() == Some(w.1), 2405); }
            for (x, w) in want.iter().map(|w| (r.get(&keys[w.0]), w)) { sym::check(match x { Some(x) => x.as_u64() == Some(w.1), None => false }, 2405); }
            for (x, w) in o.iter().zip(want.iter()) { sym::check(x.0 == keys[w.0] && x.1.as_u64() == Some(w.1), 2405); sym::check(o.get(x.0) == Some(x.1), 2405); }
            sym::check(o == p, 2403);
        }
        2 => {
            let mut m = std::collections::BTreeMap::new();
            for i in 0..n { m.insert(name(i * 7 % n), v[i]); }
            let j = JsonValue::from(m.clone());
            sym::check(j.is_object() && j.len() == n, 2404);
            for ((k, x), (l, w)) in j.entries().zip(m.iter()) { sym::check(k == l && x.as_u64() == Some(*w), 2406); }
            for i in 0..n { sym::check(j[name(i * 7 % n)].as_u64() == Some(v[i]), 2405); }
        }
        4 => { // iterators of pairs of every degree of knowledge about their length
            let a = (0..n).map(|i| (name(i), v[i]));
            let mut i = 0;
            let b = std::iter::from_fn(|| { i += 1; if i <= n { Some((name(i - 1), v[i - 1])) } else { None } });
            // more announced than there are, and exactly half
            let c = (0..2 * n).filter(|i| i % 2 == 0).map(|i| (name(i / 2), v[i / 2]));
            let d = (0..n / 2).map(|i| (name(i), v[i])).chain((n / 2..n).map(|i| (name(i), v[i])));
            let (a, b, c, d): (Object, Object, Object, Object) = (a.collect(), b.collect(), c.collect(), d.collect());
            for o in [&a, &b, &c, &d].iter() {
                sym::check(o.len() == n, 2404);
                for (x, i) in o.iter().zip(0..) { sym::check(x.0 == name(i) && x.1.as_u64() == Some(v[i]), 2405); }
                for i in 0..n { sym::check(o[name(i).as_str()].as_u64() == Some(v[i]), 2405); }
            }
            sym::check(a == b && c == d, 2403);
        }
        _ => {
            let j = JsonValue::from((0..n).map(|i| vec![Some(name(i)), None]).collect::<Vec<_>>());
            sym::check(j.is_array() && j.len() == n, 2401);
            for i in 0..n { sym::check(j[i].len() == 2 && j[i][0] == name(i) && j[i][1].is_null(), 2402); }
            let j = JsonValue::from((0..n).map(|i| { let mut m = std::collections::BTreeMap::new(); m.insert("x", v[i]); m.insert("y", i as u64); m }).collect::<Vec<_>>());
            sym::check(j.is_array() && j.len() == n, 2401);
            for i in 0..n { sym::check(j[i].len() == 2 && j[i]["x"].as_u64() == Some(v[i]) && j[i]["y"].as_usize() == Some(i), 2402); }
        }
    }
    sym::cover(1);
}

/// P20: arrays of very many elements
#[no_mangle]
pub extern "C" fn h_array_many(n: u64, _b: u64, _c: u64) {
    let n = n as usize;
    let at = [0, 1, 127, 128, 255, 256, 257, 65535, 65536, n / 2, n - 2, n - 1][sym::choose(12) as usize];
    if at >= n { sym::assume(false); }
    let x = sym::u64();
    let mut j = JsonValue::new_array();
    let mut m: Vec<u64> = vec![];
    for i in 0..n as u64 { sym::check(j.push(i).is_ok(), 2005); m.push(i); }
    j[at] = x.into();
    m[at] = x;
    let same = |j: &JsonValue, m: &[u64], e: u32| {
        sym::check(j.len() == m.len() && j.members().len() == m.len(), 2001);
        for (v, w) in j.members().zip(m.iter()) { sym::check(v.as_u64() == Some(*w), e); }
    };
    same(&j, &m, 2002);
    sym::check(j[at].as_u64() == Some(x) && j[n].is_null() && j[n + at].is_null(), 2003);
    let mut d = j.clone();
    sym::check(d == j, 2008);
    if n <= 1000 { sym::check(d.contains(x), 2009); }
    sym::check(d.array_remove(at).as_u64() == Some(x), 2007);
    m.remove(at);
    same(&d, &m, 2002);
    if at + 1 < n { sym::check(d[at].as_u64() == Some(at as u64 + 1), 2003); }
    d[n + 5] = 7.into();
    m.push(7);
    sym::check(d.pop().as_u64() == m.pop(), 2006);
    for (v, w) in d.members_mut().rev().zip(m.iter_mut().rev()).take(300) { *w += 1; *v = (*w).into(); }
    same(&d, &m, 2002);
    if n <= 1000 { sym::check(d.contains(n as u64) == m.contains(&(n as u64)), 2009); }
    d.clear();
    sym::check(d.is_empty() && j.len() == n, 2001);
    sym::cover(1);
}

// ---------------------------------------------------------------- histories across kinds

static MIX_KEYS: [&str; 3] = ["a", "", "a key that is too long to be stored in line"];
fn mix_value(t: u64, k: u64) -> R {
    match (t + k) % 4 {
        0 => R::Num(N { neg: false, m: 40 + t, e: 0, nan: false }),
        1 => R::Str(b"short".to_vec(), t & 1 == 1),
        2 => R::Str(b"a text that is too long to be stored in line".to_vec(), false),
        _ => R::Arr(vec![R::Obj(vec![(b"in".to_vec(), R::Bool(true))])]),
    }
}
fn put(r: &mut R, key: &str, v: R) {
    if let R::Obj(_) = r {} else { *r = R::Obj(vec![]); }
    if let R::Obj(o) = r {
        for (k, x) in o.iter_mut() { if bytes_eq(k, key.as_bytes()) { *x = v; return; } }
        o.push((key.as_bytes().to_vec(), v));
    }
}
fn cut(r: &mut R, key: &str) -> R {
    if let R::Obj(o) = r { for i in 0..o.len() { if bytes_eq(&o[i].0, key.as_bytes()) { return o.remove(i).1; } } }
    R::Null
}
/// what a write through position p leaves; another kind becomes an array that ends in the value, in the code's choice of length
fn set_at(r: &mut R, p: usize, v: R, len: usize) {
    match r {
        R::Arr(a) => if p < a.len() { a[p] = v } else { a.push(v) },
        _ => *r = R::Arr(if len == 2 && p > 0 { vec![R::Null, v] } else { vec![v] }),
    }
}
/// P21: every history of operations of all kinds on a value of kind k, against a reference value; c 1: only what every
/// path must obey (memory, panics), for P18
#[no_mangle]
pub extern "C" fn h_mix(k: u64, steps: u64, c: u64) {
    let check = |x: bool, id: u32| if c == 0 { sym::check(x, id) };
    let mut m = match k {
        0 => R::Null, 1 => R::Bool(true), 2 => R::Num(N { neg: true, m: 3, e: -1, nan: false }), 3 => R::Str(b"x".to_vec(), false), 4 => R::Str(b"owned".to_vec(), true),
        5 => R::Str(MIX_KEYS[2].as_bytes().to_vec(), false), 6 => R::Arr(vec![]), 7 => R::Arr(vec![R::Bool(false), R::Str(b"y".to_vec(), true)]), 8 => R::Obj(vec![]),
        _ => R::Obj(vec![(b"a".to_vec(), R::Arr(vec![R::Null])), (MIX_KEYS[2].as_bytes().to_vec(), R::Str(b"z".to_vec(), true))]),
    };
    let mut j = make(&m);
    for t in 0..steps {
        let op = sym::choose(12);
        let key = if op >= 2 && op <= 4 || op == 10 { MIX_KEYS[sym::choose(3) as usize] } else { "a" };
        let v = mix_value(t, k);
        let isobj = if let R::Obj(_) = m { true } else { false };
        match op {
            0 => { // push
                let r = j.push(make(&v));
                if let R::Arr(a) = &mut m { check(r.is_ok(), 2121); a.push(v); } else { match r { Err(json::Error::WrongType(s)) => check(s == "Array", 2121), _ => check(false, 2121) } }
            }
            1 => { let x = j.pop(); let w = if let R::Arr(a) = &mut m { a.pop().unwrap_or(R::Null) } else { R::Null }; check(holds(&x, &w), 2121); }
            2 => { // insert
                let r = j.insert(key, make(&v));
                if isobj { check(r.is_ok(), 2121); put(&mut m, key, v); } else { match r { Err(json::Error::WrongType(s)) => check(s == "Object", 2121), _ => check(false, 2121) } }
            }
            3 => { let x = j.remove(key); let w = cut(&mut m, key); check(holds(&x, &w), 2121); }
            4 => { j[key] = make(&v); put(&mut m, key, v); }
            5 => { let p = sym::choose(3) as usize; j[p] = make(&v); let n = j.len(); set_at(&mut m, p, v, n); }
            6 => {
                j.clear();
                m = match m { R::Arr(_) => R::Arr(vec![]), R::Obj(_) => R::Obj(vec![]), R::Str(s, h) => if j.is_null() && !h { R::Null } else { R::Str(s[..0].to_vec(), h) }, _ => R::Null };
            }
            7 => { let x = j.take(); check(holds(&x, &m) && j.is_null(), 2121); if sym::choose(2) == 0 { m = R::Null } else { j = x } }
            8 => { match (j.take_string(), &m) { (Some(s), R::Str(w, _)) => { check(bytes_eq(s.as_bytes(), w), 2121); m = R::Null } (None, R::Str(..)) | (Some(_), _) => check(false, 2121), _ => {} } }
            9 => {
                let p = sym::choose(3) as usize;
                let x = j.array_remove(p);
                let w = match &mut m { R::Arr(a) if p < a.len() => a.remove(p), _ => R::Null };
                check(holds(&x, &w), 2121);
            }
            10 => { // write through two levels
                j[key]["b"] = make(&v);
                let mut inner = cut_copy(&m, key);
                put(&mut inner, "b", v);
                put(&mut m, key, inner);
            }
            _ => { // through a key and a position
                let p = sym::choose(2) as usize;
                j["a"][p] = make(&v);
                let n = j["a"].len();
                let mut inner = cut_copy(&m, "a");
                set_at(&mut inner, p, v, n);
                put(&mut m, "a", inner);
            }
        }
        check(holds(&j, &m), 2122);
        let kinds = j.is_null() as u8 + j.is_boolean() as u8 + j.is_number() as u8 + j.is_string() as u8 + j.is_array() as u8 + j.is_object() as u8;
        check(kinds == 1, 2101);
    }
    let d = j.clone();
    drop(j);
    check(holds(&d, &m), 2122);
    for k in MIX_KEYS.iter() { let own = cut_copy(&m, k); check(holds(&d[*k], &own), 2122); }
    sym::cover(1);
}
fn cut_copy(r: &R, key: &str) -> R { if let R::Obj(o) = r { for (k, x) in o { if bytes_eq(k, key.as_bytes()) { return x.clone(); } } } R::Null }
