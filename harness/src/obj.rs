//! Histories of operations on objects and values, against a plain list (P17, P18).
use crate::sym;
use json::object::Object;
use json::JsonValue;

const MAX: usize = 72;
/// reference object: key slots and values in insertion order
#[derive(Clone, Copy)]
pub struct Model { pub n: usize, pub slot: [usize; MAX], pub val: [u64; MAX] }
impl Model {
    pub fn new() -> Model { Model { n: 0, slot: [0; MAX], val: [0; MAX] } }
    pub fn find(&self, s: usize) -> Option<usize> { let mut i = 0; while i < self.n { if self.slot[i] == s { return Some(i); } i += 1; } None }
    pub fn get(&self, s: usize) -> Option<u64> { self.find(s).map(|i| self.val[i]) }
    pub fn set(&mut self, s: usize, v: u64) { match self.find(s) { Some(i) => self.val[i] = v, None => { self.slot[self.n] = s; self.val[self.n] = v; self.n += 1; } } }
    pub fn remove(&mut self, s: usize) -> Option<u64> {
        let i = self.find(s)?;
        let v = self.val[i];
        let mut k = i;
        while k + 1 < self.n { self.slot[k] = self.slot[k + 1]; self.val[k] = self.val[k + 1]; k += 1; }
        self.n -= 1;
        Some(v)
    }
}

static LONG: &str = "a text that does not fit in line, for value number ";
/// values of all storage kinds, told apart by number
pub fn val(v: u64) -> JsonValue {
    match v & 3 {
        0 => JsonValue::from(v),
        1 => { let mut s = String::from(LONG); s.push((b'A' + (v >> 2) as u8) as char); JsonValue::from(s) }
        2 => { let mut a = JsonValue::new_array(); let _ = a.push(v); let _ = a.push(LONG); a }
        _ => { let mut o = Object::with_capacity(1); o.insert(LONG, JsonValue::from(v)); JsonValue::Object(o) }
    }
}
pub fn is_val(j: &JsonValue, v: u64) -> bool {
    match v & 3 {
        0 => j.as_u64() == Some(v),
        1 => match j.as_str() { Some(s) => s.len() == LONG.len() + 1 && s.as_bytes()[LONG.len()] == b'A' + (v >> 2) as u8 && s[..LONG.len()] == *LONG, None => false },
        2 => j.is_array() && j.len() == 2 && j[0].as_u64() == Some(v) && j[1].as_str() == Some(LONG),
        _ => j.is_object() && j.len() == 1 && j[LONG].as_u64() == Some(v),
    }
}

/// n different keys; kind 0: one symbolic character, 1: lengths 0 1 2 3 31 32 33 34 40 with a symbolic last
/// character, 2: 32 characters, 3: 33 characters, 4: two keys with the same hash and others, 5: two symbolic characters, 6: fixed keys
pub fn keys(kind: u64, n: usize) -> Vec<String> {
    static LEN: [usize; 9] = [32, 33, 0, 1, 2, 31, 34, 3, 40];
    let mut v: Vec<String> = Vec::with_capacity(n);
    // 11 characters each; every choice of one per pair gives the same hash
    static SAME: [[&[u8]; 2]; 3] = [[b"vRqtNLTXrkB", b"duBiEKP8YwH"], [b"Km4qbZpdCUF", b"boO4G4zF6YC"], [b"oHrc5TQN1ZG", b"93mrozfDr3A"]];
    if kind == 7 || kind == 8 {
        for i in 0..n {
            let parts = if kind == 7 { 2 } else { 3 };
            let mut s = Vec::new();
            if i < 4 { for p in 0..parts { s.extend_from_slice(SAME[p][i >> p & 1]); } } else { let c = sym::u8(); sym::assume(c < 0x80); if i > 4 { sym::assume(c != v[i - 1].as_bytes()[0]); } s.push(c); }
            v.push(unsafe { String::from_utf8_unchecked(s) });
        }
        return v;
    }
    for i in 0..n {
        let (len, free) = match kind { 0 => (1, 1), 1 => (LEN[i], 1), 2 => (32, 1), 3 => (33, 1), 4 => (if i < 2 { 20 } else { 1 }, 1), 6 => (2 + i % 2 * 32, 0), _ => (2, 2) };
        let mut s = vec![b'k'; len];
        if kind == 4 && i < 2 { s.copy_from_slice(if i == 0 { b"8yn0iYCKYHlIj4-BwPqk" } else { b"GReLUrM4wMqfg9yzV3KQ" }); }
        else if kind == 6 { s[0] = b'a' + (i % 26) as u8; s[1] = b'k' + (i / 26) as u8; }
        else { let f = if free < len { free } else { len }; for k in len - f..len { let c = sym::u8(); sym::assume(c < 0x80); s[k] = c; } }
        for o in v.iter() { if o.len() == len { let mut d = false; for k in 0..len { d |= o.as_bytes()[k] != s[k]; } sym::assume(d); } }
        v.push(unsafe { String::from_utf8_unchecked(s) });
    }
    v
}

/// the value holds exactly the entries of the model, seen through every way of reading it
pub fn verify(j: &mut JsonValue, keys: &[String], m: &Model, how: u64, base: u32) {
    sym::check(j.is_object() && j.len() == m.n && j.is_empty() == (m.n == 0), base);
    for (s, k) in keys.iter().enumerate() {
        let want = m.get(s);
        let k = k.as_str();
        match how {
            0 => {
                let o = match j { JsonValue::Object(o) => o, _ => sym::fail(base) };
                match (o.get(k), want) { (Some(x), Some(v)) => sym::check(is_val(x, v), base + 1), (None, None) => {} _ => sym::fail(base + 2) }
            }
            1 => {
                let o = match j { JsonValue::Object(o) => o, _ => sym::fail(base) };
                match (o.get_mut(k), want) { (Some(x), Some(v)) => sym::check(is_val(x, v), base + 1), (None, None) => {} _ => sym::fail(base + 2) }
                let x = match s % 3 { 0 => &o[k], 1 => &o[&keys[s]], _ => &o[keys[s].clone()] };
                match want { Some(v) => sym::check(is_val(x, v), base + 1), None => sym::check(x.is_null(), base + 2) }
            }
            _ => {
                sym::check(j.has_key(k) == want.is_some(), base + 2);
                match want { Some(v) => sym::check(is_val(&j[k], v), base + 1), None => sym::check(j[k].is_null(), base + 2) }
            }
        }
    }
    let same = |i: usize, k: &str, v: &JsonValue| sym::check(k.as_bytes() == keys[m.slot[i]].as_bytes() && is_val(v, m.val[i]), base + 3);
    match how {
        0 => {
            let o = match j { JsonValue::Object(o) => o, _ => sym::fail(base) };
            let mut it = o.iter();
            sym::check(it.len() == m.n, base);
            for i in 0..m.n { match it.next() { Some((k, v)) => same(i, k, v), None => sym::fail(base + 3) } }
            sym::check(it.next().is_none() && it.next_back().is_none(), base + 3);
        }
        1 => {
            let o = match j { JsonValue::Object(o) => o, _ => sym::fail(base) };
            let mut it = o.iter_mut();
            sym::check(it.len() == m.n, base);
            for i in (0..m.n).rev() { match it.next_back() { Some((k, v)) => same(i, k, v), None => sym::fail(base + 3) } }
            sym::check(it.next_back().is_none() && it.next().is_none(), base + 3);
        }
        2 => {
            // from both ends
            let mut it = j.entries();
            let (mut a, mut b) = (0, m.n);
            while a < b {
                sym::check(it.len() == b - a, base + 3);
                match it.next() { Some((k, v)) => same(a, k, v), None => sym::fail(base + 3) }
                a += 1;
                if a < b { b -= 1; match it.next_back() { Some((k, v)) => same(b, k, v), None => sym::fail(base + 3) } }
            }
            sym::check(it.next().is_none() && it.next_back().is_none() && it.len() == 0, base + 3);
        }
        _ => {
            let mut it = j.entries_mut();
            for i in 0..m.n { sym::check(it.len() == m.n - i, base + 3); match it.next() { Some((k, v)) => same(i, k, v), None => sym::fail(base + 3) } }
            sym::check(it.next().is_none() && it.len() == 0, base + 3);
        }
    }
}

fn obj(j: &mut JsonValue) -> &mut Object { match j { JsonValue::Object(o) => o, _ => sym::fail(1700) } }

/// write `v` under key slot `s` in one of several ways
pub fn write(j: &mut JsonValue, m: &mut Model, keys: &[String], s: usize, v: u64, how: u64) {
    let k = keys[s].as_str();
    match how {
        0 => obj(j).insert(k, val(v)),
        1 => sym::check(j.insert(k, val(v)).is_ok(), 1705),
        2 => match v % 3 { 0 => obj(j)[k] = val(v), 1 => obj(j)[&keys[s]] = val(v), _ => obj(j)[keys[s].clone()] = val(v) },
        3 => j[k] = val(v),
        4 => if v & 1 == 0 { j[&keys[s]] = val(v) } else { j[keys[s].clone()] = val(v) },
        5 => match obj(j).get_mut(k) { Some(x) => *x = val(v), None => obj(j).insert(k, val(v)) },
        _ => { // through a mutable iterator when present
            let mut done = false;
            for (k2, x) in j.entries_mut() { if k2.as_bytes() == k.as_bytes() { *x = val(v); done = true; } }
            if !done { obj(j).insert(k, val(v)); }
        }
    }
    m.set(s, v);
}
pub fn remove(j: &mut JsonValue, m: &mut Model, keys: &[String], s: usize, how: u64) {
    let k = keys[s].as_str();
    match (how, m.remove(s)) {
        (0, w) => match (obj(j).remove(k), w) { (Some(x), Some(v)) => sym::check(is_val(&x, v), 1706), (None, None) => {} _ => sym::fail(1706) },
        (_, w) => { let x = j.remove(k); match w { Some(v) => sym::check(is_val(&x, v), 1706), None => sym::check(x.is_null(), 1706) } }
    }
}

/// P17: a history on one object. a: key kind | keys << 8; b: first keys inserted | steps << 8;
/// c: 0..6 way to write and remove, 7 any way in every step; | 16 inserts and removals only
#[no_mangle]
pub extern "C" fn h_obj(a: u64, b: u64, c: u64) {
    let (kind, n, init, steps) = (a & 255, (a >> 8) as usize, (b & 255) as usize, b >> 8);
    let ks = keys(kind, n);
    let mut j = if c & 32 != 0 { JsonValue::Object(Object::with_capacity(2)) } else { JsonValue::new_object() };
    let mut m = Model::new();
    let fixed = c & 15;
    let mut used = 0;
    for s in 0..init { write(&mut j, &mut m, &ks, s, s as u64, if fixed < 7 { fixed } else { 0 }); used = s + 1; }
    if init > 0 { verify(&mut j, &ks, &m, 0, 1700); }
    let symmetric = kind == 0 || kind == 2 || kind == 3 || kind == 5; // unused slots are interchangeable
    for t in 0..steps {
        let v = 10 + t;
        let how = if fixed == 7 { sym::choose(7) } else { fixed };
        let op = sym::choose(if c & 16 != 0 { 2 } else { 4 });
        if op < 2 {
            let lim = if symmetric { if used + 1 < n { used + 1 } else { n } } else { n };
            let s = sym::choose(lim as u64) as usize;
            if s >= used { used = s + 1; }
            if op == 0 { write(&mut j, &mut m, &ks, s, v, how); } else { remove(&mut j, &mut m, &ks, s, how & 1); }
        } else if op == 2 {
            if how & 1 == 0 { obj(&mut j).clear(); } else { j.clear(); }
            m.n = 0;
        } else if how == 2 || how == 3 || how == 6 { // the last member overwritten; nothing happens to an empty object
            #[allow(deprecated)]
            obj(&mut j).override_last(val(v));
            if m.n > 0 { m.val[m.n - 1] = v; }
        } else {
            let d = j.clone();
            verify(&mut j, &ks, &m, 0, 1700);
            j = d;
        }
        verify(&mut j, &ks, &m, t & 3, 1700);
    }
    verify(&mut j, &ks, &m, 0, 1700);
    verify(&mut j, &ks, &m, 1, 1700);
    verify(&mut j, &ks, &m, 2, 1700);
    verify(&mut j, &ks, &m, 3, 1700);
    sym::cover(1);
}

/// P18: histories on two objects that started as clones, either may be dropped at any time
#[no_mangle]
pub extern "C" fn h_clone(a: u64, b: u64, c: u64) {
    let (kind, n, init, steps) = (a & 255, (a >> 8) as usize, (b & 255) as usize, b >> 8);
    let ks = keys(kind, n);
    let mut j = [JsonValue::new_object(), JsonValue::Null];
    let mut m = [Model::new(), Model::new()];
    for s in 0..init { write(&mut j[0], &mut m[0], &ks, s, s as u64, 0); }
    j[1] = j[0].clone();
    m[1] = m[0];
    sym::check(j[0] == j[1], 1801);
    for t in 0..steps {
        let w = if t == 0 { 0 } else { sym::choose(2) as usize }; // symmetric at the start
        match sym::choose(5) {
            0 => { let s = sym::choose(n as u64) as usize; write(&mut j[w], &mut m[w], &ks, s, 10 + t, c); }
            1 => { let s = sym::choose(n as u64) as usize; remove(&mut j[w], &mut m[w], &ks, s, c & 1); }
            2 => { let d = j[w].clone(); j[1 - w] = d; m[1 - w] = m[w]; sym::check(j[0] == j[1] && j[1] == j[0], 1801); }
            3 => { j[w] = JsonValue::new_object(); m[w].n = 0; }
            _ => { let d = j[w].take(); sym::check(j[w].is_null(), 1802); j[1 - w] = d; m[1 - w] = m[w]; j[w] = JsonValue::new_object(); m[w].n = 0; }
        }
        verify(&mut j[0], &ks, &m[0], t & 3, 1810);
        verify(&mut j[1], &ks, &m[1], (t + 1) & 3, 1810);
    }
    sym::cover(1);
    let [x, y] = j;
    if c & 1 == 0 { drop(x); let mut y = y; verify(&mut y, &ks, &m[1], 0, 1810); } else { drop(y); let mut x = x; verify(&mut x, &ks, &m[0], 0, 1810); }
}

/// P17, P18: objects of very many members or very long keys. c: 0 keys of 2-60 characters, 1 keys of
/// 0, 1, 2, ... characters, 2 keys of lengths around 2^8 and 2^16; | 4 without removals
#[no_mangle]
pub extern "C" fn h_obj_many(n: u64, base: u64, c: u64) {
    static LEN: [usize; 8] = [65536, 255, 257, 256, 65537, 65535, 0, 32];
    let n = n as usize;
    let base = base as u32;
    let key = |i: usize| -> String {
        match c & 3 {
            0 => if i % 3 == 1 { format!("a key of more than thirty-two characters, {}", i) } else { format!("k{}", i) },
            1 => "x".repeat(i),
            _ => { let mut s = "y".repeat(LEN[i % 8]); s.push((b'a' + (i / 8) as u8) as char); s }
        }
    };
    let at = [0, 1, 2, 254, 255, 256, 257, n / 2, n - 2, n - 1][sym::choose(10) as usize];
    if at >= n { sym::assume(false); }
    let quick = c & 8 != 0;
    if quick { sym::assume(at == 257 || at == n - 1); }
    let x = sym::u64();
    let mut o = Object::new();
    for i in 0..n { o.insert(&key(i), JsonValue::from(i)); }
    // members in order, found by key
    let all = |o: &Object, at: usize, x: Option<u64>, gone: bool| {
        let want = |i: usize| if i == at { x } else { Some(i as u64) };
        let mut i = 0;
        sym::check(o.len() == if gone { n - 1 } else { n }, base);
        for (k, v) in o.iter() {
            if gone && i == at { i += 1; }
            sym::check(i < n && k == key(i) && v.as_u64() == want(i), base + 3);
            i += 1;
        }
        if gone && i == at { i += 1; }
        sym::check(i == n, base + 3);
        for i in 0..n { match o.get(&key(i)) { Some(v) => sym::check(!(gone && i == at) && v.as_u64() == want(i), base + 1), None => sym::check(gone && i == at, base + 2) } }
    };
    let k = key(at);
    if !quick { all(&o, n, None, false); }
    sym::check(o.get("no such key").is_none() && o["none, either"].is_null(), base + 2);
    match if quick { 0 } else { sym::choose(3) } { 0 => o.insert(&k, x.into()), 1 => o[&k] = x.into(), _ => match o.get_mut(&k) { Some(v) => *v = x.into(), None => sym::fail(base + 1) } }
    all(&o, at, Some(x), false);
    if c & 4 == 0 {
        let mut d = o.clone();
        sym::check(d == o, base);
        match d.remove(&k) { Some(v) => sym::check(v.as_u64() == Some(x), base + 1), None => sym::fail(base + 1) }
        all(&d, at, None, true);
        all(&o, at, Some(x), false);
        sym::check(d.remove(&k).is_none() && d != o, base);
        // back again, at the end
        d.insert(&k, JsonValue::Null);
        sym::check(d.len() == n && match d.iter().next_back() { Some((l, v)) => l == k && v.is_null(), None => false }, base + 3);
        drop(o);
        d.insert(&k, x.into());
        for i in 0..n { match d.get(&key(i)) { Some(v) => sym::check(v.as_u64() == Some(if i == at { x } else { i as u64 }), base + 1), None => sym::fail(base + 1) } }
    }
    sym::cover(1);
}
