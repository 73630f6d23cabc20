//! Harnesses over `json::parse` (P01-P06).
use crate::refp::{self, RE};
use crate::{cmp, sym};
use json::Error;

// placeholders in templates
const ANY: u8 = 0x80; // any byte (the whole text is constrained to be UTF-8)
const ASC: u8 = 0x81; // any ASCII byte
const STR: u8 = 0x82; // structural characters: [ ] { } : , " 1 space
const NUM: u8 = 0x83; // number characters: digits . e E + - space
const DIG: u8 = 0x84; // digit
const HEX: u8 = 0x85; // hexadecimal digit
const ESC: u8 = 0x86; // " \ / b f n r t u a 0x1f 0x7f 'd'
const WSP: u8 = 0x87; // white space, control characters 8..14 and letters x
const SUR: u8 = 0x88; // hex digits that matter for surrogates: 8 9 a b c d e f D C 0
const TOK: u8 = 0x89; // characters that start tokens, and separators: [ { " 0 - t n , ] } e

fn in_set(c: u8, s: &[u8]) -> bool { let mut r = false; for &x in s { r |= x == c; } r }

pub fn text(t: &[u8]) -> Box<[u8]> {
    let mut any = false;
    let mut v = vec![0u8; t.len()].into_boxed_slice();
    for (i, &k) in t.iter().enumerate() {
        if k < 0x80 || k > 0x89 { v[i] = k; continue; }
        let c = sym::u8();
        match k {
            ANY => any = true,
            ASC => sym::assume(c < 0x80),
            STR => sym::assume(in_set(c, b"[]{}:,\"1 ")),
            NUM => sym::assume((c >= b'0' && c <= b'9') | in_set(c, b".eE+- ")),
            DIG => sym::assume((c >= b'0') & (c <= b'9')),
            HEX => sym::assume(((c >= b'0') & (c <= b'9')) | ((c >= b'a') & (c <= b'f')) | ((c >= b'A') & (c <= b'F'))),
            ESC => sym::assume(in_set(c, b"\"\\/bfnrtuad\x1f\x7f")),
            WSP => sym::assume(((c >= 8) & (c <= 14)) | in_set(c, b" x")),
            SUR => sym::assume(in_set(c, b"89abcdefDC0")),
            _ => sym::assume(in_set(c, b"[{\"0-tn,]}e")),
        }
        v[i] = c;
    }
    if any { match std::str::from_utf8(&v) { Ok(_) => {} Err(_) => sym::assume(false) } }
    v
}

// fixed contexts with symbolic positions
pub static TEMPLATES: &[&[u8]] = &[
    /* 0 */ b"\"\\u\x85\x85\x85\x85\"",
    /* 1 */ b"\"\\u\x88\x88\x88\x88\\u\x88\x88\x88\x88\"",
    /* 2 */ b"\"\\u\x88\x88\x88\x88\x86\x86\x85\x85\x85\x85",
    /* 3 */ b"{\"\x81\":1,\"\x81\":2}",
    /* 4 */ b"{\"a\":1,\"\x81\x81\":[\x89\x89]}",
    /* 5 */ b"[\x89,{\"k\":\x89\x89},\x89\x89",
    /* 6 */ b"[1,\x87\x87\x87\x87 x",
    /* 7 */ b"\x87\x87\"\\n\x87\x87\x87",
    /* 8 */ b"{\"a\":1,\"b\":2,\"c\":3,\"\x81\":4,\"\x81\":5}",
    /* 9 */ b"{\"a\":{\"\x81\":1,\"b\":\x89},\"\x81\":2}",
    /* 10 */ b"[[\x89\x89,[\x89],\x89]\x82",
    /* 11 */ b"{\"\\\x86\x86\":\"\\\x86\x86\"}",
    /* 12 */ b"\"ab\\u\x85\x85\x85\x85\\\x86\x81\"",
    /* 13 */ b"tru\x81\x81",
    /* 14 */ b"[fals\x81,nul\x81\x81",
    /* 15 */ b"{\"\x80\x80\":1,\"\x80\x80\":2,\"\x81\":3}",
    /* 16 */ b"[\"\\\x86\",\"\\\x86\",\"\x81\\\x86\"]",
    /* 17 */ b"{\"\\\x86\":\"\\\x86\",\"\\\x86\":\"\\\x86\"}",
    /* 18 */ b"\n\n[\x87\x87,\n\x87\x89\x87]",
    /* 19 */ b"\"\x80\x80\x80\x80\"",
    /* 20 */ b"\"\x80\x80\\\x81\x80\"",
    /* 21 */ b"[\x80\x80\x80\x80",
    /* 22 */ b"{\"\x80\x80\":\"\x80\"\x89",
    /* 23 */ b"\"\\ud8\x85\x88\\u\x88\x88\x850\"",
    /* 24 */ b"\"\\ud\x880\x88\x86\x86\x88c00",
    /* 25 */ b"\x87[\x871\x87,\x87{\x87\"a\"\x87:\x872\x87}\x87]\x87",
    /* 26 */ b"{\n \"\xc3\xa9\": [1,\n\t\"\xe6\xbc\xa2\xf0\x9f\xa4\xa0\", \x81\x81",
    /* 27 */ b"[\"\xe6\xbc\xa2\",\n\"\xf0\x9f\xa4\xa0\x81\x87\xe6\xbc\xa2\x81",
    /* 28 */ b"\xc3\xa9\x80\x80",
    /* 29 */ b"{\"a\":\"\\\x86\\\x86\\\x86\",\"\\\x86\":\"\x81\"}",
    /* 30 */ b"[{\"\x81\":{\"\x81\":1,\"a\":2}},{\"a\":[\x89]},\"\x81\"]",
    /* 31 */ b"\"\x81\\u00\x85\x85\x81\\u\x850\x85\x85\x81\"",
    /* 32 */ b"{\"aa\":1,\"ba\":2,\"ab\":3,\"\x81a\":4,\"a\x81\":5,\"aa\":6}",
];

// documents that `h_parse_mut` varies in one place
pub static DOCS: &[&str] = &[
    /* 0 */ "{\"name\": \"Ann\", \"age\": 37, \"tags\": [\"a\", null, true], \"x\": {\"y\": -1.5e3}}",
    /* 1 */ "[1, 2.25, -0, 0.5E-7, 1e+9, 12345678901234567890, false, {}, [], [[0]]]",
    /* 2 */ "\n\t{ \"k\u{e9}y\" : \"v\\u00e9\\n\\\"\\ud83d\\ude00z\" ,\r\n\"\\/\":[ ] }\n",
    /* 3 */ "[{\"a\":1,\"b\":{\"a\":2,\"a\":3},\"a\":4},\n[\"\u{6f22}\", \"\u{1f600}\"],\ntrue , null]",
    /* 4 */ "{\"key that is much longer than thirty-two bytes\":\"text that does not fit in line, at all\",\"b\":[]}",
];

fn line_col(s: &[u8], at: usize) -> (usize, usize) { refp::position(s, at) }

/// run the parser on `buf` and judge the outcome according to `mode`
pub fn judge(buf: &[u8], mode: u64) {
    let s = unsafe { std::str::from_utf8_unchecked(buf) };
    let got = json::parse(s);
    match &got { Ok(_) => { sym::log(1); } Err(Error::UnexpectedCharacter { ch, line, column }) => { sym::log(2); sym::log(*ch as u64); sym::log(*line as u64); sym::log(*column as u64); } Err(Error::UnexpectedEndOfJson) => sym::log(3), Err(Error::ExceededDepthLimit) => sym::log(4), Err(_) => sym::log(5) }
    if mode == 0 {
        // inspection and drop of whatever came back
        match got { Ok(v) => { sym::cover(1); let d = v.dump(); sym::log(d.len() as u64); let w = v.clone(); sym::check(w == v, 101); } Err(e) => { sym::cover(2); drop(e); } }
        return;
    }
    let want = refp::read(buf);
    match (&got, &want) {
        (Ok(_), Ok(_)) => sym::cover(1),
        (Err(_), Err(_)) => sym::cover(2),
        (Ok(_), Err(_)) => if mode & 1 != 0 { sym::fail(201) },
        (Err(_), Ok(_)) => if mode & 1 != 0 { sym::fail(202) },
    }
    if mode & 2 != 0 { if let (Ok(v), Ok(r)) = (&got, &want) { cmp::tree(v, r, 301); } }
    if mode & 4 != 0 {
        if let (Err(e), Err(w)) = (&got, &want) {
            match w {
                RE::Eof => { sym::cover(3); sym::check(matches!(e, Error::UnexpectedEndOfJson), 501) }
                RE::Depth => sym::check(matches!(e, Error::ExceededDepthLimit), 502),
                RE::Utf8 => { sym::cover(5); sym::check(matches!(e, Error::FailedUtf8Parsing), 503) }
                RE::Bad(at) => match e {
                    Error::UnexpectedCharacter { ch, line, column } => {
                        sym::cover(4);
                        let (l, c) = line_col(buf, *at);
                        sym::check(*ch as u32 == refp::char_at(buf, *at), 504);
                        sym::check(*line == l, 505);
                        sym::check(*column == c, 506);
                    }
                    _ => sym::fail(507),
                },
            }
        }
    }
}

/// n characters of class `cls`, between optional fixed prefix and suffix
#[no_mangle]
pub extern "C" fn h_parse_n(n: u64, cls: u64, mode: u64) {
    let t = vec![cls as u8; n as usize];
    judge(&text(&t), mode);
}
/// string literal with n characters of class cls, closed
#[no_mangle]
pub extern "C" fn h_parse_str(n: u64, cls: u64, mode: u64) {
    let mut t = vec![b'"'];
    for _ in 0..n { t.push(cls as u8); }
    t.push(b'"');
    judge(&text(&t), mode);
}
/// fixed template
#[no_mangle]
pub extern "C" fn h_parse_t(k: u64, _b: u64, mode: u64) { judge(&text(TEMPLATES[k as usize]), mode); }

/// DOCS[k] varied at any one place: kind 0 truncated, 1 one ASCII character replaced, 2 one ASCII
/// character inserted, 3 one byte range of two characters removed
#[no_mangle]
pub extern "C" fn h_parse_mut(k: u64, kind: u64, mode: u64) {
    let d = DOCS[k as usize];
    let at = sym::choose(d.len() as u64) as usize;
    if !d.is_char_boundary(at) { sym::assume(false); }
    let mut v = d.as_bytes().to_vec();
    match kind {
        0 => v.truncate(at),
        1 => { if v[at] >= 0x80 { sym::assume(false); } let c = sym::u8(); sym::assume(c < 0x80); v[at] = c; }
        2 => { let c = sym::u8(); sym::assume(c < 0x80); v.insert(at, c); }
        _ => { let n = d[at..].chars().next().unwrap().len_utf8(); v.drain(at..at + n); }
    }
    judge(&v.into_boxed_slice(), mode);
}

/// strings and keys around the in-line limits: `len` characters, the ones in the middle fixed,
/// first and last symbolic, optionally an escape
#[no_mangle]
pub extern "C" fn h_parse_long(len: u64, kind: u64, mode: u64) {
    let mut t: Vec<u8> = Vec::new();
    let lit = |t: &mut Vec<u8>, last: u8| {
        t.push(b'"');
        t.push(ASC);
        for i in 0..len - 2 { t.push(b'a' + (i % 23) as u8); }
        t.push(last);
        t.push(b'"');
    };
    match kind {
        0 => lit(&mut t, ASC),
        1 => { t.push(b'{'); lit(&mut t, ASC); t.extend_from_slice(b":1}"); }
        2 => { t.push(b'{'); lit(&mut t, b'z'); t.extend_from_slice(b":1,"); lit(&mut t, b'z'); t.extend_from_slice(b":2}"); }
        _ => { t.push(b'['); lit(&mut t, b'y'); t.push(b','); lit(&mut t, ESC); t.push(b']'); }
    }
    judge(&text(&t), mode);
}

/// number literals: `ni` integer digits and `nf` fraction digits, all symbolic; bits 8.. of `c`:
/// exponent form 0 none, 1..=4 `e` and that many digits, 5..=8 the same with a sign, 9 `E` with
/// large digits; bit 16: minus sign; bit 17: leading zero
#[no_mangle]
pub extern "C" fn h_parse_num(ni: u64, nf: u64, c: u64) {
    let mut t: Vec<u8> = Vec::new();
    if c >> 16 & 1 == 1 { t.push(b'-'); }
    if c >> 17 & 1 == 1 { t.push(b'0'); }
    for _ in 0..ni { t.push(DIG); }
    if nf > 0 { t.push(b'.'); for _ in 0..nf { t.push(DIG); } }
    match c >> 8 & 15 {
        0 => {}
        k @ 1..=4 => { t.push(b'e'); for _ in 0..k { t.push(DIG); } }
        k @ 5..=8 => { t.push(b'e'); t.push(b'-'); for _ in 4..k { t.push(DIG); } }
        9 => t.extend_from_slice(b"E3276\x84"),
        10 => t.extend_from_slice(b"e-3276\x84"),
        11 => t.extend_from_slice(b"e+327\x84\x84"),
        12 => t.extend_from_slice(b"e999999999999999999999\x84"),
        _ => t.extend_from_slice(b"e-000000000000000000000\x84\x84"),
    }
    judge(&text(&t), c & 7);
}

/// numbers with very many digits: `len` fixed digits, then symbolic ones and an exponent
#[no_mangle]
pub extern "C" fn h_parse_numlong(kind: u64, len: u64, mode: u64) {
    let mut t: Vec<u8> = Vec::new();
    let n = len as usize;
    match kind {
        // 0.000...0dd
        0 => { t.extend_from_slice(b"0."); t.resize(2 + n, b'0'); t.extend_from_slice(b"\x84\x84"); }
        // 9dd000...0
        1 => { t.extend_from_slice(b"9\x84\x84"); t.resize(3 + n, b'0'); }
        // 7d000...0e-X, cancelling out
        2 => { t.extend_from_slice(b"7\x84"); t.resize(2 + n, b'0'); t.extend_from_slice(b"e-"); t.extend_from_slice(n.to_string().as_bytes()); }
        // the same for very long ones: the digits that matter are fixed
        7 => { t.extend_from_slice(b"91"); t.resize(2 + n, b'0'); t.extend_from_slice(b"\x84\x84"); }
        8 => { t.extend_from_slice(b"73"); t.resize(2 + n, b'0'); t.extend_from_slice(b"e-327\x84\x84"); }
        3 => { t.extend_from_slice(b"0."); t.resize(2 + n, b'0'); t.extend_from_slice(b"\x84\x84e"); t.extend_from_slice(n.to_string().as_bytes()); }
        // long exponents
        4 => { t.extend_from_slice(b"\x84.\x84e"); t.resize(4 + n, b'0'); t.extend_from_slice(b"\x84\x84"); }
        5 => { t.extend_from_slice(b"\x84.\x84e-"); t.resize(5 + n, b'9'); t.extend_from_slice(b"\x84\x84"); }
        // long fraction of a long integer
        _ => { t.extend_from_slice(b"3"); t.resize(1 + n, b'3'); t.push(b'.'); t.resize(2 + 2 * n, b'5'); t.extend_from_slice(b"\x84\x84"); }
    }
    judge(&text(&t), mode);
}

/// `depth` nested containers; which levels are objects is given by `kind` except for the two
/// outermost and three innermost levels, where it is symbolic; `tail`: 0 closed properly with a
/// symbolic innermost value, 1 left open, 2 one closed sibling chain of `depth - 1` levels in
/// front, 3 three small siblings at every level, 4 an empty container as innermost
/// value, 5 with 520 closed siblings in front
#[no_mangle]
pub extern "C" fn h_parse_deep(depth: u64, kind: u64, c: u64) {
    let (mode, tail) = (c & 7, c >> 8);
    let n = depth as usize;
    let mut shape = vec![false; n];
    for i in 0..n {
        shape[i] = match kind { 0 => false, 1 => true, 2 => i % 2 == 0, 3 => i < n / 2, 4 => i * 5 % 7 < 3, _ => i >= n / 2 };
        if i < 2 || i + 3 >= n { shape[i] = sym::choose(2) == 1; }
    }
    let mut t: Vec<u8> = Vec::new();
    let nest = |t: &mut Vec<u8>, m: usize, inner: &[u8], close: bool, sib: bool| {
        for i in 0..m {
            t.push(if shape[i] { b'{' } else { b'[' });
            if sib { t.extend_from_slice(match (i + 1 < m, shape[i]) { (true, true) => b"\"s\":[{}],\"t\":{\"u\":[]},\"v\":[],", (true, false) => b"[{}],{\"u\":[]},[],", (false, true) => b"\"s\":[],\"t\":{},", _ => b"[],{}," }); }
            if shape[i] { t.extend_from_slice(b"\"k\":"); }
        }
        t.extend_from_slice(inner);
        if close { for i in (0..m).rev() { t.push(if shape[i] { b'}' } else { b']' }); } }
    };
    match tail {
        0 => nest(&mut t, n, b"\x84", true, false),
        1 => nest(&mut t, n, b"", false, false),
        2 => { t.push(b'['); for _ in 0..2 { nest(&mut t, n - 1, b"1", true, false); t.push(b','); } nest(&mut t, n - 1, b"\x84", true, false); t.push(b']'); }
        3 => nest(&mut t, n, b"\x84", true, true),
        5 => {
            // 520 closed siblings of depth two in front of the deep one
            t.push(b'[');
            for i in 0..520 { t.extend_from_slice(if i % 2 == 0 { b"[[1]]," } else { b"{\"a\":{\"b\":1}}," }); }
            nest(&mut t, n - 1, b"\x84", true, false);
            t.push(b']');
        }
        _ => nest(&mut t, n, if kind % 2 == 0 { b"[]" } else { b"{ }" }, true, false),
    }
    judge(&text(&t), mode);
}
/// very deep nesting of one kind of container, ending in one symbolic character
#[no_mangle]
pub extern "C" fn h_parse_abyss(depth: u64, kind: u64, mode: u64) {
    let mut t: Vec<u8> = Vec::new();
    for i in 0..depth { t.extend_from_slice(match kind { 0 => b"[", 1 => b"{\"k\":", _ => if i % 2 == 0 { b"[" } else { b"{\"k\":" } }); }
    t.push(ASC);
    judge(&text(&t), mode);
}

/// two or three strings with escapes in one document; the first has any length up to `max`, which
/// moves the others to every place of the decoding buffer
#[no_mangle]
pub extern "C" fn h_parse_buf(max: u64, kind: u64, mode: u64) {
    let n = sym::choose(max + 1) as usize;
    let mut t: Vec<u8> = Vec::new();
    let fill = |t: &mut Vec<u8>, n: usize| for i in 0..n { t.push(b'a' + (i % 23) as u8); };
    match kind {
        0 => { t.extend_from_slice(b"[\""); fill(&mut t, n); t.extend_from_slice(b"\\n\",\"yy\\t\x81y\",\"\\u00e\x85z\"]"); }
        1 => { t.extend_from_slice(b"{\"\\b"); fill(&mut t, n); t.extend_from_slice(b"\":\"p\\\x86q\",\"r\\\"s\":1,\"\x81\\\"s\":2}"); }
        2 => { t.extend_from_slice(b"[\"\\n\",\""); fill(&mut t, n); t.extend_from_slice(b"\\f"); fill(&mut t, n); t.extend_from_slice(b"\",\"\x81\\/\"]"); }
        _ => { t.extend_from_slice(b"{\"a\\n\":{\""); fill(&mut t, n); t.extend_from_slice(b"\\u20ac\":\"\\ud83d\\ude0\x85\"},\"a\\n\":[\"\x81\\n\"]}"); }
    }
    judge(&text(&t), mode);
}

/// long documents: `n` repetitions of something fixed, then symbolic characters
#[no_mangle]
pub extern "C" fn h_parse_far(n: u64, kind: u64, mode: u64) {
    let mut t: Vec<u8> = Vec::new();
    let rep = |t: &mut Vec<u8>, s: &str| for _ in 0..n { t.extend_from_slice(s.as_bytes()); };
    match kind {
        // white space in front of anything
        0 => { rep(&mut t, " "); t.extend_from_slice(b"\x81\x81"); }
        1 => { rep(&mut t, "\n"); t.extend_from_slice(b"\x87\x81"); }
        2 => { t.push(b'['); rep(&mut t, "1,\n"); t.extend_from_slice(b"2\x87\x81"); }
        // one long string, of characters of one to four bytes
        3 => { t.push(b'"'); rep(&mut t, "\u{e9}"); t.extend_from_slice(b"\x81\"\x87\x81"); }
        4 => { t.push(b'"'); rep(&mut t, "a\u{6f22}"); t.extend_from_slice(b"\\\x86\x81\""); }
        5 => { t.extend_from_slice(b"[\""); rep(&mut t, "\u{1f920}"); t.extend_from_slice(b"\",\n\x81"); }
        // a long key, given again; escapes in all of a long string
        6 => { t.extend_from_slice(b"{\""); rep(&mut t, "k"); t.extend_from_slice(b"\x81\":1,\""); rep(&mut t, "k"); t.extend_from_slice(b"z\":2\x81"); }
        7 => { t.push(b'"'); rep(&mut t, "\\u00e9\\n"); t.extend_from_slice(b"\x81\""); }
        // many elements and members
        8 => { t.push(b'['); rep(&mut t, "[],"); t.extend_from_slice(b"\x84]\x87"); }
        9 => { t.push(b'{'); for i in 0..n { t.extend_from_slice(format!("\"k{}\":{},", i, i).as_bytes()); } t.extend_from_slice(b"\"k\x84\":-1,\"k\x84\":[]}\x87"); }
        10 => { t.push(b'['); for i in 0..n { t.extend_from_slice(format!("{{\"a\":{}}},", i).as_bytes()); } t.extend_from_slice(b"\"\x81\"\x81"); }
        // trailing white space
        _ => { t.extend_from_slice(b"[1]"); rep(&mut t, "\r\n"); t.extend_from_slice(b"\x81"); }
    }
    judge(&text(&t), mode);
}

/// documents built by a grammar instead of character by character, in every combination.
/// kind 0: an object of n members; every pattern of repeated keys, every kind of value for each.
/// kind 1: the same with keys that are the same up to their last character, longer than the
/// in-line limit. kind 2: every tree of up to n values, with a repeated key in its objects
/// wherever a third member follows. One character of all is symbolic.
#[no_mangle]
pub extern "C" fn h_parse_gen(n: u64, kind: u64, mode: u64) {
    const V: [&[u8]; 5] = [b"null", b"4\x84", b"[5]", b"\"s\"", b"{\"a\":false}"];
    const K: [&str; 6] = ["a", "", "b", "\\u0061b", "an", "c"];
    const L: [&str; 6] = ["a key that is longer than the limit: 1", "a key that is longer than the limit: 2", "a key that is longer than the limit: 3", "a key that is longer than the limit: 1 ", "", "a key that is longer than the limit: "];
    let mut t: Vec<u8> = Vec::new();
    match kind {
        0 | 1 => {
            t.push(b'{');
            let mut used = 0;
            for i in 0..n {
                if i > 0 { t.push(b','); }
                let k = sym::choose((used + 1).min(6));
                used = used.max(k + 1);
                t.push(b'"');
                t.extend_from_slice(if kind == 0 { K[k as usize].as_bytes() } else { L[k as usize].as_bytes() });
                t.extend_from_slice(b"\":");
                // one symbolic digit at most
                let v = V[sym::choose(if n > 3 { 3 } else { 5 }) as usize];
                for &c in v { t.push(if c == 0x84 && t.contains(&0x84) { b'0' + i as u8 } else { c }); }
            }
            t.push(b'}');
        }
        _ => {
            // open containers: is it an object, how many values so far
            let mut open: Vec<(bool, u64)> = vec![];
            let mut left = n;
            loop {
                if let Some((obj, m)) = open.last_mut() {
                    if *m > 0 || left > 0 {
                        // one more value, or the end
                        if left == 0 || sym::choose(2) == 0 { t.push(if *obj { b'}' } else { b']' }); open.pop(); if open.is_empty() { break; } continue; }
                    } else { t.push(if *obj { b'}' } else { b']' }); open.pop(); if open.is_empty() { break; } continue; }
                    if *m > 0 { t.push(b','); }
                    if *obj { t.push(b'"'); t.push(if *m == 2 { b'a' } else { b'a' + (*m % 24) as u8 }); t.extend_from_slice(b"\":"); }
                    *m += 1;
                }
                left -= 1;
                match sym::choose(3) {
                    0 => { t.push(if left == 0 && !t.contains(&0x84) { 0x84 } else { b'0' + left as u8 }); if open.is_empty() { break; } }
                    1 => { t.push(b'['); open.push((false, 0)); }
                    _ => { t.push(b'{'); open.push((true, 0)); }
                }
            }
        }
    }
    judge(&text(&t), mode);
}
