//! Harnesses over generators that users write, and over the built-in ones used directly (P27).
use crate::num::N;
use crate::ser::{nest, ser, ser_num, ser_str};
use crate::sym;
use crate::val::{any, bytes_eq, make, R};
use json::codegen::{DumpGenerator, Generator, PrettyGenerator, PrettyWriterGenerator, WriterGenerator};
use json::number::Number;
use json::object::Object;
use json::JsonValue;
use std::io;

// what the hooks leave in the text: bytes that no UTF-8 text contains
const IN: u8 = 0xF8;
const OUT: u8 = 0xF9;
const LINE: u8 = 0xFA;
const SEP: u8 = 0xFB;
const STR: u8 = 0xFC;
const NUM: u8 = 0xFD;
const VAL: u8 = 0xFE;
const OBJ: u8 = 0xFF;

/// only what has to be written
struct Least(Vec<u8>);
impl Generator for Least {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> { &mut self.0 }
    fn write_min(&mut self, _: &[u8], min: u8) -> io::Result<()> { self.0.push(min); Ok(()) }
}

/// every hook; the one that would be the `left`th to answer fails
struct Hooks { out: Vec<u8>, left: usize }
impl Hooks { fn answer(&mut self) -> io::Result<()> { if self.left == 0 { return Err(io::Error::from(io::ErrorKind::Other)); } self.left -= 1; Ok(()) } }
impl Generator for Hooks {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> { &mut self.out }
    fn write_min(&mut self, slice: &[u8], min: u8) -> io::Result<()> { self.answer()?; sym::check(slice == b": " && min == b':', 2703); self.out.push(SEP); Ok(()) }
    fn new_line(&mut self) -> io::Result<()> { self.answer()?; self.out.push(LINE); Ok(()) }
    fn indent(&mut self) { self.out.push(IN); }
    fn dedent(&mut self) { self.out.push(OUT); }
}

/// its own strings and numbers
struct Leaves(Vec<u8>);
impl Generator for Leaves {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> { &mut self.0 }
    fn write_min(&mut self, _: &[u8], min: u8) -> io::Result<()> { self.0.push(min); Ok(()) }
    fn write_string(&mut self, s: &str) -> io::Result<()> { self.0.push(STR); self.0.extend_from_slice(s.as_bytes()); self.0.push(STR); Ok(()) }
    fn write_number(&mut self, n: &Number) -> io::Result<()> {
        self.0.push(NUM);
        if n.is_nan() { self.0.push(NUM); return Ok(()); }
        let (p, m, e) = n.as_parts();
        self.0.push(p as u8);
        self.0.extend_from_slice(&m.to_le_bytes());
        self.0.extend_from_slice(&e.to_le_bytes());
        Ok(())
    }
}

/// its own objects: members in reverse order
struct Back(Vec<u8>);
impl Generator for Back {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> { &mut self.0 }
    fn write_min(&mut self, _: &[u8], min: u8) -> io::Result<()> { self.0.push(min); Ok(()) }
    fn write_object(&mut self, o: &Object) -> io::Result<()> {
        self.0.push(OBJ);
        for (k, v) in o.iter().rev() { self.write_string(k)?; self.write_min(b" = ", b'=')?; self.write_json(v)?; }
        self.0.push(OBJ);
        Ok(())
    }
}

/// its own values, the objects as they come
struct Own(Vec<u8>);
impl Generator for Own {
    type T = Vec<u8>;
    fn get_writer(&mut self) -> &mut Vec<u8> { &mut self.0 }
    fn write_min(&mut self, _: &[u8], min: u8) -> io::Result<()> { self.0.push(min); Ok(()) }
    fn write_json(&mut self, j: &JsonValue) -> io::Result<()> {
        self.0.push(VAL);
        match j {
            JsonValue::Object(o) => self.write_object(o),
            JsonValue::Array(v) => { for x in v { self.write_json(x)?; } self.write(b".") }
            _ => self.write_char(b'x'),
        }
    }
}

/// what a generator should have seen of `r`
fn seen(r: &R, how: u64, out: &mut Vec<u8>) {
    match (r, how) {
        (R::Str(s, _), 2) => leaf(s, how, out),
        (R::Num(n), 2) => leaf_num(n, out),
        (R::Arr(v), 4) => { out.push(VAL); for x in v { seen(x, how, out); } out.push(b'.'); }
        (R::Obj(v), 3) => { out.push(OBJ); for (k, x) in v.iter().rev() { ser_str(k, out); out.push(b'='); seen(x, how, out); } out.push(OBJ); }
        (R::Obj(v), _) => {
            if how == 4 { out.push(VAL); }
            let mut c = b'{';
            for (i, (k, x)) in v.iter().enumerate() {
                out.push(c);
                c = b',';
                if how == 1 { if i == 0 { out.push(IN); } out.push(LINE); }
                leaf(k, how, out);
                out.push(if how == 1 { SEP } else { b':' });
                seen(x, how, out);
            }
            if v.is_empty() { out.push(c); } else if how == 1 { out.push(OUT); out.push(LINE); }
            out.push(b'}');
        }
        (R::Arr(v), _) => {
            let mut c = b'[';
            for (i, x) in v.iter().enumerate() {
                out.push(c);
                c = b',';
                if how == 1 { if i == 0 { out.push(IN); } out.push(LINE); }
                seen(x, how, out);
            }
            if v.is_empty() { out.push(c); } else if how == 1 { out.push(OUT); out.push(LINE); }
            out.push(b']');
        }
        (_, 4) => { out.push(VAL); out.push(b'x'); }
        _ => ser(r, None, 0, out),
    }
}
fn leaf(s: &[u8], how: u64, out: &mut Vec<u8>) { if how == 2 { out.push(STR); out.extend_from_slice(s); out.push(STR); } else { ser_str(s, out); } }
fn leaf_num(n: &N, out: &mut Vec<u8>) {
    out.push(NUM);
    if n.nan { out.push(NUM); return; }
    out.push(!n.neg as u8);
    out.extend_from_slice(&n.m.to_le_bytes());
    out.extend_from_slice(&(n.e as i16).to_le_bytes());
}

fn judge(r: &R, how: u64) {
    let j = make(r);
    let mut want = vec![];
    if how < 5 { seen(r, how, &mut want); }
    let got = match how {
        0 => { let mut g = Least(vec![]); sym::check(g.write_json(&j).is_ok(), 2701); g.0 }
        1 => { let mut g = Hooks { out: vec![], left: 1 << 40 }; sym::check(g.write_json(&j).is_ok(), 2701); g.out }
        2 => { let mut g = Leaves(vec![]); sym::check(g.write_json(&j).is_ok(), 2701); g.0 }
        3 => { let mut g = Back(vec![]); sym::check(g.write_json(&j).is_ok(), 2701); g.0 }
        4 => { let mut g = Own(vec![]); sym::check(g.write_json(&j).is_ok(), 2701); g.0 }
        5 => { // a hook that fails: its error is the result, nothing follows
            let mut all = vec![];
            seen(r, 1, &mut all);
            let mut hooks = 0;
            for &c in &all { if c == LINE || c == SEP { hooks += 1; } }
            let stop = sym::choose(hooks + 1);
            let mut n = 0;
            for &c in &all { if c == LINE || c == SEP { if n == stop { break; } n += 1; } want.push(c); }
            let mut g = Hooks { out: vec![], left: stop as usize };
            sym::check(g.write_json(&j).is_ok() == (stop == hooks), 2704);
            g.out
        }
        _ => { // the built-in ones, one value after the other
            let k = [0u16, 1, 3][sym::choose(3) as usize];
            let kind = sym::choose(4);
            for _ in 0..2 { ser(r, if kind < 2 { None } else { Some(k as usize) }, 0, &mut want); }
            let twice = |g: &mut dyn FnMut(&JsonValue) -> bool| sym::check(g(&j) && g(&j), 2701);
            match kind {
                0 => { let mut g = DumpGenerator::new(); twice(&mut |j| direct(&mut g, j)); g.consume().into_bytes() }
                1 => { let mut v = vec![]; { let mut g = WriterGenerator::new(&mut v); twice(&mut |j| direct(&mut g, j)); } v }
                2 => { let mut g = PrettyGenerator::new(k); twice(&mut |j| direct(&mut g, j)); g.consume().into_bytes() }
                _ => { let mut v = vec![]; { let mut g = PrettyWriterGenerator::new(&mut v, k); twice(&mut |j| direct(&mut g, j)); } v }
            }
        }
    };
    sym::check(bytes_eq(&got, &want), 2702);
    sym::cover(1);
}
/// objects by write_object, other values by write_json
fn direct<G: Generator>(g: &mut G, j: &JsonValue) -> bool { match j { JsonValue::Object(o) => g.write_object(o).is_ok(), _ => g.write_json(j).is_ok() } }

/// P27: any value of `depth` levels with up to `width & 15` elements each
#[no_mangle]
pub extern "C" fn h_gen(depth: u64, width: u64, how: u64) { let r = any(depth, width & 15, width & 16 != 0); judge(&r, how); }

/// P27: d nested containers, pattern c
#[no_mangle]
pub extern "C" fn h_gen_deep(d: u64, c: u64, how: u64) { let r = nest(d, c, c & 128 != 0); judge(&r, how); }

/// P27: parts written one by one through one generator: string, number, text
#[no_mangle]
pub extern "C" fn h_gen_parts(n: u64, kind: u64, _c: u64) {
    let s = sym::string(n as usize);
    let t = sym::ascii(2);
    let k = N { neg: sym::boolean(), m: sym::u8() as u64, e: 0, nan: sym::boolean() };
    let mut want = vec![];
    ser_str(s.as_bytes(), &mut want);
    want.extend_from_slice(t.as_bytes());
    ser_num(&k, &mut want);
    want.push(b'#');
    let sep = match kind { 0 | 1 | 4 => &b"="[..], _ => &b" -> "[..] };
    want.extend_from_slice(sep);
    fn all<G: Generator>(g: &mut G, s: &str, t: &str, n: &Number) -> bool { g.write_string(s).is_ok() && g.write(t.as_bytes()).is_ok() && g.write_number(n).is_ok() && g.write_char(b'#').is_ok() && g.write_min(b" -> ", b'=').is_ok() }
    let n = k.num();
    let got = match kind {
        0 => { let mut g = DumpGenerator::new(); sym::check(all(&mut g, &s, &t, &n), 2701); g.consume().into_bytes() }
        1 => { let mut v = vec![]; sym::check(all(&mut WriterGenerator::new(&mut v), &s, &t, &n), 2701); v }
        2 => { let mut g = PrettyGenerator::new(4); sym::check(all(&mut g, &s, &t, &n), 2701); g.consume().into_bytes() }
        3 => { let mut v = vec![]; sym::check(all(&mut PrettyWriterGenerator::new(&mut v, 4), &s, &t, &n), 2701); v }
        _ => { let mut g = Least(vec![]); sym::check(all(&mut g, &s, &t, &n), 2701); g.0 }
    };
    sym::check(bytes_eq(&got, &want), 2702);
    sym::cover(1);
}
