//! Reference JSON reader, written from the grammar (RFC 7159 plus the documented whitespace and
//! depth limit) and independent of the crate: plain recursive descent over bytes.
pub enum RV { Null, Bool(bool), Num(RNum), Str(Vec<u8>), Arr(Vec<RV>), Obj(Vec<(Vec<u8>, RV)>) }

/// literal = (-1)^neg * mant * 10^exp when `exact`, that is when all digits fit 64 bits;
/// literal = (-1)^neg * full * 10^fexp when there are at most 38 significant digits (`digits`)
pub struct RNum { pub neg: bool, pub mant: u64, pub exp: i64, pub exact: bool, pub full: u128, pub fexp: i64, pub digits: u32 }

pub enum RE { Eof, Bad(usize), Depth, Utf8 }

pub struct P<'a> { pub s: &'a [u8], pub i: usize }

type R<T> = Result<T, RE>;

fn ws(b: u8) -> bool { b == b' ' || (b >= 9 && b <= 13) }

pub fn read(s: &[u8]) -> R<RV> {
    let mut p = P { s, i: 0 };
    let v = p.value(0)?;
    p.skip();
    if p.i < s.len() { return Err(RE::Bad(p.i)); }
    Ok(v)
}

impl<'a> P<'a> {
    fn skip(&mut self) { while self.i < self.s.len() && ws(self.s[self.i]) { self.i += 1; } }
    fn peek(&self) -> R<u8> { if self.i < self.s.len() { Ok(self.s[self.i]) } else { Err(RE::Eof) } }
    fn token(&mut self) -> R<u8> { self.skip(); self.peek() }
    fn bad<T>(&self) -> R<T> { Err(RE::Bad(self.i)) }
    fn word(&mut self, w: &[u8], v: RV) -> R<RV> {
        for &c in w { if self.peek()? != c { return self.bad(); } self.i += 1; }
        Ok(v)
    }
    fn value(&mut self, depth: usize) -> R<RV> {
        let c = self.token()?;
        if c == b'"' { return Ok(RV::Str(self.string()?)); }
        if c == b'[' { return self.array(depth); }
        if c == b'{' { return self.object(depth); }
        if c == b't' { return self.word(b"true", RV::Bool(true)); }
        if c == b'f' { return self.word(b"false", RV::Bool(false)); }
        if c == b'n' { return self.word(b"null", RV::Null); }
        if c == b'-' || (c >= b'0' && c <= b'9') { return Ok(RV::Num(self.number()?)); }
        self.bad()
    }
    fn array(&mut self, depth: usize) -> R<RV> {
        self.i += 1;
        let mut v = Vec::new();
        if self.token()? == b']' { self.i += 1; return Ok(RV::Arr(v)); }
        if depth == 512 { return Err(RE::Depth); }
        loop {
            v.push(self.value(depth + 1)?);
            let c = self.token()?;
            if c == b',' { self.i += 1; continue; }
            if c == b']' { self.i += 1; return Ok(RV::Arr(v)); }
            return self.bad();
        }
    }
    fn object(&mut self, depth: usize) -> R<RV> {
        self.i += 1;
        let mut v: Vec<(Vec<u8>, RV)> = Vec::new();
        if self.token()? == b'}' { self.i += 1; return Ok(RV::Obj(v)); }
        if depth == 512 { return Err(RE::Depth); }
        loop {
            if self.token()? != b'"' { return self.bad(); }
            let k = self.string()?;
            if self.token()? != b':' { return self.bad(); }
            self.i += 1;
            let x = self.value(depth + 1)?;
            match v.iter_mut().find(|e| e.0 == k) { Some(e) => e.1 = x, None => v.push((k, x)) }
            let c = self.token()?;
            if c == b',' { self.i += 1; continue; }
            if c == b'}' { self.i += 1; return Ok(RV::Obj(v)); }
            return self.bad();
        }
    }
    fn hex4(&mut self) -> R<u32> {
        let mut u = 0u32;
        for _ in 0..4 {
            let c = self.peek()?;
            let d = if c >= b'0' && c <= b'9' { c - b'0' } else if c >= b'a' && c <= b'f' { c - b'a' + 10 } else if c >= b'A' && c <= b'F' { c - b'A' + 10 } else { return self.bad() };
            self.i += 1;
            u = u << 4 | d as u32;
        }
        Ok(u)
    }
    fn string(&mut self) -> R<Vec<u8>> {
        self.i += 1;
        let mut o = Vec::new();
        loop {
            let c = self.peek()?;
            if c == b'"' { self.i += 1; return Ok(o); }
            if c < 0x20 { return self.bad(); }
            if c != b'\\' { o.push(c); self.i += 1; continue; }
            self.i += 1;
            let e = self.peek()?;
            let r = match e { b'"' | b'\\' | b'/' => e, b'b' => 8, b'f' => 12, b'n' => 10, b'r' => 13, b't' => 9, b'u' => 0, _ => return self.bad() };
            self.i += 1;
            if e != b'u' { o.push(r); continue; }
            let mut u = self.hex4()?;
            if u >= 0xD800 && u < 0xE000 {
                if self.peek()? != b'\\' { return self.bad(); }
                self.i += 1;
                if self.peek()? != b'u' { return self.bad(); }
                self.i += 1;
                let l = self.hex4()?;
                if u >= 0xDC00 || l < 0xDC00 || l >= 0xE000 { return Err(RE::Utf8); }
                u = 0x10000 + ((u - 0xD800) << 10) + (l - 0xDC00);
            }
            if u < 0x80 { o.push(u as u8); }
            else if u < 0x800 { o.push(0xC0 | (u >> 6) as u8); o.push(0x80 | (u & 63) as u8); }
            else if u < 0x10000 { o.push(0xE0 | (u >> 12) as u8); o.push(0x80 | (u >> 6 & 63) as u8); o.push(0x80 | (u & 63) as u8); }
            else { o.push(0xF0 | (u >> 18) as u8); o.push(0x80 | (u >> 12 & 63) as u8); o.push(0x80 | (u >> 6 & 63) as u8); o.push(0x80 | (u & 63) as u8); }
        }
    }
    fn digit(&self) -> Option<u8> { if self.i < self.s.len() { let c = self.s[self.i]; if c >= b'0' && c <= b'9' { return Some(c - b'0'); } } None }
    fn take(n: &mut RNum, d: u8) -> bool {
        if n.digits > 0 || d != 0 { n.digits += 1; }
        if n.digits <= 38 { n.full = n.full * 10 + d as u128; }
        match n.mant.checked_mul(10).and_then(|m| m.checked_add(d as u64)) { Some(m) if n.exact => { n.mant = m; true } _ => { n.exact = false; false } }
    }
    fn number(&mut self) -> R<RNum> {
        let mut n = RNum { neg: false, mant: 0, exp: 0, exact: true, full: 0, fexp: 0, digits: 0 };
        if self.peek()? == b'-' { n.neg = true; self.i += 1; }
        match self.digit() {
            None => { self.peek()?; return self.bad(); }
            Some(0) => { self.i += 1; }
            Some(_) => while let Some(d) = self.digit() { self.i += 1; if !Self::take(&mut n, d) { n.exp += 1; } },
        }
        if self.i < self.s.len() && self.s[self.i] == b'.' {
            self.i += 1;
            if self.digit().is_none() { self.peek()?; return self.bad(); }
            while let Some(d) = self.digit() { self.i += 1; n.fexp -= 1; if Self::take(&mut n, d) { n.exp -= 1; } }
        }
        if self.i < self.s.len() && (self.s[self.i] == b'e' || self.s[self.i] == b'E') {
            self.i += 1;
            let mut neg = false;
            let c = self.peek()?;
            if c == b'-' || c == b'+' { neg = c == b'-'; self.i += 1; }
            if self.digit().is_none() { self.peek()?; return self.bad(); }
            let mut e = 0i64;
            while let Some(d) = self.digit() { self.i += 1; if e < 1_000_000_000 { e = e * 10 + d as i64; } }
            n.exp += if neg { -e } else { e };
            n.fexp += if neg { -e } else { e };
        }
        Ok(n)
    }
}

/// 1-based line and column (in characters, since the last line feed) of byte offset `at`
pub fn position(s: &[u8], at: usize) -> (usize, usize) {
    let (mut line, mut col) = (1, 1);
    for &b in &s[..at] { if b == b'\n' { line += 1; col = 1; } else if b & 0xC0 != 0x80 { col += 1; } }
    (line, col)
}
/// the character starting at byte offset `at`
pub fn char_at(s: &[u8], at: usize) -> u32 {
    let b = s[at] as u32;
    let k = |i: usize| (s[at + i] & 63) as u32;
    if b < 0x80 { b } else if b < 0xE0 { (b & 31) << 6 | k(1) } else if b < 0xF0 { (b & 15) << 12 | k(1) << 6 | k(2) } else { (b & 7) << 18 | k(1) << 12 | k(2) << 6 | k(3) }
}
