//! Natural numbers of any size, for exact comparisons of decimal and binary numbers. Shared by the
//! engine and by the native replay of the harnesses.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Big(Vec<u32>); // little endian, no leading zeros

impl Big {
    pub fn from(mut v: u128) -> Big { let mut d = vec![]; while v > 0 { d.push(v as u32); v >>= 32; } Big(d) }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn small(mut self, k: u32) -> Big {
        let mut c = 0u64;
        for x in self.0.iter_mut() { let t = *x as u64 * k as u64 + c; *x = t as u32; c = t >> 32; }
        if c > 0 { self.0.push(c as u32); }
        while self.0.last() == Some(&0) { self.0.pop(); }
        self
    }
    pub fn shl(self, n: u32) -> Big {
        if self.is_zero() { return self; }
        let mut d = vec![0u32; (n / 32) as usize];
        d.extend_from_slice(&self.0);
        Big(d).small(1 << (n % 32))
    }
    pub fn pow10(mut self, mut n: u32) -> Big {
        while n >= 9 { self = self.small(1_000_000_000); n -= 9; }
        self.small(10u32.pow(n))
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut d = vec![0u32; self.0.len() + o.0.len()];
        for (i, &x) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for (j, &y) in o.0.iter().enumerate() { let t = x as u64 * y as u64 + d[i + j] as u64 + c; d[i + j] = t as u32; c = t >> 32; }
            d[i + o.0.len()] = c as u32;
        }
        while d.last() == Some(&0) { d.pop(); }
        Big(d)
    }
    pub fn cmp(&self, o: &Big) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
    pub fn plus(&self, o: &Big) -> Big {
        let n = self.0.len().max(o.0.len());
        let (mut d, mut c) = (vec![], 0u64);
        for i in 0..n { let t = self.0.get(i).copied().unwrap_or(0) as u64 + o.0.get(i).copied().unwrap_or(0) as u64 + c; d.push(t as u32); c = t >> 32; }
        if c > 0 { d.push(c as u32); }
        Big(d)
    }
    /// |a - b|
    pub fn diff(&self, o: &Big) -> Big {
        let (a, b) = if self.cmp(o) == Ordering::Less { (o, self) } else { (self, o) };
        let (mut d, mut c) = (a.0.clone(), 0i64);
        for (i, x) in d.iter_mut().enumerate() {
            let t = *x as i64 - b.0.get(i).copied().unwrap_or(0) as i64 + c;
            *x = t as u32; c = t >> 32;
        }
        while d.last() == Some(&0) { d.pop(); }
        Big(d)
    }
    pub fn decimal(&self) -> String {
        let (mut v, mut parts) = (self.0.clone(), vec![]);
        while !v.is_empty() {
            let mut r = 0u64;
            for x in v.iter_mut().rev() { let t = r << 32 | *x as u64; *x = (t / 1_000_000_000) as u32; r = t % 1_000_000_000; }
            while v.last() == Some(&0) { v.pop(); }
            parts.push(r as u32);
        }
        let mut s = parts.pop().unwrap_or(0).to_string();
        while let Some(p) = parts.pop() { s.push_str(&format!("{:09}", p)); }
        s
    }
    pub fn bits(&self) -> i32 { self.0.len() as i32 * 32 - self.0.last().map_or(0, |x| x.leading_zeros() as i32) }
    /// 2^p2 * 10^p10 as (q, q', s) with q / 2^s <= value <= q' / 2^s, 192 bits of precision
    pub fn bounds(p2: i32, p10: i32) -> (Big, Big, i32) {
        let (n, d) = Big::ratio(1, p2, p10);
        let s = d.bits() + 192 - n.bits();
        let (mut n, d) = if s >= 0 { (n.shl(s as u32), d) } else { (n, d.shl(-s as u32)) };
        let mut q = Big(vec![]);
        for k in (0..194).rev() {
            let t = d.clone().shl(k);
            q = q.small(2);
            if n.cmp(&t) != Ordering::Less { n = n.diff(&t); q = q.plus(&Big::from(1)); }
        }
        let up = if n.is_zero() { q.clone() } else { q.plus(&Big::from(1)) };
        (q, up, s)
    }
    /// v * 2^p2 * 10^p10 as numerator and denominator
    pub fn ratio(v: u128, p2: i32, p10: i32) -> (Big, Big) {
        let (mut n, mut d) = (Big::from(v), Big::from(1));
        if p2 >= 0 { n = n.shl(p2 as u32); } else { d = d.shl(-p2 as u32); }
        if p10 >= 0 { n = n.pow10(p10 as u32); } else { d = d.pow10(-p10 as u32); }
        (n, d)
    }
}

/// a * 2^p2 * 10^p10 < b
pub fn scaled_lt(a: u64, b: u64, p2: i32, p10: i32) -> bool {
    let (n, d) = Big::ratio(a as u128, p2, p10);
    n.cmp(&d.mul(&Big::from(b as u128))) == Ordering::Less
}

/// Limits of a float format: (bits of precision, exponent of overflow, exponent of the smallest
/// normal number, exponent of a bound below which everything reads as zero, tolerance is 10^-n)
pub fn limits(w: u32) -> (i32, i32, i32, i32, i32) { if w == 64 { (53, 1024, -1022, -1076, 14) } else { (24, 128, -126, -151, 5) } }

/// Is the float of w bits with this bit pattern an acceptable reading of (-1)^neg * m * 10^e, m > 0?
/// Infinite exactly when the number is out of range (within the tolerance), zero when it is below half
/// the smallest float, and within the relative tolerance otherwise; below the normal numbers the
/// tolerance is that of the smallest normal number.
pub fn float_ok(bits: u64, w: u32, m: u64, e: i32, neg: bool) -> bool {
    let (p, top, low, zero, tol) = limits(w);
    if (bits >> (w - 1) & 1 == 1) != neg { return false; }
    let mag = bits & ((1u64 << (w - 1)) - 1);
    let (be, frac) = ((mag >> (p - 1)) as i32, mag & ((1 << (p - 1)) - 1));
    let inf = be == if w == 64 { 2047 } else { 255 };
    if inf && frac != 0 { return false; }
    if e < -1000 { return mag == 0; }
    if e > 1000 { return inf; }
    // x = xn / xd
    let (xn, xd) = Big::ratio(m as u128, 0, e);
    let t = Big::from(1).pow10(tol as u32);
    if inf { // x * (1 + 10^-tol) >= 2^top
        let l = xn.mul(&t).plus(&xn);
        let r = xd.mul(&t).shl(top as u32);
        return l.cmp(&r) != Ordering::Less;
    }
    if xn.clone().shl((-zero) as u32).cmp(&xd) != Ordering::Greater { return mag == 0; }
    // r = rn / 2^s
    let (rn, re) = if be == 0 { (frac, low - p + 1) } else { (frac | 1 << (p - 1), be - if w == 64 { 1075 } else { 150 }) };
    let (rn, rd) = Big::ratio(rn as u128, re, 0);
    // |r - x| * 10^tol <= max(x, 2^low), all times xd * rd
    let diff = rn.mul(&xd).diff(&xn.mul(&rd)).mul(&t);
    let (a, b) = (xn.mul(&rd), xd.mul(&rd));
    diff.cmp(&a) != Ordering::Greater || diff.shl((-low) as u32).cmp(&b) != Ordering::Greater
}
