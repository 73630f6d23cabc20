//! Hash-consed bit-vector terms with a simplifying constructor layer, unsigned
//! interval and known-zero analysis, and a concrete evaluator.
use std::collections::HashMap;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var, Undef,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem,
    And, Or, Xor,
    Shl, LShr, AShr, // only with a symbolic shift amount
    Eq, Ult, Ule, Slt, Sle,
    Ite, Zext, Sext, Extract, Concat,
    Table,
    FAdd, FSub, FMul, FDiv, FCmp, FToUi, FToSi, UiToF, SiToF, FExt, FTrunc, FPow,
    ScaledLt, // a * 2^k0 * 10^k1 < b
    FOk,      // the float a is an acceptable reading of b * 10^k0
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
}

#[derive(Clone, Copy)]
pub struct Info {
    pub lo: u128,
    pub hi: u128,
    pub kz: u128, // known-zero bits
    pub vars: u128,
    pub undef: bool,
    pub fp: bool,
    pub arith: bool, // contains division/remainder by constants or wide multiplication
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<Node, Id, Fx>,
    pub tables: Vec<(u16, std::rc::Rc<Vec<u64>>)>, // (width, entries)
    table_map: HashMap<(u16, std::rc::Rc<Vec<u64>>), u32>,
    pub var_w: Vec<u16>, // per var
    pub prov: HashMap<[Id; 16], Id, Fx>, // bytes of a stored value -> the value
    ext_memo: HashMap<u64, Id, Fx>,
    pub lossless: HashMap<Id, Id, Fx>, // truncated term -> the term, where truncation dropped only zeros
    // evaluation memo
    ev_gen: u32,
    ev_mark: Vec<u32>,
    ev_val: Vec<u128>,
}

#[derive(Clone, Copy, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH { FxH(0) }
}
impl std::hash::Hasher for FxH {
    fn finish(&self) -> u64 { self.0.rotate_left(26) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
}

pub fn mask(w: u16) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn bin_const(op: Op, w: u16, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => if b == 0 { return None } else { a / b },
        URem => if b == 0 { return None } else { a % b },
        SDiv => if b == 0 { return None } else { (sx(a, w).wrapping_div(sx(b, w))) as u128 & m },
        SRem => if b == 0 { return None } else { (sx(a, w).wrapping_rem(sx(b, w))) as u128 & m },
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        LShr => if b >= w as u128 { 0 } else { a >> b },
        AShr => { let s = if b >= w as u128 { w as u128 - 1 } else { b }; (sx(a, w) >> s) as u128 & m }
        Eq => (a == b) as u128,
        Ult => (a < b) as u128,
        Ule => (a <= b) as u128,
        Slt => (sx(a, w) < sx(b, w)) as u128,
        Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => return None,
    })
}

// floating point on bit patterns, w = 32 or 64
pub fn f_bin(op: Op, w: u16, a: u128, b: u128) -> u128 {
    if w == 64 {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = match op { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, FPow => x.powf(y), _ => unreachable!() };
        r.to_bits() as u128
    } else {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        let r = match op { FAdd => x + y, FSub => x - y, FMul => x * y, FDiv => x / y, FPow => x.powf(y), _ => unreachable!() };
        r.to_bits() as u128
    }
}
fn to_f64(v: u128, w: u16) -> f64 { if w == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 } }
/// pred: bit0 = oeq part, bit1 = ogt, bit2 = olt, bit3 = uno (LLVM encoding: oeq=1, ogt=2, oge=3, olt=4, ole=5, one=6, ord=7, uno=8 ...)
pub fn f_cmp(pred: u32, w: u16, a: u128, b: u128) -> bool {
    let (x, y) = (to_f64(a, w), to_f64(b, w));
    let bit = if x.is_nan() || y.is_nan() { 8 } else if x == y { 1 } else if x > y { 2 } else { 4 };
    pred & bit != 0
}
pub fn f_to_int(signed: bool, fw: u16, iw: u16, a: u128) -> u128 {
    // saturating semantics
    let x = to_f64(a, fw);
    if signed {
        let r = x as i128;
        let (lo, hi) = (-(1i128 << (iw - 1)), (1i128 << (iw - 1)) - 1);
        (r.clamp(lo, hi)) as u128 & mask(iw)
    } else {
        let r = x as u128;
        r.min(mask(iw))
    }
}
pub fn int_to_f(signed: bool, iw: u16, fw: u16, a: u128) -> u128 {
    if fw == 64 {
        (if signed { (sx(a, iw) as f64).to_bits() } else { (a as f64).to_bits() }) as u128
    } else {
        (if signed { (sx(a, iw) as f32).to_bits() } else { (a as f32).to_bits() }) as u128
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena { nodes: vec![], info: vec![], map: HashMap::default(), tables: vec![], table_map: HashMap::new(), var_w: vec![], prov: HashMap::default(), lossless: HashMap::default(), ext_memo: HashMap::default(), ev_gen: 0, ev_mark: vec![], ev_val: vec![] };
        a.nodes.push(Node { op: Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        a.info.push(Info { lo: 0, hi: 0, kz: 0, vars: 0, undef: false, fp: false, arith: false });
        a
    }
    #[inline] pub fn n(&self, i: Id) -> &Node { &self.nodes[i as usize] }
    #[inline] pub fn inf(&self, i: Id) -> &Info { &self.info[i as usize] }
    #[inline] pub fn w(&self, i: Id) -> u16 { self.nodes[i as usize].w }
    #[inline] pub fn is_const(&self, i: Id) -> Option<u128> { let n = self.n(i); if n.op == Const { Some(n.k) } else { None } }

    fn mk(&mut self, op: Op, w: u16, a: Id, b: Id, c: Id, k: u128) -> Id {
        let node = Node { op, w, a, b, c, k };
        if let Some(&i) = self.map.get(&node) { return i; }
        let id = self.nodes.len() as Id;
        let info = self.compute_info(&node);
        self.nodes.push(node);
        self.info.push(info);
        self.map.insert(node, id);
        id
    }

    fn compute_info(&self, n: &Node) -> Info {
        let m = mask(n.w);
        let mut r = Info { lo: 0, hi: m, kz: !m, vars: 0, undef: false, fp: false, arith: false };
        let nargs = match n.op { Const | Var | Undef => 0, Zext | Sext | Extract | Table | FToUi | FToSi | UiToF | SiToF | FExt | FTrunc => 1, Ite => 3, _ => 2 };
        let args = [n.a, n.b, n.c];
        for &x in &args[..nargs] {
            let i = self.inf(x);
            r.vars |= i.vars; r.undef |= i.undef; r.fp |= i.fp; r.arith |= i.arith;
        }
        let z = self.info.first().copied().unwrap_or(Info { lo: 0, hi: 0, kz: 0, vars: 0, undef: false, fp: false, arith: false });
        let (ia, ib) = (if nargs > 0 { *self.inf(n.a) } else { z }, if nargs > 1 { *self.inf(n.b) } else { z });
        match n.op {
            Const => { r.lo = n.k; r.hi = n.k; r.kz = !n.k; }
            Var => { r.vars = 1u128 << (n.k as u32); }
            Undef => r.undef = true,
            Add if n.k == 1 => { r.lo = ia.lo.saturating_add(ib.lo).min(m); r.hi = ia.hi.saturating_add(ib.hi).min(m); }
            Sub if n.k == 1 => { r.lo = ia.lo.saturating_sub(ib.hi); r.hi = ia.hi.saturating_sub(ib.lo); }
            Mul if n.k == 1 => { r.lo = ia.lo.saturating_mul(ib.lo).min(m); r.hi = ia.hi.saturating_mul(ib.hi).min(m); r.arith = true; }
            Add => {
                if let Some(h) = ia.hi.checked_add(ib.hi) { if h <= m { r.hi = h; r.lo = ia.lo + ib.lo; } }
                if r.hi == m && r.lo == 0 {
                    // adding a "negative" constant
                    if let Some(c) = self.is_const(n.b) { let d = (m - c).wrapping_add(1) & m; if d != 0 && ia.lo >= d { r.lo = ia.lo - d; r.hi = ia.hi - d; } }
                }
            }
            Sub => { if ia.lo >= ib.hi { r.lo = ia.lo - ib.hi; r.hi = ia.hi - ib.lo; } }
            Mul => { if let Some(h) = ia.hi.checked_mul(ib.hi) { if h <= m { r.hi = h; r.lo = ia.lo * ib.lo; } } if n.w > 8 { r.arith = true; } }
            UDiv => { if ib.lo > 0 { r.hi = ia.hi / ib.lo; r.lo = ia.lo / ib.hi; } r.arith = true; }
            URem => { if ib.lo > 0 { r.hi = (ib.hi - 1).min(ia.hi); } r.arith = true; }
            SDiv | SRem => { r.arith = true; }
            And => { r.kz |= ia.kz | ib.kz; r.hi = ia.hi.min(ib.hi); }
            Or => { r.kz |= ia.kz & ib.kz; r.lo = ia.lo.max(ib.lo); }
            Xor => { r.kz |= ia.kz & ib.kz; }
            LShr => { r.hi = ia.hi; }
            Ite => { let ic = *self.inf(n.c); r.lo = ib.lo.min(ic.lo); r.hi = ib.hi.max(ic.hi); r.kz |= ib.kz & ic.kz; }
            Zext => { r.lo = ia.lo; r.hi = ia.hi; r.kz |= ia.kz; }
            Extract => {
                let lo = n.b as u32;
                r.kz |= (ia.kz >> lo) | !m;
                if (ia.hi >> lo) <= m { r.hi = ia.hi >> lo; r.lo = ia.lo >> lo; }
            }
            Concat => {
                let wb = self.w(n.b) as u32;
                r.lo = (ia.lo << wb) | ib.lo; r.hi = (ia.hi << wb) | ib.hi;
                r.kz |= (ia.kz << wb) | (ib.kz & mask(wb as u16));
            }
            Table => {
                let t = &self.tables[n.k as usize].1;
                let (l, h) = (ia.lo.min(t.len() as u128 - 1) as usize, ia.hi.min(t.len() as u128 - 1) as usize);
                let mut orv = 0u64;
                r.lo = t[l..=h].iter().copied().min().unwrap() as u128;
                r.hi = t[l..=h].iter().copied().max().unwrap() as u128;
                for x in &t[l..=h] { orv |= x; }
                r.kz |= !(orv as u128);
            }
            FAdd | FSub | FMul | FDiv | FCmp | FToUi | FToSi | UiToF | SiToF | FExt | FTrunc | FPow | FOk => r.fp = true,
            ScaledLt => r.arith = true,
            _ => {}
        }
        r.hi &= m;
        // combine hi with known zero bits
        let maxkz = !r.kz & m;
        if maxkz < r.hi { r.hi = maxkz; }
        // hi bound implies high zero bits
        if r.hi < m { let lz = r.hi.leading_zeros(); let mm = if lz == 0 { 0 } else { !(!0u128 >> lz.min(127)) }; let mm = if lz == 128 { !0 } else { mm }; r.kz |= mm; }
        if r.lo > r.hi { r.lo = 0; }
        r
    }

    pub fn c(&mut self, w: u16, k: u128) -> Id { self.mk(Const, w, 0, 0, 0, k & mask(w)) }
    pub fn tru(&mut self) -> Id { self.c(1, 1) }
    pub fn fls(&mut self) -> Id { self.c(1, 0) }
    pub fn var(&mut self, w: u16) -> Id {
        let k = self.var_w.len();
        assert!(k < 128, "too many symbolic variables");
        self.var_w.push(w);
        self.mk(Var, w, 0, 0, 0, k as u128)
    }
    pub fn var_again(&mut self, k: u32, w: u16) -> Id { self.mk(Var, w, 0, 0, 0, k as u128) }
    pub fn undef(&mut self, w: u16) -> Id { self.mk(Undef, w, 0, 0, 0, 0) }
    pub fn table(&mut self, w: u16, t: Vec<u64>, idx: Id) -> Id {
        let t = std::rc::Rc::new(t);
        let id = match self.table_map.get(&(w, t.clone())) {
            Some(&i) => i,
            None => { let i = self.tables.len() as u32; self.tables.push((w, t.clone())); self.table_map.insert((w, t), i); i }
        };
        self.mk(Table, w, idx, 0, 0, id as u128)
    }

    /// Add, Sub or Mul known not to wrap on every path it is used on; kept as it is
    pub fn exact(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { if let Some(v) = bin_const(op, w, x, y) { return self.c(w, v); } }
        let (a, b) = if op != Sub && (self.is_const(a).is_some() || self.is_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(k) = self.is_const(b) { if k == (op == Mul) as u128 { return a; } if k == 0 { return b; } }
        self.mk(op, w, a, b, 0, 1)
    }
    pub fn not(&mut self, a: Id) -> Id {
        let n = *self.n(a);
        debug_assert!(n.w == 1);
        match n.op {
            Const => self.c(1, n.k ^ 1),
            Xor if self.is_const(n.b) == Some(1) => n.a,
            Ult => self.bin(Ule, n.b, n.a),
            Ule => self.bin(Ult, n.b, n.a),
            Slt => self.bin(Sle, n.b, n.a),
            Sle => self.bin(Slt, n.b, n.a),
            _ => { let o = self.tru(); self.mk(Xor, 1, a, o, 0, 0) }
        }
    }
    pub fn is_not(&self, a: Id) -> Option<Id> { let n = self.n(a); if n.op == Xor && n.w == 1 && self.is_const(n.b) == Some(1) { Some(n.a) } else { None } }

    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = if matches!(op, Eq | Ult | Ule | Slt | Sle) { 1 } else { w };
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = bin_const(op, w, x, y) { return self.c(rw, v); }
        }
        let m = mask(w);
        // commutative: constant to the right, else order by id
        if matches!(op, Add | Mul | And | Or | Xor | Eq) {
            if ca.is_some() || (cb.is_none() && a > b) { if !(ca.is_some() && cb.is_some()) && (ca.is_some() || a > b) { if !(cb.is_some()) { return self.bin2(op, b, a, w, m); } } }
        }
        self.bin2(op, a, b, w, m)
    }

    fn bin2(&mut self, op: Op, a: Id, b: Id, w: u16, m: u128) -> Id {
        if w == 1 { // one-bit arithmetic in terms of boolean connectives
            match op {
                UDiv | SDiv => return a,
                URem | SRem => return self.c(1, 0),
                Shl | LShr => { let nb = self.not(b); return self.bin(And, a, nb); }
                AShr => return a,
                Slt => { let nb = self.not(b); return self.bin(And, a, nb); }
                Sle => { let nb = self.not(b); return self.bin(Or, a, nb); }
                Eq => { if self.is_const(b).is_none() { let x = self.bin(Xor, a, b); return self.not(x); } }
                _ => {}
            }
        }
        let (na, nb) = (*self.n(a), *self.n(b));
        let cb = self.is_const(b);
        let ca = self.is_const(a);
        let (ia, ib) = (*self.inf(a), *self.inf(b));
        // sums of sign-extended narrow terms: compute at the narrow width
        if (op == Add || op == Sub) && w > 16 && (na.op == Sext || nb.op == Sext) {
            let (wa, wb) = (self.signed_width(a), self.signed_width(b));
            let nw = wa.max(wb) + 1;
            if nw <= 24 && nw < w {
                let x = self.extract(a, nw - 1, 0); let y = self.extract(b, nw - 1, 0);
                let r = self.bin(op, x, y);
                return self.sext(r, w);
            }
        }
        match op {
            Add => {
                if let Some(c) = cb {
                    if c == 0 { return a; }
                    if na.op == Add { if let Some(c2) = self.is_const(na.b) { let k = self.c(w, c.wrapping_add(c2)); return self.bin(Add, na.a, k); } }
                    if na.op == Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                        let t = self.bin(Add, na.b, b); let e = self.bin(Add, na.c, b); return self.ite(na.a, t, e);
                    }
                    // push through zext when no overflow
                    if na.op == Zext {
                        let xw = self.w(na.a); let xi = *self.inf(na.a);
                        if c <= mask(xw) && xi.hi + c <= mask(xw) { let k = self.c(xw, c); let s = self.bin(Add, na.a, k); return self.zext(s, w); }
                        let d = (m - c).wrapping_add(1) & m;
                        if d <= mask(xw) && xi.lo >= d { let k = self.c(xw, (mask(xw) - d).wrapping_add(1)); let s = self.bin(Add, na.a, k); return self.zext(s, w); }
                    }
                }
                if w == 1 { return self.bin(Xor, a, b); }
                // x + (0 - y)
                if nb.op == Sub && self.is_const(nb.a) == Some(0) { return self.bin(Sub, a, nb.b); }
                if na.op == Sub && na.b == b { return na.a; }
                if nb.op == Sub && nb.b == a { return nb.a; }
                // pull constants outwards so that addresses keep the shape symbolic + constant
                if cb.is_none() {
                    if na.op == Add && self.is_const(na.b).is_some() { let s = self.bin(Add, na.a, b); return self.bin(Add, s, na.b); }
                    if nb.op == Add && self.is_const(nb.b).is_some() { let s = self.bin(Add, a, nb.a); return self.bin(Add, s, nb.b); }
                }
            }
            Sub => {
                if a == b { return self.c(w, 0); }
                if let Some(c) = cb { let k = self.c(w, (m - c).wrapping_add(1)); return self.bin(Add, a, k); }
                if w == 1 { return self.bin(Xor, a, b); }
                if nb.op == Mul { let q = *self.n(nb.a); if q.op == UDiv && q.a == a && q.b == nb.b { return self.bin(URem, a, q.b); } }
                if na.op == Add && na.b == b { return na.a; }
                if na.op == Add && na.a == b { return na.b; }
                if nb.op == Add && nb.b == a { let z = self.c(w, 0); return self.bin(Sub, z, nb.a); }
                if na.op == Add && self.is_const(na.b).is_some() { let s = self.bin(Sub, na.a, b); return self.bin(Add, s, na.b); }
                if nb.op == Add { if let Some(c) = self.is_const(nb.b) { let s = self.bin(Sub, a, nb.a); let k = self.c(w, (m - c).wrapping_add(1)); return self.bin(Add, s, k); } }
            }
            Mul => {
                if let Some(c) = cb {
                    if c == 0 { return b; }
                    if c == 1 { return a; }
                    if c.is_power_of_two() { let k = c.trailing_zeros() as u16; return self.shl_c(a, k); }
                }
                if w == 1 { return self.bin(And, a, b); }
            }
            UDiv => {
                if let Some(c) = cb {
                    if c == 1 { return a; }
                    if c != 0 {
                        if c.is_power_of_two() { return self.lshr_c(a, c.trailing_zeros() as u16); }
                        if ia.hi < c { return self.c(w, 0); }
                        if na.op == UDiv { if let Some(c2) = self.is_const(na.b) { if let Some(p) = c.checked_mul(c2) { if p <= m { let k = self.c(w, p); return self.bin(UDiv, na.a, k); } } } }
                        if na.op == URem { if let Some(c2) = self.is_const(na.b) { if c2 != 0 && c2 % c == 0 { let q = self.bin(UDiv, na.a, b); let k = self.c(w, c2 / c); return self.bin(URem, q, k); } } }
                        if na.op == Zext { let xw = self.w(na.a); if c <= mask(xw) { let k = self.c(xw, c); let q = self.bin(UDiv, na.a, k); return self.zext(q, w); } else { return self.c(w, 0); } }
                    }
                }
            }
            URem => {
                if let Some(c) = cb {
                    if c == 1 { return self.c(w, 0); }
                    if c != 0 {
                        if ia.hi < c { return a; }
                        if c.is_power_of_two() { let k = c.trailing_zeros() as u16; let e = self.extract(a, k - 1, 0); return self.zext(e, w); }
                        if na.op == URem { if let Some(c2) = self.is_const(na.b) { if c2 != 0 && c2 % c == 0 { return self.bin(URem, na.a, b); } } }
                        if na.op == Zext { let xw = self.w(na.a); if c <= mask(xw) { let k = self.c(xw, c); let q = self.bin(URem, na.a, k); return self.zext(q, w); } else { return a; } }
                    }
                }
            }
            SDiv | SRem => {
                if let Some(c) = cb { if ia.hi <= m >> 1 && c <= m >> 1 && c > 0 { return self.bin(if op == SDiv { UDiv } else { URem }, a, b); } }
            }
            And => {
                if a == b { return a; }
                if let Some(c) = cb {
                    if c == 0 { return b; }
                    if (!c & m) & !ia.kz == 0 { return a; } // mask only clears known-zero bits
                    if (c & !ia.kz) & m == 0 { return self.c(w, 0); }
                    if w > 1 {
                        // contiguous low mask
                        let lz = (c + 1).is_power_of_two();
                        if lz { let k = 128 - c.leading_zeros() as u16; let e = self.extract(a, k - 1, 0); return self.zext(e, w); }
                        // contiguous shifted mask
                        let tz = c.trailing_zeros();
                        if ((c >> tz) + 1).is_power_of_two() {
                            let hi = 127 - c.leading_zeros() as u16;
                            let e = self.extract(a, hi, tz as u16);
                            let z = self.zext(e, w);
                            return self.shl_c(z, tz as u16);
                        }
                        if na.op == And { if let Some(c2) = self.is_const(na.b) { let k = self.c(w, c & c2); return self.bin(And, na.a, k); } }
                        if na.op == Zext { let xw = self.w(na.a); let k = self.c(xw, c); let e = self.bin(And, na.a, k); return self.zext(e, w); }
                    }
                }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.c(1, 0); }
                    // (x = c1) & (x = c2)
                    if na.op == Eq && nb.op == Eq && na.a == nb.a { if let (Some(x), Some(y)) = (self.is_const(na.b), self.is_const(nb.b)) { if x != y { return self.c(1, 0); } } }
                } else if na.op == Zext && nb.op == Zext && self.w(na.a) == self.w(nb.a) {
                    let e = self.bin(And, na.a, nb.a); return self.zext(e, w);
                }
                if ia.kz | ib.kz | !m == !0 { return self.c(w, 0); }
            }
            Or => {
                if a == b { return a; }
                if let Some(c) = cb { if c == 0 { return a; } if c == m { return b; } }
                if w == 1 {
                    if self.is_not(a) == Some(b) || self.is_not(b) == Some(a) { return self.c(1, 1); }
                } else {
                    // disjoint halves -> concat
                    if let Some(r) = self.or_concat(a, b, w) { return r; }
                    if let Some(r) = self.or_concat(b, a, w) { return r; }
                    if na.op == Zext && nb.op == Zext {
                        let (wa, wb) = (self.w(na.a), self.w(nb.a));
                        let mw = wa.max(wb);
                        if mw < w { let x = self.zext(na.a, mw); let y = self.zext(nb.a, mw); let e = self.bin(Or, x, y); return self.zext(e, w); }
                    }
                }
            }
            Xor => {
                if a == b { return self.c(w, 0); }
                if let Some(c) = cb {
                    if c == 0 { return a; }
                    if w == 1 { return self.not(a); }
                    if na.op == Xor { if let Some(c2) = self.is_const(na.b) { let k = self.c(w, c ^ c2); return self.bin(Xor, na.a, k); } }
                    if na.op == Zext && c <= mask(self.w(na.a)) { let k = self.c(self.w(na.a), c); let e = self.bin(Xor, na.a, k); return self.zext(e, w); }
                    if na.op == Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                        let t = self.bin(Xor, na.b, b); let e = self.bin(Xor, na.c, b); return self.ite(na.a, t, e);
                    }
                }
                if w == 1 { if let Some(x) = self.is_not(b) { let e = self.bin(Xor, a, x); return self.not(e); } if let Some(x) = self.is_not(a) { let e = self.bin(Xor, x, b); return self.not(e); } }
            }
            Shl => { if let Some(c) = cb { return if c >= w as u128 { self.c(w, 0) } else { self.shl_c(a, c as u16) }; } if ca == Some(0) { return a; } }
            LShr => { if let Some(c) = cb { return if c >= w as u128 { self.c(w, 0) } else { self.lshr_c(a, c as u16) }; } if ca == Some(0) { return a; } }
            AShr => { if let Some(c) = cb { let c = (c.min(w as u128 - 1)) as u16; if c == 0 { return a; } if ia.hi <= m >> 1 { return self.lshr_c(a, c); } let e = self.extract(a, w - 1, c); return self.sext(e, w); } }
            Eq => {
                if a == b { return self.c(1, 1); }
                if ia.hi < ib.lo || ib.hi < ia.lo { return self.c(1, 0); }
                if let Some(c) = cb {
                    if c & ia.kz & m != 0 { return self.c(1, 0); }
                    if w == 1 { return if c == 1 { a } else { self.not(a) }; }
                    match na.op {
                        Zext => { let xw = self.w(na.a); return if c > mask(xw) { self.c(1, 0) } else { let k = self.c(xw, c); self.bin(Eq, na.a, k) }; }
                        Sext => { let xw = self.w(na.a); let k = self.c(xw, c); return if sx(c & mask(xw), xw) as u128 & m == c { self.bin(Eq, na.a, k) } else { self.c(1, 0) }; }
                        Add => if let Some(c2) = self.is_const(na.b) { let k = self.c(w, c.wrapping_sub(c2)); return self.bin(Eq, na.a, k); },
                        Xor => if let Some(c2) = self.is_const(na.b) { let k = self.c(w, c ^ c2); return self.bin(Eq, na.a, k); },
                        Sub => if c == 0 { return self.bin(Eq, na.a, na.b); },
                        Mul => if let Some(c2) = self.is_const(na.b) { if c2 & 1 == 1 {
                            let mut inv = c2; // Newton iteration for the inverse modulo 2^128
                            for _ in 0..7 { inv = inv.wrapping_mul(2u128.wrapping_sub(c2.wrapping_mul(inv))); }
                            let k = self.c(w, c.wrapping_mul(inv)); return self.bin(Eq, na.a, k);
                        } },
                        Ite => {
                            if let (Some(x), Some(y)) = (self.is_const(na.b), self.is_const(na.c)) {
                                return match (x == c, y == c) { (true, true) => self.c(1, 1), (true, false) => na.a, (false, true) => self.not(na.a), _ => self.c(1, 0) };
                            }
                            if let Some(x) = self.is_const(na.b) { let e = self.bin(Eq, na.c, b); return if x == c { self.bin(Or, na.a, e) } else { let nn = self.not(na.a); self.bin(And, nn, e) }; }
                            if let Some(y) = self.is_const(na.c) { let e = self.bin(Eq, na.b, b); return if y == c { let nn = self.not(na.a); self.bin(Or, nn, e) } else { self.bin(And, na.a, e) }; }
                        }
                        Concat => {
                            let wb = self.w(na.b); let wa = self.w(na.a);
                            let k1 = self.c(wa, c >> wb); let k2 = self.c(wb, c);
                            let e1 = self.bin(Eq, na.a, k1); let e2 = self.bin(Eq, na.b, k2);
                            return self.bin(And, e1, e2);
                        }
                        Or if c == 0 => { let z = self.c(w, 0); let e1 = self.bin(Eq, na.a, z); let e2 = self.bin(Eq, na.b, z); return self.bin(And, e1, e2); }
                        Extract if false => {}
                        _ => {}
                    }
                }
                if na.op == Zext && nb.op == Zext {
                    let (wa, wb) = (self.w(na.a), self.w(nb.a)); let mw = wa.max(wb);
                    let x = self.zext(na.a, mw); let y = self.zext(nb.a, mw); return self.bin(Eq, x, y);
                }
                if na.op == Concat && nb.op == Concat && self.w(na.b) == self.w(nb.b) {
                    let e1 = self.bin(Eq, na.a, nb.a); let e2 = self.bin(Eq, na.b, nb.b); return self.bin(And, e1, e2);
                }
                if na.op == Add && nb.op == Add && na.b == nb.b { return self.bin(Eq, na.a, nb.a); }
                if na.op == Xor && nb.op == Xor {
                    if na.b == nb.b { return self.bin(Eq, na.a, nb.a); }
                    if na.a == nb.a { return self.bin(Eq, na.b, nb.b); }
                    if na.a == nb.b { return self.bin(Eq, na.b, nb.a); }
                    if na.b == nb.a { return self.bin(Eq, na.a, nb.b); }
                }
                // multiplication by an odd constant is a bijection
                if na.op == Mul && nb.op == Mul && na.b == nb.b && self.is_const(na.b).map_or(false, |c| c & 1 == 1) { return self.bin(Eq, na.a, nb.a); }
            }
            Ult => {
                if a == b { return self.c(1, 0); }
                if na.op == Add && (na.a == b || na.b == b) && self.inf(na.a).hi.checked_add(self.inf(na.b).hi).map_or(false, |s| s <= m) { return self.c(1, 0); }
                if ia.hi < ib.lo { return self.c(1, 1); }
                if ia.lo >= ib.hi { return self.c(1, 0); }
                if let Some(c) = cb {
                    if c == 1 { let z = self.c(w, 0); return self.bin(Eq, a, z); }
                    if c == m { let k = self.c(w, m); let e = self.bin(Eq, a, k); return self.not(e); }
                    if na.op == Zext { let xw = self.w(na.a); let k = self.c(xw, c); return self.bin(Ult, na.a, k); }
                    if na.op == Sext { return self.ult_sext(na.a, w, c); }
                    if ia.lo + 1 == c { let k = self.c(w, ia.lo); return self.bin(Eq, a, k); }
                    if ia.hi == c { let e = self.bin(Eq, a, b); return self.not(e); }
                }
                if let Some(c) = ca {
                    if c == 0 { let z = self.c(w, 0); let e = self.bin(Eq, b, z); return self.not(e); }
                    if nb.op == Zext { let xw = self.w(nb.a); let k = self.c(xw, c); return self.bin(Ult, k, nb.a); }
                    if nb.op == Sext && c < m { let e = self.ult_sext(nb.a, w, c + 1); return self.not(e); }
                    if ib.hi == c + 1 { let k = self.c(w, ib.hi); return self.bin(Eq, b, k); }
                }
                if na.op == Zext && nb.op == Zext { let mw = self.w(na.a).max(self.w(nb.a)); let x = self.zext(na.a, mw); let y = self.zext(nb.a, mw); return self.bin(Ult, x, y); }
                if w == 1 { let nn = self.not(a); return self.bin(And, nn, b); }
            }
            Ule => {
                if a == b { return self.c(1, 1); }
                // a <= a + y without overflow
                if nb.op == Add && (nb.a == a || nb.b == a) && self.inf(nb.a).hi.checked_add(self.inf(nb.b).hi).map_or(false, |s| s <= m) { return self.c(1, 1); }
                if ia.hi <= ib.lo { return self.c(1, 1); }
                if ia.lo > ib.hi { return self.c(1, 0); }
                if let Some(c) = cb { let k = self.c(w, c + 1); return self.bin(Ult, a, k); }
                if let Some(c) = ca { let k = self.c(w, c - 1); return self.bin(Ult, k, b); }
                if na.op == Zext && nb.op == Zext { let mw = self.w(na.a).max(self.w(nb.a)); let x = self.zext(na.a, mw); let y = self.zext(nb.a, mw); return self.bin(Ule, x, y); }
                if w == 1 { let nn = self.not(a); return self.bin(Or, nn, b); }
            }
            Slt | Sle => {
                if a == b { return self.c(1, (op == Sle) as u128); }
                let h = m >> 1;
                let u = if op == Slt { Ult } else { Ule };
                if ia.hi <= h && ib.hi <= h { return self.bin(u, a, b); }
                if ia.hi <= h && ib.lo > h { return self.c(1, 0); }
                if ia.lo > h && ib.hi <= h { return self.c(1, 1); }
                if ia.lo > h && ib.lo > h { return self.bin(u, a, b); }
                // x <s 0  and  -1 <s x
                if op == Slt && cb == Some(0) { return self.extract(a, w - 1, w - 1); }
                if op == Slt && ca == Some(m) { let e = self.extract(b, w - 1, w - 1); return self.not(e); }
                if op == Sle && ca == Some(0) { let e = self.extract(b, w - 1, w - 1); return self.not(e); }
                if na.op == Sext && nb.op == Sext && self.w(na.a) == self.w(nb.a) { return self.bin(op, na.a, nb.a); }
                if na.op == Sext { if let Some(c) = cb { let xw = self.w(na.a); let s = sx(c, w); if s >= -(1i128 << (xw - 1)) && s < (1i128 << (xw - 1)) { let k = self.c(xw, c); return self.bin(op, na.a, k); } } }
                if nb.op == Sext { if let Some(c) = ca { let xw = self.w(nb.a); let s = sx(c, w); if s >= -(1i128 << (xw - 1)) && s < (1i128 << (xw - 1)) { let k = self.c(xw, c); return self.bin(op, k, nb.a); } } }
                if op == Sle { if let Some(c) = cb { if c != h { let k = self.c(w, c + 1); return self.bin(Slt, a, k); } } }
            }
            _ => {}
        }
        let rw = if matches!(op, Eq | Ult | Ule | Slt | Sle) { 1 } else { w };
        self.mk(op, rw, a, b, 0, 0)
    }

    /// Sext(x, w) <u c
    fn ult_sext(&mut self, x: Id, w: u16, c: u128) -> Id {
        let xw = self.w(x);
        let h = 1u128 << (xw - 1);
        let top = mask(w) - h + 1; // values in h..top do not occur
        let k = if c <= h { c } else if c <= top { h } else { c & mask(xw) };
        let k = self.c(xw, k);
        self.bin(Ult, x, k)
    }
    fn signed_width(&self, x: Id) -> u16 {
        let n = self.n(x);
        match n.op {
            Sext => self.w(n.a),
            Zext => self.w(n.a) + 1,
            Const => { let s = sx(n.k, n.w); 129 - (if s < 0 { !s } else { s }).leading_zeros() as u16 }
            _ => n.w,
        }
    }
    // a | b where b occupies only bits below some k and a only bits >= k
    fn or_concat(&mut self, a: Id, b: Id, w: u16) -> Option<Id> {
        let na = *self.n(a);
        if na.op != Concat { return None; }
        let wl = self.w(na.b);
        if self.is_const(na.b) != Some(0) { return None; }
        let ib = *self.inf(b);
        let m = mask(w);
        if ib.hi <= mask(wl) {
            let low = self.extract(b, wl - 1, 0);
            return Some(self.concat(na.a, low));
        }
        // b also a concat with aligned pieces: split at wl
        let _ = m;
        let bh = self.extract(b, w - 1, wl);
        let bl = self.extract(b, wl - 1, 0);
        if self.is_const(bl) == Some(0) || self.inf(na.a).kz & !self.inf(bh).kz | 0 != 0 {
            let nb = *self.n(b);
            if matches!(nb.op, Concat | Zext) { let h = self.bin(Or, na.a, bh); return Some(self.concat(h, bl)); }
        }
        None
    }

    pub fn shl_c(&mut self, a: Id, k: u16) -> Id {
        let w = self.w(a);
        if k == 0 { return a; }
        if k >= w { return self.c(w, 0); }
        let h = self.extract(a, w - k - 1, 0);
        let z = self.c(k, 0);
        self.concat(h, z)
    }
    pub fn lshr_c(&mut self, a: Id, k: u16) -> Id {
        let w = self.w(a);
        if k == 0 { return a; }
        if k >= w { return self.c(w, 0); }
        let e = self.extract(a, w - 1, k);
        self.zext(e, w)
    }

    pub fn zext(&mut self, a: Id, w: u16) -> Id {
        let n = *self.n(a);
        if n.w == w { return a; }
        debug_assert!(w > n.w);
        match n.op {
            Const => self.c(w, n.k),
            Zext => self.zext(n.a, w),
            Add | Sub | Mul if self.lossless.get(&a).map_or(false, |x| self.w(*x) <= w) => { let x = self.lossless[&a]; self.zext(x, w) }
            Ite if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() && n.w > 1 => { let t = self.zext(n.b, w); let e = self.zext(n.c, w); self.ite(n.a, t, e) }
            _ => self.mk(Zext, w, a, 0, 0, 0),
        }
    }
    pub fn sext(&mut self, a: Id, w: u16) -> Id {
        let n = *self.n(a);
        if n.w == w { return a; }
        if let Some(k) = self.is_const(a) { return self.c(w, sx(k, n.w) as u128); }
        if self.inf(a).hi <= mask(n.w) >> 1 { return self.zext(a, w); }
        match n.op { Sext => self.sext(n.a, w), _ => self.mk(Sext, w, a, 0, 0, 0) }
    }
    pub fn concat(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (*self.n(a), *self.n(b));
        let w = na.w + nb.w;
        assert!(w <= 128, "concat too wide");
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return self.c(w, (x << nb.w) | y); }
        if self.is_const(a) == Some(0) { return self.zext(b, w); }
        if na.op == Extract && nb.op == Extract && na.a == nb.a && na.b as u16 == nb.c as u16 + 1 { return self.extract(na.a, na.c as u16, nb.b as u16); }
        if na.op == Zext && self.w(na.a) + nb.w < w { let x = self.concat(na.a, b); return self.zext(x, w); }
        // the low part may have been simplified after it was taken out
        if na.op == Extract && na.b as u16 == nb.w && matches!(nb.op, Add | Sub | Mul) {
            let low = self.extract(na.a, nb.w - 1, 0);
            if low == b { return self.extract(na.a, na.c as u16, 0); }
        }
        // right-assoc: concat(concat(x,y),z) -> concat(x, concat(y,z)) if y,z merge
        if na.op == Concat {
            let ny = *self.n(na.b);
            if (ny.op == Extract && nb.op == Extract && ny.a == nb.a && ny.b == nb.c + 1) || (ny.op == Const && nb.op == Const) { let yz = self.concat(na.b, b); return self.concat(na.a, yz); }
        }
        if nb.op == Concat {
            let ny = *self.n(nb.a);
            if (na.op == Extract && ny.op == Extract && na.a == ny.a && na.b == ny.c + 1) || (ny.op == Const && na.op == Const) { let xy = self.concat(a, nb.a); return self.concat(xy, nb.b); }
        }
        self.mk(Concat, w, a, b, 0, 0)
    }
    /// bits hi..=lo ; node fields: a = arg, b = lo, c = hi
    pub fn extract(&mut self, a: Id, hi: u16, lo: u16) -> Id {
        let key = (a as u64) << 32 | (hi as u64) << 16 | lo as u64;
        if let Some(&r) = self.ext_memo.get(&key) { return r; }
        let r = self.extract0(a, hi, lo);
        self.ext_memo.insert(key, r);
        r
    }
    fn extract0(&mut self, a: Id, hi: u16, lo: u16) -> Id {
        let n = *self.n(a);
        let w = hi - lo + 1;
        if w == n.w { return a; }
        debug_assert!(hi < n.w && hi >= lo);
        match n.op {
            Const => return self.c(w, n.k >> lo),
            Undef => return self.undef(w),
            Extract => return self.extract(n.a, hi + n.b as u16, lo + n.b as u16),
            Concat => {
                let wb = self.w(n.b);
                if lo >= wb { return self.extract(n.a, hi - wb, lo - wb); }
                if hi < wb { return self.extract(n.b, hi, lo); }
                let x = self.extract(n.a, hi - wb, 0); let y = self.extract(n.b, wb - 1, lo);
                return self.concat(x, y);
            }
            Zext => {
                let xw = self.w(n.a);
                if lo >= xw { return self.c(w, 0); }
                if hi < xw { return self.extract(n.a, hi, lo); }
                let x = self.extract(n.a, xw - 1, lo); return self.zext(x, w);
            }
            Sext => {
                let xw = self.w(n.a);
                if hi < xw { return self.extract(n.a, hi, lo); }
                if lo == 0 { return self.sext(n.a, w); }
                if lo < xw { let x = self.extract(n.a, xw - 1, lo); return self.sext(x, w); }
                let x = self.extract(n.a, xw - 1, xw - 1); return self.sext(x, w);
            }
            And | Or | Xor => { let x = self.extract(n.a, hi, lo); let y = self.extract(n.b, hi, lo); return self.bin(n.op, x, y); }
            Ite if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() || self.n(n.b).op == Zext || self.n(n.c).op == Zext || w == 8 => { let x = self.extract(n.b, hi, lo); let y = self.extract(n.c, hi, lo); return self.ite(n.a, x, y); }
            Add | Sub | Mul if lo == 0 && n.k == 0 => {
                // low bits of arithmetic depend on low bits only
                let x = self.extract(n.a, hi, 0); let y = self.extract(n.b, hi, 0);
                let cheap = self.is_const(x).is_some() || self.is_const(y).is_some() || self.n(n.a).op == Zext || self.n(n.b).op == Zext;
                if cheap {
                    let r = self.bin(n.op, x, y);
                    if w >= 16 && self.inf(a).hi <= mask(w) && matches!(self.n(r).op, Add | Sub | Mul) { self.lossless.insert(r, a); }
                    return r;
                }
            }
            Table => {
                let (tw, t) = self.tables[n.k as usize].clone();
                let _ = tw;
                let v: Vec<u64> = t.iter().map(|x| ((x >> lo) as u128 & mask(w)) as u64).collect();
                if v.iter().all(|x| *x == v[0]) { return self.c(w, v[0] as u128); }
                return self.table(w, v, n.a);
            }
            _ => {}
        }
        let i = *self.inf(a);
        if lo > 0 && (i.hi >> lo) == 0 { return self.c(w, 0); }
        if (i.kz >> lo) & mask(w) == mask(w) { return self.c(w, 0); }
        self.mk(Extract, w, a, lo as Id, hi as Id, 0)
    }

    pub fn ite(&mut self, c: Id, t: Id, e: Id) -> Id {
        if let Some(k) = self.is_const(c) { return if k == 1 { t } else { e }; }
        if t == e { return t; }
        let w = self.w(t);
        debug_assert_eq!(w, self.w(e));
        if let Some(nc) = self.is_not(c) { return self.ite(nc, e, t); }
        if w == 1 {
            match (self.is_const(t), self.is_const(e)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Or, c, e),
                (Some(0), None) => { let n = self.not(c); return self.bin(And, n, e); }
                (None, Some(0)) => return self.bin(And, c, t),
                (None, Some(1)) => { let n = self.not(c); return self.bin(Or, n, t); }
                _ => {}
            }
        }
        let (nt, ne) = (*self.n(t), *self.n(e));
        if nt.op == Ite && nt.a == c { return self.ite(c, nt.b, e); }
        if ne.op == Ite && ne.a == c { return self.ite(c, t, ne.c); }
        if nt.op == Zext && ne.op == Zext && self.w(nt.a) == self.w(ne.a) { let x = self.ite(c, nt.a, ne.a); return self.zext(x, w); }
        // if x == k then k else x
        if w > 1 { let nc = *self.n(c); if nc.op == Eq && ((nc.a == e && nc.b == t) || (nc.b == e && nc.a == t)) { return e; } }
        self.mk(Ite, w, c, t, e, 0)
    }

    // ---- floating point (bit patterns) ----
    /// sign, constant exponent (biased) and fraction of a pattern of a finite float
    fn fparts(&mut self, a: Id) -> Option<(Id, u128, Id)> {
        if self.inf(a).fp { return None; }
        let (w, fb) = match self.w(a) { 64 => (64u16, 52u16), 32 => (32, 23), _ => return None };
        let e = self.extract(a, w - 2, fb);
        let e = self.is_const(e)?;
        if e == mask(w - 1 - fb) { return None; }
        Some((self.extract(a, w - 1, w - 1), e, self.extract(a, fb - 1, 0)))
    }
    /// rounding towards zero
    pub fn ftrunc(&mut self, a: Id) -> Id {
        let w = self.w(a);
        if let Some(x) = self.is_const(a) { let v = if w == 64 { f64::from_bits(x as u64).trunc().to_bits() as u128 } else { f32::from_bits(x as u32).trunc().to_bits() as u128 }; return self.c(w, v); }
        let (fb, bias) = if w == 64 { (52u16, 1023u128) } else { (23, 127) };
        if let Some((s, e, _)) = self.fparts(a) {
            if e < bias { let z = self.c(w - 1, 0); return self.concat(s, z); }
            if e >= bias + fb as u128 { return a; }
            let k = fb - (e - bias) as u16;
            let h = self.extract(a, w - 1, k);
            let z = self.c(k, 0);
            return self.concat(h, z);
        }
        let e = self.extract(a, w - 2, fb);
        let e = self.zext(e, w);
        let (cb, ct) = (self.c(w, bias), self.c(w, bias + fb as u128));
        let (small, large) = (self.bin(Ult, e, cb), self.bin(Ule, ct, e));
        let sh = self.bin(Sub, e, cb);
        let fm = self.c(w, mask(fb));
        let m = self.bin(LShr, fm, sh);
        let om = self.c(w, mask(w));
        let m = self.bin(Xor, m, om);
        let mid = self.bin(And, a, m);
        let s = self.extract(a, w - 1, w - 1);
        let z = self.c(w - 1, 0);
        let zero = self.concat(s, z);
        let r = self.ite(large, a, mid);
        self.ite(small, zero, r)
    }
    pub fn fbin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { let v = f_bin(op, w, x, y); return self.c(w, v); }
        if op == FMul || op == FDiv { // multiplication or division by 1.0 (exact identity, sNaN aside)
            let one = if w == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 };
            if self.is_const(b) == Some(one) { return a; }
        }
        let (a, b) = if (op == FMul || op == FAdd) && (self.is_const(a).is_some() || self.is_const(b).is_none() && a > b) { (b, a) } else { (a, b) };
        self.mk(op, w, a, b, 0, 0)
    }
    pub fn big_op(&self, op: Op, k: u128, w: u16, a: u128, b: u128) -> bool {
        let (k0, k1) = (k as u32 as i32, (k >> 32) as u32 as i32);
        if op == ScaledLt { crate::big::scaled_lt(a as u64, b as u64, k0, k1) } else { crate::big::float_ok(a as u64, w as u32, b as u64, k0, k1 == 1) }
    }
    /// ScaledLt or FOk
    pub fn big(&mut self, op: Op, a: Id, b: Id, k: u128) -> Id {
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { let v = self.big_op(op, k, self.w(a), x, y); return self.c(1, v as u128); }
        self.mk(op, 1, a, b, 0, k)
    }
    fn fin(&mut self, a: Id) -> bool {
        match (self.is_const(a), self.w(a)) { (Some(k), 64) => f64::from_bits(k as u64).is_finite(), (Some(k), 32) => f32::from_bits(k as u32).is_finite(), _ => self.fparts(a).is_some() }
    }
    pub fn fcmp(&mut self, pred: u32, a: Id, b: Id) -> Id {
        if pred == 0 { return self.fls(); }
        if pred == 15 { return self.tru(); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { let v = f_cmp(pred, w, x, y); return self.c(1, v as u128); }
        if a == b { // equal, or NaN
            let (eq, un) = (pred & 1 != 0, pred & 8 != 0);
            if eq == un { return self.c(1, eq as u128); }
        }
        // the difference of two finite floats against zero
        if let Some(k) = self.is_const(b) {
            let n = *self.n(a);
            if n.op == FSub && k & (mask(w) >> 1) == 0 && self.fin(n.a) && self.fin(n.b) { return self.fcmp(pred, n.a, n.b); }
        }
        let (a, b) = if (pred & 2 != 0) == (pred & 4 != 0) && self.is_const(b).is_none() && a > b { (b, a) } else { (a, b) };
        // two patterns of normal floats with known exponents: on the bits
        if self.is_const(a).is_none() && self.is_const(b).is_none() {
            if let (Some((s, e, _)), Some((t, f, _))) = (self.fparts(a), self.fparts(b)) {
                if e > 0 && f > 0 {
                    if pred & 6 == 0 || pred & 6 == 6 {
                        let eq = self.bin(Eq, a, b);
                        return if pred & 6 == 0 { if pred & 1 != 0 { eq } else { self.fls() } } else if pred & 1 != 0 { self.tru() } else { self.not(eq) };
                    }
                    if let (Some(s), Some(t)) = (self.is_const(s), self.is_const(t)) {
                        if s != t { let lt = s == 1; return self.c(1, (pred & if lt { 4 } else { 2 } != 0) as u128); }
                        let less = (pred & 4 != 0) != (s == 1);
                        let (x, y) = if less { (a, b) } else { (b, a) };
                        return self.bin(if pred & 1 != 0 { Ule } else { Ult }, x, y);
                    }
                }
            }
        }
        // comparison with a constant: on the bits
        if self.is_const(a).is_some() { let p = pred & 9 | (pred & 2) << 1 | (pred & 4) >> 1; return self.fcmp(p, b, a); }
        if let Some(k) = self.is_const(b) {
            if !self.inf(a).fp && !f_cmp(8, w, k, k) {
                let (inf, sign) = if w == 64 { (0x7ff0_0000_0000_0000u128, 1u128 << 63) } else { (0x7f80_0000, 1 << 31) };
                let mag = self.extract(a, w - 2, 0);
                let (kinf, kmag) = (self.c(w - 1, inf), self.c(w - 1, k & (sign - 1)));
                let neg = self.extract(a, w - 1, w - 1);
                let nan = self.bin(Ult, kinf, mag);
                let zero = { let z = self.c(w - 1, 0); self.bin(Eq, mag, z) };
                let (eq, lt);
                if k & (sign - 1) == 0 {
                    eq = zero;
                    let nz = self.not(zero);
                    lt = self.bin(And, neg, nz);
                } else {
                    eq = { let c = self.c(w, k); self.bin(Eq, a, c) };
                    let pos = self.not(neg);
                    if k & sign == 0 { let l = self.bin(Ult, mag, kmag); lt = self.bin(Or, neg, l); }
                    else { let g = self.bin(Ult, kmag, mag); lt = self.bin(And, neg, g); }
                    let _ = pos;
                }
                let gt = { let o = self.bin(Or, eq, lt); self.not(o) };
                let mut r = self.fls();
                for (bit, t) in [(1, eq), (2, gt), (4, lt)] { if pred & bit != 0 { r = self.bin(Or, r, t); } }
                let t = if pred & 8 != 0 { self.tru() } else { self.fls() };
                return self.ite(nan, t, r);
            }
        }
        self.mk(FCmp, 1, a, b, 0, pred as u128)
    }
    pub fn fcast(&mut self, op: Op, a: Id, w: u16) -> Id {
        let aw = self.w(a);
        if let Some(x) = self.is_const(a) {
            let v = match op {
                FToUi => f_to_int(false, aw, w, x),
                FToSi => f_to_int(true, aw, w, x),
                UiToF => int_to_f(false, aw, w, x),
                SiToF => int_to_f(true, aw, w, x),
                FExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
                FTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
                _ => unreachable!(),
            };
            return self.c(w, v);
        }
        if op == FExt && aw == 32 && w == 64 && !self.inf(a).fp { // widening of a normal or partly known subnormal pattern, on the bits
            let e = self.extract(a, 30, 23);
            let frac = self.extract(a, 22, 0);
            let sign = self.extract(a, 31, 31);
            match self.is_const(e) {
                Some(0) => {
                    let i = *self.inf(frac);
                    if i.hi > 0 && i.lo > 0 && i.hi.leading_zeros() == i.lo.leading_zeros() {
                        let top = (127 - i.hi.leading_zeros()) as u16; // position of the leading one
                        let x = self.c(11, (top as u128 + 1023) - 149);
                        let head = self.concat(sign, x);
                        if top == 0 { let z = self.c(52, 0); return self.concat(head, z); }
                        let low = self.extract(frac, top - 1, 0);
                        let z = self.c(52 - top, 0);
                        let m = self.concat(low, z);
                        return self.concat(head, m);
                    }
                }
                Some(255) | None => {}
                Some(k) => {
                    let x = self.c(11, k + 1023 - 127);
                    let head = self.concat(sign, x);
                    let z = self.c(29, 0);
                    let m = self.concat(frac, z);
                    return self.concat(head, m);
                }
            }
        }
        if op == FToUi || op == FToSi {
            if let Some((s, e, frac)) = self.fparts(a) {
                let (fb, bias) = if aw == 64 { (52u16, 1023u128) } else { (23, 127) };
                if e < bias { return self.c(w, 0); }
                let one = self.c(1, 1);
                let sig = self.concat(one, frac);
                let top = (e - bias) as u16; // place of the leading one
                let (pos, neg);
                if top >= if op == FToUi { w } else { w - 1 } {
                    pos = self.c(w, if op == FToUi { mask(w) } else { mask(w) >> 1 });
                    neg = self.c(w, if op == FToUi { 0 } else { 1 << (w - 1) });
                } else {
                    let m = if top <= fb { self.extract(sig, fb, fb - top) } else { let z = self.c(top - fb, 0); self.concat(sig, z) };
                    pos = if top + 1 == w { m } else { self.zext(m, w) };
                    let z = self.c(w, 0);
                    neg = if op == FToUi { z } else { self.bin(Sub, z, pos) };
                }
                return self.ite(s, neg, pos);
            }
        }
        if op == UiToF && !self.inf(a).fp {
            let i = *self.inf(a);
            let (fb, bias) = if w == 64 { (52u16, 1023u128) } else { (23, 127) };
            if i.lo > 0 && i.hi.leading_zeros() == i.lo.leading_zeros() {
                let top = (127 - i.hi.leading_zeros()) as u16;
                if top <= fb {
                    let h = self.c(w - fb, bias + top as u128);
                    if top == 0 { let z = self.c(fb, 0); return self.concat(h, z); }
                    let low = self.extract(a, top - 1, 0);
                    let m = if top == fb { low } else { let z = self.c(fb - top, 0); self.concat(low, z) };
                    return self.concat(h, m);
                }
            }
        }
        if op == SiToF {
            let n = *self.n(a);
            if n.op == Sub && self.is_const(n.a) == Some(0) && self.inf(n.b).hi <= mask(aw) >> 1 && self.inf(n.b).lo > 0 {
                let m = self.fcast(UiToF, n.b, w);
                if !self.inf(m).fp { let x = self.extract(m, w - 2, 0); let o = self.c(1, 1); return self.concat(o, x); }
            }
        }
        if op == SiToF && self.inf(a).hi <= mask(aw) >> 1 { return self.fcast(UiToF, a, w); }
        if op == UiToF { let n = *self.n(a); if n.op == Zext { return self.fcast(UiToF, n.a, w); } }
        self.mk(op, w, a, 0, 0, 0)
    }

    // ---- evaluation ----
    pub fn eval_begin(&mut self) { self.ev_gen += 1; self.ev_mark.resize(self.nodes.len(), 0); self.ev_val.resize(self.nodes.len(), 0); }
    /// Must be bracketed by eval_begin for each model.
    pub fn eval(&mut self, id: Id, model: &[u128]) -> u128 {
        if let Some(k) = self.is_const(id) { return k; }
        let g = self.ev_gen;
        if (id as usize) >= self.ev_mark.len() { self.ev_mark.resize(self.nodes.len(), 0); self.ev_val.resize(self.nodes.len(), 0); }
        if self.ev_mark[id as usize] == g { return self.ev_val[id as usize]; }
        // iterative post-order to avoid deep recursion
        let mut stack = vec![(id, false)];
        while let Some((x, ready)) = stack.pop() {
            if self.ev_mark[x as usize] == g { continue; }
            let n = self.nodes[x as usize];
            if !ready {
                stack.push((x, true));
                match n.op {
                    Const | Var | Undef => {}
                    Zext | Sext | Extract | Table | FToUi | FToSi | UiToF | SiToF | FExt | FTrunc => stack.push((n.a, false)),
                    Ite => { stack.push((n.a, false)); stack.push((n.b, false)); stack.push((n.c, false)); }
                    _ => { stack.push((n.a, false)); stack.push((n.b, false)); }
                }
                continue;
            }
            let m = mask(n.w);
            let va = self.ev_val[n.a as usize];
            let v = match n.op {
                Const => n.k,
                Var => model.get(n.k as usize).copied().unwrap_or(0) & m,
                Undef => 0,
                Ite => if va == 1 { self.ev_val[n.b as usize] } else { self.ev_val[n.c as usize] },
                Zext => va,
                Sext => sx(va, self.w(n.a)) as u128 & m,
                Extract => (va >> n.b) & m,
                Concat => (va << self.w(n.b)) | self.ev_val[n.b as usize],
                Table => { let t = &self.tables[n.k as usize].1; t.get(va as usize).copied().unwrap_or(0) as u128 }
                FAdd | FSub | FMul | FDiv | FPow => f_bin(n.op, n.w, va, self.ev_val[n.b as usize]),
                FCmp => f_cmp(n.k as u32, self.w(n.a), va, self.ev_val[n.b as usize]) as u128,
                ScaledLt | FOk => self.big_op(n.op, n.k, self.w(n.a), va, self.ev_val[n.b as usize]) as u128,
                FToUi => f_to_int(false, self.w(n.a), n.w, va),
                FToSi => f_to_int(true, self.w(n.a), n.w, va),
                UiToF => int_to_f(false, self.w(n.a), n.w, va),
                SiToF => int_to_f(true, self.w(n.a), n.w, va),
                FExt => (f32::from_bits(va as u32) as f64).to_bits() as u128,
                FTrunc => (f64::from_bits(va as u64) as f32).to_bits() as u128,
                UDiv if self.ev_val[n.b as usize] == 0 => m,
                URem if self.ev_val[n.b as usize] == 0 => va,
                SDiv if self.ev_val[n.b as usize] == 0 => if sx(va, n.w) < 0 { 1 } else { m },
                SRem if self.ev_val[n.b as usize] == 0 => va,
                _ => bin_const(n.op, self.w(n.a), va, self.ev_val[n.b as usize]).unwrap(),
            };
            self.ev_mark[x as usize] = g;
            self.ev_val[x as usize] = v;
        }
        self.ev_val[id as usize]
    }

    /// `id` with every undefined value of width w replaced by `by[w]`
    pub fn without_undef(&mut self, id: Id, by: &HashMap<u16, Id>) -> Id {
        let mut memo: HashMap<Id, Id> = HashMap::new();
        let mut stack = vec![(id, false)];
        while let Some((x, ready)) = stack.pop() {
            if memo.contains_key(&x) { continue; }
            if !self.inf(x).undef { memo.insert(x, x); continue; }
            let n = self.nodes[x as usize];
            let args: &[Id] = &match n.op { Undef => vec![], Zext | Sext | Extract | Table | FToUi | FToSi | UiToF | SiToF | FExt | FTrunc => vec![n.a], Ite => vec![n.a, n.b, n.c], _ => vec![n.a, n.b] };
            if !ready { stack.push((x, true)); for &a in args { stack.push((a, false)); } continue; }
            let g = |k: usize| memo[&args[k]];
            let r = match n.op {
                Undef => by[&n.w],
                Zext => self.zext(g(0), n.w),
                Sext => self.sext(g(0), n.w),
                Extract => self.extract(g(0), n.c as u16, n.b as u16),
                Table => { let t = self.tables[n.k as usize].1.to_vec(); match self.is_const(g(0)) { Some(i) => self.c(n.w, t.get(i as usize).copied().unwrap_or(0) as u128), None => self.table(n.w, t, g(0)) } }
                FToUi | FToSi | UiToF | SiToF | FExt | FTrunc => self.fcast(n.op, g(0), n.w),
                FAdd | FSub | FMul | FDiv | FPow => self.fbin(n.op, g(0), g(1)),
                FCmp => self.fcmp(n.k as u32, g(0), g(1)),
                ScaledLt | FOk => self.big(n.op, g(0), g(1), n.k),
                Ite => self.ite(g(0), g(1), g(2)),
                Concat => self.concat(g(0), g(1)),
                op => self.bin(op, g(0), g(1)),
            };
            memo.insert(x, r);
        }
        memo[&id]
    }
    pub fn undef_widths(&self, id: Id) -> Vec<u16> {
        let (mut seen, mut stack, mut ws) = (std::collections::HashSet::new(), vec![id], vec![]);
        while let Some(x) = stack.pop() {
            if !self.inf(x).undef || !seen.insert(x) { continue; }
            let n = self.nodes[x as usize];
            match n.op {
                Undef => if !ws.contains(&n.w) { ws.push(n.w) },
                Zext | Sext | Extract | Table | FToUi | FToSi | UiToF | SiToF | FExt | FTrunc => stack.push(n.a),
                Ite => { stack.push(n.a); stack.push(n.b); stack.push(n.c); }
                _ => { stack.push(n.a); stack.push(n.b); }
            }
        }
        ws
    }

    pub fn show(&self, id: Id, d: u32) -> String {
        let n = self.n(id);
        if d == 0 && n.op != Const && n.op != Var { return "..".into(); }
        match n.op {
            Const => format!("{}:{}", n.k, n.w),
            Var => format!("v{}", n.k),
            Undef => "undef".into(),
            Extract => format!("{}[{}:{}]", self.show(n.a, d - 1), n.c, n.b),
            Zext | Sext => format!("{:?}{}({})", n.op, n.w, self.show(n.a, d - 1)),
            Table => format!("T{}[{}]", n.k, self.show(n.a, d - 1)),
            Ite => format!("ite({},{},{})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            FToUi | FToSi | UiToF | SiToF | FExt | FTrunc => format!("{:?}({})", n.op, self.show(n.a, d - 1)),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}
