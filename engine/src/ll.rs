//! Reader for textual LLVM IR (opaque pointers), decoding function bodies lazily
//! into a compact register form.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void, Int(u16), Ptr, F32, F64,
    Array(u64, Arc<Ty>),
    Struct(bool, Arc<Vec<Ty>>),
    Vector(u64, Arc<Ty>),
    Other,
}
impl Ty {
    pub fn bits(&self) -> u16 {
        match self { Ty::Int(w) => *w, Ty::Ptr => 64, Ty::F32 => 32, Ty::F64 => 64, _ => panic!("bits of {:?}", self) }
    }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64) }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Array(_, t) => t.align(),
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, f) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Vector(_, _) => self.store_size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vector(n, t) => match **t { Ty::Int(w) => (*n * w as u64 + 7) / 8, _ => *n * t.store_size() },
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => { let a = self.align(); (self.store_size() + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8, Ty::F32 => 4,
            Ty::Array(n, t) => n * t.size(),
            Ty::Struct(_, f) => {
                let al = self.align();
                let o = self.field_off(f.len());
                (o + al - 1) / al * al
            }
            Ty::Vector(_, _) => { let a = self.align(); (self.store_size() + a - 1) / a * a }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        if let Ty::Struct(packed, f) = self {
            let mut o = 0u64;
            for (j, t) in f.iter().enumerate() {
                if !*packed { let a = t.align(); o = (o + a - 1) / a * a; }
                if j == i { return o; }
                o += t.size();
            }
            o
        } else { panic!("field_off") }
    }
}

pub use crate::expr::Op as Op3;
#[derive(Clone, Debug)]
pub enum Konst {
    Int(u16, u128),
    Undef(Ty), // undef or poison
    Zero(Ty),
    Null,
    F(u16, u64),
    Global(String, i64), // address plus offset
    Bytes(Vec<u8>),
    Agg(Ty, Vec<Konst>),
    Splat(Ty, Box<Konst>),
    BinE(Op3, u16, Box<Konst>, Box<Konst>),
}

#[derive(Clone, Copy, Debug)]
pub enum Opnd { Reg(u32), C(u64), K(u32) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bop { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fop { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast { Trunc, Zext, Sext, Same, FToUi, FToSi, UiToF, SiToF, FExt, FTrunc, Bitcast }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Builtin(Bi), Ptr(Opnd), AsmNop }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bi {
    Nop, Assume, Panic, Trap,
    Memcpy, Memmove, Memset, Memcmp, Strlen,
    UMax, UMin, SMax, SMin,
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO,
    UAddSat, USubSat, SAddSat, SSubSat,
    Ctlz, Cttz, Ctpop, Bswap, Bitreverse, Fshl, Fshr, Abs, Ucmp, Scmp, IsConstant, TlsAddr, Expect, PtrMask,
    FToUiSat, FToSiSat, FAbs, FNeg, CopySign, FPow, FPowi, FTruncI, FFloor, FCeil, FRound, FMin, FMax, FSqrt,
    ReduceOr, ReduceAnd, ReduceAdd, ReduceUMax, ReduceUMin,
    Alloc, Dealloc, Realloc, AllocZeroed, Malloc, Free, ReallocC, Calloc, PosixMemalign,
    SymBytes, SymU, SymAssume, SymCheck, SymFail, SymCover, SymPick, SymLog, SymHeap, SymNoUnwind, SymLinear, SymBits, SymScaledLt, SymFloatOk, SymFreeze, AtExit,
    AllocError, HashKeys, ObjectSize,
    Unsupported,
}

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(Bop, Ty, u32, Opnd, Opnd),
    FBin(Fop, Ty, u32, Opnd, Opnd),
    FNeg(Ty, u32, Opnd),
    ICmp(Pred, Ty, u32, Opnd, Opnd),
    FCmp(u32, Ty, u32, Opnd, Opnd),
    Cast(Cast, Ty, Ty, u32, Opnd),
    Load(Ty, u32, Opnd),
    Store(Ty, Opnd, Opnd, bool), // atomic
    Gep(u32, Opnd, i64, Vec<(Opnd, u16, i64)>),
    Select(Ty, Ty, u32, Opnd, Opnd, Opnd), // cond type, value type
    Call(Box<CallI>),
    Extract(u32, Opnd, Vec<u32>),
    Insert(u32, Opnd, Opnd, Vec<u32>),
    ExtractEl(u32, Opnd, Opnd),
    InsertEl(u32, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Vec<i32>, u64),
    Alloca(u32, u64, u64, Option<(Opnd, u16)>),
    AtomicRmw(String, Ty, u32, Opnd, Opnd, bool), // acquires
    CmpXchg(Ty, u32, Opnd, Opnd, Opnd, bool),
    Freeze(u32, Opnd),
    // terminators
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(u16, Opnd, u32, Vec<(u64, u32)>),
    Ret(Option<Opnd>),
    Unreachable,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub struct CallI {
    pub callee: Callee,
    pub name: String,
    pub ret: Ty,
    pub dst: u32, // u32::MAX when none
    pub args: Vec<(Ty, Opnd)>,
    pub normal: Option<u32>, // edge for invoke
}

#[derive(Clone, Debug)]
pub struct Edge { pub target: u32, pub moves: Vec<(u32, Opnd)> }

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Vec<Ins>>,
    pub edges: Vec<Edge>,
    pub konsts: Vec<(Ty, Konst)>,
}

pub struct FnDecl { pub name: String, pub lines: (usize, usize), pub body: OnceLock<Func>, pub builtin: Option<Bi>, pub arity: usize }
pub struct Global { pub name: String, pub ty: Ty, pub init: Option<Konst>, pub constant: bool, pub tls: bool, pub size: u64 }

pub struct Module {
    pub text: Arc<String>,
    pub lines: Vec<(usize, usize)>,
    pub fns: Vec<FnDecl>,
    pub fn_by_name: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub glob_by_name: HashMap<String, u32>,
    pub named: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Word(&'a str),
    Local(String),
    Global(String),
    Int(&'a str),
    Float(&'a str),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Meta(&'a str),
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 && i + 2 <= s.len() - 1 + 0 && s[i + 1] != b'\\' {
            let h = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
            v.push(h(s[i + 1]) << 4 | h(s[i + 2]));
            i += 3;
        } else if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' { v.push(b'\\'); i += 2; }
        else { v.push(s[i]); i += 1; }
    }
    v
}

pub fn tokenize(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } }
            b'%' | b'@' => {
                i += 1;
                let name = if i < b.len() && b[i] == b'"' {
                    let st = i + 1; i += 1;
                    while b[i] != b'"' { i += 1; }
                    let r = String::from_utf8_lossy(&unescape(&b[st..i])).into_owned(); i += 1; r
                } else {
                    let st = i;
                    while i < b.len() && idc(b[i]) { i += 1; }
                    s[st..i].to_string()
                };
                out.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'"' => { let st = i + 1; i += 1; while b[i] != b'"' { i += 1; } out.push(Tok::Str(unescape(&b[st..i]))); i += 1; }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { let st = i + 2; i += 2; while b[i] != b'"' { i += 1; } out.push(Tok::CStr(unescape(&b[st..i]))); i += 1; }
            b'!' | b'#' => { let st = i; i += 1; while i < b.len() && (idc(b[i])) { i += 1; } out.push(Tok::Meta(&s[st..i])); }
            b'-' | b'0'..=b'9' => {
                let st = i; i += 1;
                let mut fl = false;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e'))) { if b[i] == b'.' || b[i] == b'x' { fl = true; } i += 1; }
                out.push(if fl { Tok::Float(&s[st..i]) } else { Tok::Int(&s[st..i]) });
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.') { i += 1; }
                out.push(Tok::Word(&s[st..i]));
            }
            _ => { out.push(Tok::P(c as char)); i += 1; }
        }
    }
    out
}

struct P<'a> { t: Vec<Tok<'a>>, i: usize, named: &'a HashMap<String, Ty> }
type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok<'a>> { self.t.get(self.i) }
    fn next(&mut self) -> R<Tok<'a>> { let r = self.t.get(self.i).cloned().ok_or("eof".to_string()); self.i += 1; r }
    fn isp(&self, c: char) -> bool { self.peek() == Some(&Tok::P(c)) }
    fn isw(&self, w: &str) -> bool { matches!(self.peek(), Some(Tok::Word(x)) if *x == w) }
    fn eat(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: char) -> R<()> { if self.eat(c) { Ok(()) } else { Err(format!("expected '{}' got {:?}", c, self.peek())) } }
    fn int(&mut self) -> R<i128> { match self.next()? { Tok::Int(s) => s.parse::<i128>().map_err(|e| e.to_string()), x => Err(format!("int expected: {:?}", x)) } }
    fn skip_paren(&mut self) -> R<()> {
        self.exp('(')?;
        let mut d = 1;
        while d > 0 { match self.next()? { Tok::P('(') => d += 1, Tok::P(')') => d -= 1, _ => {} } }
        Ok(())
    }
    fn is_ty(&self) -> bool {
        match self.peek() {
            Some(Tok::Word(w)) => matches!(*w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "label" | "metadata" | "token") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())),
            Some(Tok::P('[')) | Some(Tok::P('{')) | Some(Tok::P('<')) => true,
            Some(Tok::Local(n)) => self.named.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next()? {
            Tok::Word("void") => Ty::Void,
            Tok::Word("ptr") => { if self.eatw("addrspace") { self.skip_paren()?; } Ty::Ptr }
            Tok::Word("float") => Ty::F32,
            Tok::Word("double") => Ty::F64,
            Tok::Word("half") | Tok::Word("fp128") | Tok::Word("x86_fp80") | Tok::Word("label") | Tok::Word("metadata") | Tok::Word("token") => Ty::Other,
            Tok::Word(w) if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
            Tok::P('[') => { let n = self.int()? as u64; self.eatw("x"); let t = self.ty()?; self.exp(']')?; Ty::Array(n, Arc::new(t)) }
            Tok::P('{') => Ty::Struct(false, Arc::new(self.ty_list('}')?)),
            Tok::P('<') => {
                if self.eat('{') { let l = self.ty_list('}')?; self.exp('>')?; Ty::Struct(true, Arc::new(l)) }
                else { let n = self.int()? as u64; self.eatw("x"); let t = self.ty()?; self.exp('>')?; Ty::Vector(n, Arc::new(t)) }
            }
            Tok::Local(n) => self.named.get(&n).cloned().ok_or(format!("unknown type {}", n))?,
            x => return Err(format!("type expected: {:?}", x)),
        };
        Ok(t)
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(end) { return Ok(v); }
        loop { v.push(self.ty()?); if self.eat(end) { return Ok(v); } self.exp(',')?; }
    }
    /// skip attribute words (with parenthesised arguments)
    fn skip_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::Word(w)) => {
                    if matches!(*w, "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "splat" | "asm" | "bitcast" | "add" | "sub" | "trunc" | "xor" | "blockaddress" | "none") || self.is_ty() { return Ok(()); }
                    let al = *w == "align";
                    self.i += 1;
                    if self.isp('(') { self.skip_paren()?; } else if al { self.int()?; }
                }
                Some(Tok::Str(_)) => { self.i += 1; if self.eat('=') { self.i += 1; } }
                Some(Tok::Meta(m)) if m.starts_with('#') => self.i += 1,
                _ => return Ok(()),
            }
        }
    }
    /// infinities and NaNs: +inf, -inf, +qnan, +nan(0x1), +snan(0x1)
    fn special(&mut self, ty: &Ty, neg: bool, w: &str) -> R<Konst> {
        let (bits, mant) = match ty { Ty::F32 => (32u16, 23), Ty::F64 => (64, 52), _ => return Err(format!("special constant of {:?}", ty)) };
        let exp = if bits == 32 { 0x7f80_0000u64 } else { 0x7ff0_0000_0000_0000 };
        let mut pay = 0;
        if self.eat('(') { match self.next()? { Tok::Float(h) | Tok::Int(h) => pay = u64::from_str_radix(h.trim_start_matches("0x"), 16).map_err(|e| e.to_string())?, x => return Err(format!("payload {:?}", x)) } self.exp(')')?; }
        let v = match w { "inf" => exp, "qnan" => exp | 1 << (mant - 1) | pay, "nan" => exp | 1 << (mant - 1) | pay, "snan" => exp | pay, _ => return Err(format!("special constant {}", w)) };
        Ok(Konst::F(bits, v | (neg as u64) << (bits - 1)))
    }
    fn konst(&mut self, ty: &Ty) -> R<Konst> {
        let t = self.next()?;
        Ok(match t {
            Tok::P('+') => { let Tok::Word(w) = self.next()? else { return Err("constant after +".into()) }; self.special(ty, false, w)? }
            Tok::Int(s) if s.len() > 1 && s.as_bytes()[1].is_ascii_alphabetic() && s.as_bytes()[0] == b'-' => self.special(ty, true, &s[1..])?,
            Tok::Int(s) => {
                let w = match ty { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 => 64, _ => return Err(format!("int const of {:?}", ty)) };
                let v: i128 = s.parse::<i128>().or_else(|_| s.parse::<u128>().map(|x| x as i128)).map_err(|e| e.to_string())?;
                Konst::Int(w, v as u128 & crate::expr::mask(w))
            }
            Tok::Float(s) => {
                let d = if let Some(h) = s.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?) } else { s.parse::<f64>().map_err(|e| e.to_string())? };
                match ty { Ty::F32 => Konst::F(32, (d as f32).to_bits() as u64), _ => Konst::F(64, d.to_bits()) }
            }
            Tok::Word(s) if s.starts_with("f0x") => {
                let b = u64::from_str_radix(&s[3..], 16).map_err(|e| e.to_string())?;
                Konst::F(match ty { Ty::F32 => 32, _ => 64 }, b)
            }
            Tok::Word("true") => Konst::Int(1, 1),
            Tok::Word("false") => Konst::Int(1, 0),
            Tok::Word("null") => Konst::Null,
            Tok::Word("none") => Konst::Null,
            Tok::Word("undef") | Tok::Word("poison") => Konst::Undef(ty.clone()),
            Tok::Word("zeroinitializer") => Konst::Zero(ty.clone()),
            Tok::Word("splat") => { self.exp('(')?; let t = self.ty()?; let k = self.konst(&t)?; self.exp(')')?; Konst::Splat(ty.clone(), Box::new(k)) }
            Tok::Global(g) => Konst::Global(g, 0),
            Tok::CStr(b) => Konst::Bytes(b),
            Tok::P('[') => { let v = self.klist(']')?; Konst::Agg(ty.clone(), v) }
            Tok::P('{') => { let v = self.klist('}')?; Konst::Agg(ty.clone(), v) }
            Tok::P('<') => {
                if self.eat('{') { let v = self.klist('}')?; self.exp('>')?; Konst::Agg(ty.clone(), v) }
                else { let v = self.klist('>')?; Konst::Agg(ty.clone(), v) }
            }
            Tok::Word("inttoptr") | Tok::Word("ptrtoint") | Tok::Word("bitcast") | Tok::Word("trunc") => {
                self.exp('(')?; let t = self.ty()?; let k = self.konst(&t)?; if !self.eatw("to") { return Err("to".into()); } let t2 = self.ty()?; self.exp(')')?;
                match k { Konst::Int(_, v) => Konst::Int(t2.bits(), v & crate::expr::mask(t2.bits())), x => x }
            }
            Tok::Word("getelementptr") => {
                while let Some(Tok::Word(w)) = self.peek() { if matches!(*w, "inbounds" | "nuw" | "nusw" | "inrange") { self.i += 1; if self.isp('(') && matches!(self.t[self.i - 1], Tok::Word("inrange")) { self.skip_paren()?; } } else { break; } }
                self.exp('(')?;
                let t = self.ty()?; self.exp(',')?;
                let pt = self.ty()?; let base = self.konst(&pt)?;
                let mut idx = vec![];
                while self.eat(',') { self.eatw("inrange"); let it = self.ty()?; match self.konst(&it)? { Konst::Int(w, v) => idx.push(crate::expr::sx(v, w) as i64), Konst::Zero(_) => idx.push(0), _ => return Err("gep const index".into()) } }
                self.exp(')')?;
                let off = gep_const(&t, &idx)?;
                match base { Konst::Global(g, o) => Konst::Global(g, o + off), Konst::Null => Konst::Int(64, off as u64 as u128), Konst::Int(w, v) => Konst::Int(w, (v as u64).wrapping_add(off as u64) as u128), _ => return Err("gep base".into()) }
            }
            Tok::Word(op @ ("add" | "sub" | "xor")) => {
                while let Some(Tok::Word(w)) = self.peek() { if matches!(*w, "nuw" | "nsw") { self.i += 1 } else { break; } }
                self.exp('(')?; let t = self.ty()?; let a = self.konst(&t)?; self.exp(',')?; let t2 = self.ty()?; let b = self.konst(&t2)?; self.exp(')')?;
                match (op, a, b) {
                    ("add", Konst::Global(g, o), Konst::Int(_, v)) => Konst::Global(g, o + v as i64),
                    ("sub", Konst::Global(g, o), Konst::Int(_, v)) => Konst::Global(g, o - v as i64),
                    (o, a, b) => Konst::BinE(match o { "add" => Op3::Add, "sub" => Op3::Sub, _ => Op3::Xor }, t.bits(), Box::new(a), Box::new(b)),
                }
            }
            x => return Err(format!("constant: {:?}", x)),
        })
    }
    fn klist(&mut self, end: char) -> R<Vec<Konst>> {
        let mut v = vec![];
        if self.eat(end) { return Ok(v); }
        loop { let t = self.ty()?; v.push(self.konst(&t)?); if self.eat(end) { return Ok(v); } self.exp(',')?; }
    }
}

fn gep_const(t: &Ty, idx: &[i64]) -> R<i64> {
    let mut off = idx[0] * t.size() as i64;
    let mut cur = t.clone();
    for &i in &idx[1..] {
        cur = match &cur {
            Ty::Struct(_, f) => { off += cur.field_off(i as usize) as i64; f[i as usize].clone() }
            Ty::Array(_, e) | Ty::Vector(_, e) => { off += i * e.size() as i64; (**e).clone() }
            _ => return Err("gep type".into()),
        };
    }
    Ok(off)
}

pub fn builtin_for(name: &str) -> Option<Bi> {
    use Bi::*;
    let has = |s: &str| name.contains(s);
    if let Some(r) = name.strip_prefix("llvm.") {
        let st = |p: &str| r.starts_with(p);
        return Some(
            if st("lifetime") || st("experimental.noalias") || st("dbg") || st("donothing") || st("prefetch") || st("x86.sse2.pause") || st("invariant") || st("sideeffect") || st("fake.use") || st("var.annotation") { Nop }
            else if st("assume") { Assume }
            else if st("trap") || st("ubsantrap") || st("debugtrap") { Trap }
            else if st("memcpy") { Memcpy } else if st("memmove") { Memmove } else if st("memset") { Memset }
            else if st("umax") { UMax } else if st("umin") { UMin } else if st("smax") { SMax } else if st("smin") { SMin }
            else if st("uadd.with") { UAddO } else if st("usub.with") { USubO } else if st("umul.with") { UMulO }
            else if st("sadd.with") { SAddO } else if st("ssub.with") { SSubO } else if st("smul.with") { SMulO }
            else if st("uadd.sat") { UAddSat } else if st("usub.sat") { USubSat } else if st("sadd.sat") { SAddSat } else if st("ssub.sat") { SSubSat }
            else if st("ctlz") { Ctlz } else if st("cttz") { Cttz } else if st("ctpop") { Ctpop } else if st("bswap") { Bswap } else if st("bitreverse") { Bitreverse }
            else if st("fshl") { Fshl } else if st("fshr") { Fshr } else if st("abs.") { Abs } else if st("ucmp") { Ucmp } else if st("scmp") { Scmp }
            else if st("is.constant") { IsConstant } else if st("threadlocal.address") { TlsAddr } else if st("expect") { Expect } else if st("ptrmask") { PtrMask }
            else if st("fptoui.sat") { FToUiSat } else if st("fptosi.sat") { FToSiSat } else if st("fabs") { FAbs } else if st("copysign") { CopySign }
            else if st("trunc.") { FTruncI } else if st("floor.") { FFloor } else if st("ceil.") { FCeil } else if st("round.") { FRound } else if st("minnum.") || st("minimumnum.") { FMin } else if st("maxnum.") || st("maximumnum.") { FMax } else if st("sqrt.") { FSqrt }
            else if st("powi") { FPowi } else if st("pow") { FPow }
            else if st("vector.reduce.or") { ReduceOr } else if st("vector.reduce.and") { ReduceAnd } else if st("vector.reduce.add") { ReduceAdd } else if st("vector.reduce.umax") { ReduceUMax } else if st("vector.reduce.umin") { ReduceUMin }
            else if st("objectsize") { ObjectSize }
            else { Unsupported });
    }
    Some(match name {
        "memcpy" => Memcpy, "memmove" => Memmove, "memset" => Memset, "memcmp" | "bcmp" => Memcmp, "strlen" => Strlen,
        "malloc" => Malloc, "free" => Free, "realloc" => ReallocC, "calloc" => Calloc, "posix_memalign" => PosixMemalign,
        "pow" | "powf" => FPow, "trunc" | "truncf" => FTruncI, "floor" | "floorf" => FFloor, "ceil" | "ceilf" => FCeil, "round" | "roundf" => FRound, "fmin" | "fminf" => FMin, "fmax" | "fmaxf" => FMax, "sqrt" | "sqrtf" => FSqrt,
        "abort" => Panic,
        "sym_bytes" => SymBytes, "sym_u64" | "sym_u32" | "sym_u16" | "sym_u8" => SymU, "sym_assume" => SymAssume, "sym_check" => SymCheck, "sym_fail" => SymFail,
        "sym_cover" => SymCover, "sym_pick" => SymPick, "sym_log" => SymLog, "sym_heap" => SymHeap, "sym_linear" => SymLinear, "sym_bits" => SymBits, "sym_scaled_lt" => SymScaledLt, "sym_float_ok" => SymFloatOk, "sym_freeze" => SymFreeze, "__cxa_thread_atexit_impl" => AtExit,
        _ => {
            if has("hashmap_random_keys") { HashKeys }
            else if has("12___rust_alloc") || name == "__rust_alloc" { Alloc }
            else if has("14___rust_dealloc") || name == "__rust_dealloc" { Dealloc }
            else if has("14___rust_realloc") || name == "__rust_realloc" { Realloc }
            else if has("19___rust_alloc_zeroed") || name == "__rust_alloc_zeroed" { AllocZeroed }
            else if has("35___rust_no_alloc_shim_is_unstable") || name == "__rust_no_alloc_shim_is_unstable_v2" { Nop }
            else if has("18handle_alloc_error") || has("12handle_error") { AllocError }
            else if has("4core9panicking") || has("3std9panicking11begin_panic") || has("20rust_panic_with_hook") || has("___rust_end_short_backtrace") || has("7process5abort") || has("17rust_begin_unwind") || has("10rust_panic") || has("5alloc7raw_vec17capacity_overflow") || has("16slice_index_fail") || has("4core6option13unwrap_failed") || has("4core6result13unwrap_failed") || has("4core6option13expect_failed") { Panic }
            else { return None }
        }
    })
}

impl Module {
    pub fn load(text: String) -> R<Module> {
        let text = Arc::new(text);
        let mut lines = Vec::new();
        let mut st = 0;
        for (i, b) in text.bytes().enumerate() { if b == b'\n' { lines.push((st, i)); st = i + 1; } }
        let mut m = Module { text: text.clone(), lines, fns: vec![], fn_by_name: HashMap::new(), globals: vec![], glob_by_name: HashMap::new(), named: HashMap::new(), aliases: HashMap::new() };
        let t: &str = &text;
        let mut i = 0;
        while i < m.lines.len() {
            let l = &t[m.lines[i].0..m.lines[i].1];
            if l.starts_with('%') && l.contains("= type ") {
                let named = m.named.clone();
                let mut p = P { t: tokenize(l), i: 0, named: &named };
                if let Tok::Local(n) = p.next()? { p.exp('=')?; p.i += 1; if let Ok(ty) = p.ty() { m.named.insert(n, ty); } else { m.named.insert(n, Ty::Other); } }
            } else if l.starts_with('@') {
                m.global(l).map_err(|e| format!("global {}: {}", &l[..l.len().min(150)], e))?;
            } else if l.starts_with("define ") {
                let mut j = i;
                while &t[m.lines[j].0..m.lines[j].1] != "}" { j += 1; }
                m.decl(l, (i, j));
                i = j;
            } else if l.starts_with("declare ") { m.decl(l, (0, 0)); }
            i += 1;
        }
        Ok(m)
    }
    fn decl(&mut self, l: &str, lines: (usize, usize)) {
        let p = l.find('@').unwrap();
        let rest = &l[p..];
        let name = match &tokenize(&rest[..rest.find('(').unwrap_or(rest.len())])[0] { Tok::Global(n) => n.clone(), _ => return };
        let id = self.fns.len() as u32;
        let builtin = builtin_for(&name);
        self.fns.push(FnDecl { name: name.clone(), lines, body: OnceLock::new(), builtin, arity: 0 });
        self.fn_by_name.insert(name, id);
    }
    fn global(&mut self, l: &str) -> R<()> {
        let l = match l.find(", !") { Some(_) => l, None => l };
        let named = self.named.clone();
        let mut p = P { t: tokenize(l), i: 0, named: &named };
        let name = match p.next()? { Tok::Global(n) => n, x => return Err(format!("{:?}", x)) };
        p.exp('=')?;
        let mut ext = false;
        let mut tls = false;
        let constant;
        loop {
            match p.next()? {
                Tok::Word("external") | Tok::Word("extern_weak") => ext = true,
                Tok::Word("thread_local") => tls = true,
                Tok::Word("constant") => { constant = true; break; }
                Tok::Word("global") => { constant = false; break; }
                Tok::Word("alias") => {
                    if let Some(Tok::Global(g)) = p.t.iter().rev().find(|t| matches!(t, Tok::Global(_))).cloned() { self.aliases.insert(name, g); }
                    return Ok(());
                }
                Tok::P('(') => { p.i -= 1; p.skip_paren()?; }
                _ => {}
            }
        }
        let ty = p.ty()?;
        let init = if ext { None } else { Some(p.konst(&ty)?) };
        let size = ty.size();
        let id = self.globals.len() as u32;
        self.glob_by_name.insert(name.clone(), id);
        self.globals.push(Global { name, ty, init, constant, tls, size });
        Ok(())
    }
    pub fn line(&self, i: usize) -> &str { let (a, b) = self.lines[i]; &self.text[a..b] }

    pub fn func(&self, id: u32) -> R<&Func> {
        let d = &self.fns[id as usize];
        if d.lines.1 == 0 { return Err(format!("external function {}", d.name)); }
        if let Some(f) = d.body.get() { return Ok(f); }
        let f = self.decode(id)?;
        let _ = d.body.set(f);
        Ok(d.body.get().unwrap())
    }

    fn decode(&self, id: u32) -> R<Func> {
        let d = &self.fns[id as usize];
        let mut dc = Dec { m: self, regs: HashMap::new(), labels: HashMap::new(), f: Func { name: d.name.clone(), nregs: 0, params: vec![], blocks: vec![], edges: vec![], konsts: vec![] }, phis: vec![] };
        // header
        let hdr = self.line(d.lines.0);
        {
            let at = hdr.find('@').unwrap();
            let toks = tokenize(&hdr[at..]);
            let mut p = P { t: toks, i: 1, named: &self.named };
            p.exp('(')?;
            let mut n = 0;
            if !p.eat(')') {
                loop {
                    if p.isp('.') || p.isw("...") { break; }
                    let _t = p.ty()?;
                    p.skip_attrs()?;
                    let nm = match p.peek() { Some(Tok::Local(x)) => { let x = x.clone(); p.i += 1; x } _ => n.to_string() };
                    let r = dc.reg(&nm);
                    dc.f.params.push(r);
                    n += 1;
                    if p.eat(')') { break; }
                    p.exp(',')?;
                }
            }
            // unnamed entry block takes the next number
            let first = self.line(d.lines.0 + 1);
            let entry = if let Some(l) = label_of(first) { l } else { n.to_string() };
            dc.labels.insert(entry, 0);
            dc.f.blocks.push(vec![]);
        }
        // pass 1: labels
        let mut ln = d.lines.0 + 1;
        while ln < d.lines.1 {
            if let Some(l) = label_of(self.line(ln)) {
                if !dc.labels.contains_key(&l) { let b = dc.f.blocks.len() as u32; dc.labels.insert(l, b); dc.f.blocks.push(vec![]); }
            }
            ln += 1;
        }
        // pass 2: phis per block, instructions
        dc.phis = vec![vec![]; dc.f.blocks.len()];
        let mut stmts: Vec<(u32, String)> = vec![];
        let mut cur = 0u32;
        let mut ln = d.lines.0 + 1;
        while ln < d.lines.1 {
            let l = self.line(ln);
            if l.is_empty() || l.trim_start().starts_with(';') { ln += 1; continue; }
            if let Some(lb) = label_of(l) { cur = dc.labels[&lb]; ln += 1; continue; }
            let mut s = l.trim().to_string();
            if s.starts_with("switch ") && s.ends_with('[') { loop { ln += 1; let x = self.line(ln).trim(); s.push(' '); s.push_str(x); if x.starts_with(']') { break; } } }
            while ln + 1 < d.lines.1 {
                let x = self.line(ln + 1).trim();
                if x.starts_with("to label") || x == "cleanup" || x.starts_with("catch ") || x.starts_with("filter ") { s.push(' '); s.push_str(x); ln += 1; } else { break; }
            }
            ln += 1;
            if s.starts_with("#dbg") { continue; }
            if let Some(eq) = s.find(" = phi ") {
                let dst = match &tokenize(&s[..eq])[0] { Tok::Local(n) => n.clone(), _ => return Err("phi".into()) };
                let r = dc.reg(&dst);
                let toks = tokenize(&s[eq + 7..]);
                let mut p = P { t: toks, i: 0, named: &self.named };
                while let Some(Tok::Word(w)) = p.peek() { if p.is_ty() { break; } let _ = w; p.i += 1; }
                let ty = p.ty()?;
                let mut inc = vec![];
                loop {
                    p.exp('[')?;
                    let v = dc.val(&mut p, &ty)?;
                    p.exp(',')?;
                    let lb = match p.next()? { Tok::Local(n) => n, x => return Err(format!("phi label {:?}", x)) };
                    p.exp(']')?;
                    let b = *dc.labels.get(&lb).ok_or(format!("label {}", lb))?;
                    inc.push((b, v));
                    if !p.eat(',') || !p.isp('[') { break; }
                }
                dc.phis[cur as usize].push((r, inc));
                continue;
            }
            stmts.push((cur, s));
        }
        for (b, s) in stmts {
            let ins = match dc.instr(b, &s) { Ok(Some(i)) => i, Ok(None) => continue, Err(e) => Ins::Unsupported(format!("{} in `{}`", e, &s[..s.len().min(160)])) };
            dc.f.blocks[b as usize].push(ins);
        }
        dc.f.nregs = dc.regs.len() as u32;
        Ok(dc.f)
    }
}

fn label_of(l: &str) -> Option<String> {
    let b = l.as_bytes();
    if b.is_empty() || b[0] == b';' || b[0] == b' ' || b[0] == b'\t' || b[0] == b'}' { return None; }
    if b[0] == b'"' { let e = l[1..].find('"')?; return Some(l[1..1 + e].to_string()); }
    let c = l.find(':')?;
    Some(l[..c].to_string())
}

struct Dec<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    f: Func,
    phis: Vec<Vec<(u32, Vec<(u32, Opnd)>)>>,
}
impl<'m> Dec<'m> {
    fn reg(&mut self, n: &str) -> u32 { if let Some(&r) = self.regs.get(n) { return r; } let r = self.regs.len() as u32; self.regs.insert(n.to_string(), r); r }
    fn val(&mut self, p: &mut P, ty: &Ty) -> R<Opnd> {
        if let Some(Tok::Local(n)) = p.peek() { let n = n.clone(); p.i += 1; return Ok(Opnd::Reg(self.reg(&n))); }
        let k = p.konst(ty)?;
        Ok(match k {
            Konst::Int(w, v) if w <= 64 => Opnd::C(v as u64),
            Konst::Null => Opnd::C(0),
            Konst::F(_, v) => Opnd::C(v),
            Konst::Zero(ref t) if t.is_scalar() && t.bits() <= 64 => Opnd::C(0),
            k => { self.f.konsts.push((ty.clone(), k)); Opnd::K(self.f.konsts.len() as u32 - 1) }
        })
    }
    fn tval(&mut self, p: &mut P) -> R<(Ty, Opnd)> { let t = p.ty()?; p.skip_attrs()?; let v = self.val(p, &t)?; Ok((t, v)) }
    fn label(&mut self, p: &mut P) -> R<u32> {
        p.eatw("label");
        match p.next()? { Tok::Local(n) => self.labels.get(&n).copied().ok_or(format!("label {}", n)), x => Err(format!("label {:?}", x)) }
    }
    fn edge(&mut self, from: u32, to: u32) -> R<u32> {
        let mut moves = vec![];
        for (r, inc) in &self.phis[to as usize] {
            let v = inc.iter().find(|x| x.0 == from).ok_or(format!("phi without edge {}->{}", from, to))?.1;
            moves.push((*r, v));
        }
        self.f.edges.push(Edge { target: to, moves });
        Ok(self.f.edges.len() as u32 - 1)
    }
    fn instr(&mut self, b: u32, s: &str) -> R<Option<Ins>> {
        let m = self.m;
        let mut p = P { t: tokenize(s), i: 0, named: &m.named };
        let mut dst = u32::MAX;
        if let Some(Tok::Local(n)) = p.peek() { let n = n.clone(); p.i += 1; p.exp('=')?; dst = self.reg(&n); }
        let mut op = match p.next()? { Tok::Word(w) => w.to_string(), x => return Err(format!("{:?}", x)) };
        if matches!(op.as_str(), "tail" | "musttail" | "notail") { op = match p.next()? { Tok::Word(w) => w.to_string(), x => return Err(format!("{:?}", x)) }; }
        let flags = |p: &mut P| { while let Some(Tok::Word(w)) = p.peek() { if matches!(*w, "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "reassoc" | "afn" | "volatile" | "atomic" | "weak") { p.i += 1; } else { break; } } };
        let ins = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                flags(&mut p);
                let t = p.ty()?; let a = self.val(&mut p, &t)?; p.exp(',')?; let c = self.val(&mut p, &t)?;
                let o = match op.as_str() { "add" => Bop::Add, "sub" => Bop::Sub, "mul" => Bop::Mul, "udiv" => Bop::UDiv, "sdiv" => Bop::SDiv, "urem" => Bop::URem, "srem" => Bop::SRem, "and" => Bop::And, "or" => Bop::Or, "xor" => Bop::Xor, "shl" => Bop::Shl, "lshr" => Bop::LShr, _ => Bop::AShr };
                Ins::Bin(o, t, dst, a, c)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags(&mut p);
                let t = p.ty()?; let a = self.val(&mut p, &t)?; p.exp(',')?; let c = self.val(&mut p, &t)?;
                let o = match op.as_str() { "fadd" => Fop::Add, "fsub" => Fop::Sub, "fmul" => Fop::Mul, "fdiv" => Fop::Div, _ => Fop::Rem };
                Ins::FBin(o, t, dst, a, c)
            }
            "fneg" => { flags(&mut p); let (t, a) = self.tval(&mut p)?; Ins::FNeg(t, dst, a) }
            "icmp" => {
                flags(&mut p);
                let pr = match p.next()? { Tok::Word(w) => match w { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => return Err(x.into()) }, x => return Err(format!("{:?}", x)) };
                let t = p.ty()?; let a = self.val(&mut p, &t)?; p.exp(',')?; let c = self.val(&mut p, &t)?;
                Ins::ICmp(pr, t, dst, a, c)
            }
            "fcmp" => {
                flags(&mut p);
                let pr = match p.next()? { Tok::Word(w) => match w { "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7, "uno" => 8, "ueq" => 9, "ugt" => 10, "uge" => 11, "ult" => 12, "ule" => 13, "une" => 14, "true" => 15, x => return Err(x.into()) }, x => return Err(format!("{:?}", x)) };
                let t = p.ty()?; let a = self.val(&mut p, &t)?; p.exp(',')?; let c = self.val(&mut p, &t)?;
                Ins::FCmp(pr, t, dst, a, c)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                flags(&mut p);
                let (t, a) = self.tval(&mut p)?;
                if !p.eatw("to") { return Err("to".into()); }
                let t2 = p.ty()?;
                let k = match op.as_str() {
                    "trunc" => Cast::Trunc, "zext" => Cast::Zext, "sext" => Cast::Sext,
                    "ptrtoint" | "inttoptr" => { let (x, y) = (t.bits(), t2.bits()); if x == y { Cast::Same } else if x > y { Cast::Trunc } else { Cast::Zext } }
                    "addrspacecast" => Cast::Same,
                    "bitcast" => if t.is_scalar() && t2.is_scalar() { Cast::Same } else { Cast::Bitcast },
                    "fptoui" => Cast::FToUi, "fptosi" => Cast::FToSi, "uitofp" => Cast::UiToF, "sitofp" => Cast::SiToF, "fpext" => Cast::FExt, _ => Cast::FTrunc,
                };
                Ins::Cast(k, t, t2, dst, a)
            }
            "load" => { flags(&mut p); let t = p.ty()?; p.exp(',')?; let (_, a) = self.tval(&mut p)?; Ins::Load(t, dst, a) }
            "store" => { let at = matches!(p.peek(), Some(Tok::Word(w)) if *w == "atomic"); flags(&mut p); let (t, v) = self.tval(&mut p)?; p.exp(',')?; let (_, a) = self.tval(&mut p)?; Ins::Store(t, v, a, at) }
            "getelementptr" => {
                flags(&mut p);
                let t = p.ty()?; p.exp(',')?;
                let (bt, base) = self.tval(&mut p)?;
                if bt != Ty::Ptr { return Err("vector gep".into()); }
                let mut off = 0i64;
                let mut terms = vec![];
                let mut cur = t;
                let mut first = true;
                while p.eat(',') {
                    if !p.is_ty() { break; }
                    let (it, iv) = self.tval(&mut p)?;
                    let iw = it.bits();
                    let (scale, nxt) = if first { (cur.size() as i64, cur.clone()) } else {
                        match &cur {
                            Ty::Struct(_, f) => { let i = match iv { Opnd::C(c) => c as usize, _ => return Err("gep struct".into()) }; off += cur.field_off(i) as i64; let n = f[i].clone(); cur = n; continue; }
                            Ty::Array(_, e) | Ty::Vector(_, e) => (e.size() as i64, (**e).clone()),
                            _ => return Err("gep".into()),
                        }
                    };
                    first = false;
                    match iv { Opnd::C(c) => off = off.wrapping_add((crate::expr::sx(c as u128, iw) as i64).wrapping_mul(scale)), o => terms.push((o, iw, scale)) }
                    cur = nxt;
                }
                Ins::Gep(dst, base, off, terms)
            }
            "select" => {
                flags(&mut p);
                let (ct, c) = self.tval(&mut p)?; p.exp(',')?; let (t, a) = self.tval(&mut p)?; p.exp(',')?; let (_, e) = self.tval(&mut p)?;
                Ins::Select(ct, t, dst, c, a, e)
            }
            "extractvalue" => { let (_, a) = self.tval(&mut p)?; let mut ix = vec![]; while p.eat(',') { if let Some(Tok::Int(_)) = p.peek() { ix.push(p.int()? as u32) } else { break; } } Ins::Extract(dst, a, ix) }
            "insertvalue" => { let (_, a) = self.tval(&mut p)?; p.exp(',')?; let (_, v) = self.tval(&mut p)?; let mut ix = vec![]; while p.eat(',') { if let Some(Tok::Int(_)) = p.peek() { ix.push(p.int()? as u32) } else { break; } } Ins::Insert(dst, a, v, ix) }
            "extractelement" => { let (_, a) = self.tval(&mut p)?; p.exp(',')?; let (_, v) = self.tval(&mut p)?; Ins::ExtractEl(dst, a, v) }
            "insertelement" => { let (_, a) = self.tval(&mut p)?; p.exp(',')?; let (_, e) = self.tval(&mut p)?; p.exp(',')?; let (_, v) = self.tval(&mut p)?; Ins::InsertEl(dst, a, e, v) }
            "shufflevector" => {
                let (t, a) = self.tval(&mut p)?; p.exp(',')?; let (_, c) = self.tval(&mut p)?; p.exp(',')?;
                let mt = p.ty()?; let mk = p.konst(&mt)?;
                let (n, nin) = match (&mt, &t) { (Ty::Vector(n, _), Ty::Vector(k, _)) => (*n, *k), _ => return Err("shuffle".into()) };
                let mask = match mk {
                    Konst::Zero(_) => vec![0; n as usize],
                    Konst::Undef(_) => vec![-1; n as usize],
                    Konst::Agg(_, v) => v.iter().map(|k| match k { Konst::Int(_, v) => *v as i32, _ => -1 }).collect(),
                    Konst::Splat(_, k) => match *k { Konst::Int(_, v) => vec![v as i32; n as usize], _ => vec![-1; n as usize] },
                    _ => return Err("shuffle mask".into()),
                };
                Ins::Shuffle(dst, a, c, mask, nin)
            }
            "alloca" => {
                p.eatw("inalloca");
                let t = p.ty()?;
                let mut cnt = None; let mut al = t.align();
                while p.eat(',') {
                    if p.eatw("align") { al = p.int()? as u64; }
                    else if p.is_ty() { let (ct, c) = self.tval(&mut p)?; cnt = Some((c, ct.bits())); }
                    else { break; }
                }
                Ins::Alloca(dst, t.size(), al, cnt)
            }
            "atomicrmw" => {
                flags(&mut p);
                let o = match p.next()? { Tok::Word(w) => w.to_string(), x => return Err(format!("{:?}", x)) };
                let (_, a) = self.tval(&mut p)?; p.exp(',')?; let (t, v) = self.tval(&mut p)?;
                let acq = matches!(p.peek(), Some(Tok::Word(w)) if matches!(*w, "acquire" | "acq_rel" | "seq_cst"));
                Ins::AtomicRmw(o, t, dst, a, v, acq)
            }
            "cmpxchg" => { flags(&mut p); let (_, a) = self.tval(&mut p)?; p.exp(',')?; let (t, c) = self.tval(&mut p)?; p.exp(',')?; let (_, n) = self.tval(&mut p)?; let acq = matches!(p.peek(), Some(Tok::Word(w)) if matches!(*w, "acquire" | "acq_rel" | "seq_cst")); Ins::CmpXchg(t, dst, a, c, n, acq) }
            "fence" => return Ok(None),
            "freeze" => { let (_, a) = self.tval(&mut p)?; Ins::Freeze(dst, a) }
            "br" => {
                if p.isw("label") { let t = self.label(&mut p)?; let e = self.edge(b, t)?; Ins::Br(e) }
                else {
                    let (_, c) = self.tval(&mut p)?; p.exp(',')?; let t = self.label(&mut p)?; p.exp(',')?; let f = self.label(&mut p)?;
                    let te = self.edge(b, t)?; let fe = self.edge(b, f)?;
                    Ins::CondBr(c, te, fe)
                }
            }
            "switch" => {
                let (t, v) = self.tval(&mut p)?; p.exp(',')?; let d = self.label(&mut p)?;
                let de = self.edge(b, d)?;
                p.exp('[')?;
                let mut cs = vec![];
                while !p.eat(']') {
                    let (ct, c) = self.tval(&mut p)?; let _ = ct; p.exp(',')?; let l = self.label(&mut p)?; let e = self.edge(b, l)?;
                    match c { Opnd::C(c) => cs.push((c, e)), _ => return Err("switch case".into()) }
                }
                Ins::Switch(t.bits(), v, de, cs)
            }
            "ret" => { if p.isw("void") { Ins::Ret(None) } else { let (_, v) = self.tval(&mut p)?; Ins::Ret(Some(v)) } }
            "unreachable" => Ins::Unreachable,
            "landingpad" => return Ok(None),
            "resume" => Ins::Unsupported("resume".into()),
            "call" | "invoke" => {
                // attributes and calling convention up to the return type
                p.skip_attrs()?;
                let ret = p.ty()?;
                if p.isp('(') { p.skip_paren()?; }
                p.skip_attrs()?;
                let mut name = String::new();
                let mut callee = match p.next()? {
                    Tok::Global(g) => {
                        let g = m.aliases.get(&g).cloned().unwrap_or(g);
                        name = g.clone();
                        match builtin_for(&g) { Some(bi) => Callee::Builtin(bi), None => Callee::Fn(*m.fn_by_name.get(&g).ok_or(format!("no function {}", g))?) }
                    }
                    Tok::Local(n) => Callee::Ptr(Opnd::Reg(self.reg(&n))),
                    Tok::Word("asm") => {
                        let mut text = None;
                        while !p.isp('(') { if let Tok::Str(s) = p.next()? { if text.is_none() { text = Some(s); } } }
                        match text { Some(t) if t.is_empty() => Callee::AsmNop, _ => return Err("inline asm".into()) }
                    }
                    x => return Err(format!("callee {:?}", x)),
                };
                p.exp('(')?;
                let mut args = vec![];
                if !p.eat(')') {
                    loop {
                        let t = p.ty()?;
                        if t == Ty::Other { // metadata argument
                            let mut d = 0; loop { match p.peek() { Some(Tok::P('(')) => d += 1, Some(Tok::P(')')) => { if d == 0 { break; } d -= 1 } Some(Tok::P(',')) if d == 0 => break, None => break, _ => {} } p.i += 1; }
                        } else {
                            p.skip_attrs()?;
                            let v = self.val(&mut p, &t)?;
                            args.push((t, v));
                        }
                        if p.eat(')') { break; }
                        p.exp(',')?;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    while !p.isw("to") { p.next()?; }
                    p.i += 1;
                    let l = self.label(&mut p)?;
                    normal = Some(self.edge(b, l)?);
                }
                if matches!(callee, Callee::Builtin(Bi::Nop)) && normal.is_none() && ret == Ty::Void { return Ok(None); }
                if let Callee::AsmNop = callee { if ret != Ty::Void { callee = Callee::Builtin(Bi::Unsupported); } }
                Ins::Call(Box::new(CallI { callee, name, ret, dst, args, normal }))
            }
            x => return Err(format!("opcode {}", x)),
        };
        Ok(Some(ins))
    }
}
