//! Decides conjunctions of 1-bit terms with Z3: bit-vector (and floating point)
//! theory, with an exact linear-integer encoding tried first when the terms
//! contain division, remainder or multiplication by constants.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{CStr, CString};
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
#[allow(non_snake_case, dead_code)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_fresh_const(c: P, p: *const c_char, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, t: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_add(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_sub(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_mul(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_le(c: P, a: P, b: P) -> P;
    fn Z3_mk_ge(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_mk_real_sort(c: P) -> P;
    fn Z3_mk_int2real(c: P, a: P) -> P;
    fn Z3_get_numeral_decimal_string(c: P, a: P, prec: c_uint) -> *const c_char;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_fpa_sort_double(c: P) -> P;
    fn Z3_mk_fpa_sort_single(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, r: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, r: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, r: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, r: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, r: P, t: P, w: c_uint) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, r: P, t: P, w: c_uint) -> P;
}
extern "C" fn on_err(c: P, e: c_int) { eprintln!("z3 error code {}: {}", e, unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy() }); }

#[derive(Clone, Debug)]
pub enum Res { Sat(Vec<u128>), Unsat, Unknown }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub z3_calls: u64, pub cache_hits: u64, pub pool_hits: u64, pub lia: u64, pub fp: u64, pub unknown: u64, pub secs: f64, pub max_secs: f64 }

pub struct Solver {
    c: P,
    inc: P,
    lia_s: P,
    bv: HashMap<Id, P>,
    fp: HashMap<Id, P>,
    li: HashMap<Id, Option<P>>,
    li_side: HashMap<Id, Vec<P>>,       // side constraints introduced by a node
    li_div: HashMap<Id, Vec<(u128, P, Vec<P>)>>,
    li_vars: HashMap<u32, P>,
    rng: Option<HashMap<Id, (u128, u128)>>, // ranges implied by the constraints of the current query
    cache: HashMap<Vec<Id>, Option<Vec<(u32, u128)>>>,
    pool: Vec<Vec<u128>>,
    pub stats: Stats,
    pub hard_ms: u32,
    inc_cnt: u32,
    bool_s: P, int_s: P,
    relax: bool, // quotients and inputs are reals: an over-approximation
    fr: HashMap<Id, Option<Fr>>,
    levels: Vec<(Id, Vec<Id>)>, // constraints the relaxed solver holds, with the terms each brought in
    have: std::collections::HashSet<Id>,
}

/// A float as an exact magnitude (when it is neither infinite nor NaN)
#[derive(Clone)]
struct Fr { neg: bool, mag: P, inf: P, nan: P, side: Vec<P> }

fn ints() -> u128 { std::env::var("LLSYM_INTS").map_or(0, |x| x.parse().unwrap()) }
fn cs(s: &str) -> CString { CString::new(s).unwrap() }

impl Drop for Solver { fn drop(&mut self) { unsafe { Z3_solver_dec_ref(self.c, self.inc); Z3_solver_dec_ref(self.c, self.lia_s); Z3_del_context(self.c); } } }

impl Solver {
    pub fn new() -> Solver { Solver::with(false) }
    pub fn with(relax: bool) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, cs("model").as_ptr(), cs("true").as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let inc = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, inc);
            let lia_s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, lia_s);
            let (bool_s, int_s) = (Z3_mk_bool_sort(c), if relax { Z3_mk_real_sort(c) } else { Z3_mk_int_sort(c) });
            Solver { c, inc, lia_s, bv: HashMap::new(), fp: HashMap::new(), li: HashMap::new(), li_side: HashMap::new(), li_div: HashMap::new(), li_vars: HashMap::new(), rng: None, cache: HashMap::new(), pool: vec![], stats: Stats::default(), hard_ms: 60_000, inc_cnt: 0, bool_s, int_s, relax, fr: HashMap::new(), levels: vec![], have: Default::default() }
        }
    }
    fn params(&self, s: P, ms: u32) {
        unsafe {
            let p = Z3_mk_params(self.c);
            Z3_params_inc_ref(self.c, p);
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, cs("timeout").as_ptr()), ms);
            Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, cs("random_seed").as_ptr()), 1);
            Z3_solver_set_params(self.c, s, p);
            Z3_params_dec_ref(self.c, p);
        }
    }
    fn num(&self, k: u128, w: u16) -> P { unsafe { let s = Z3_mk_bv_sort(self.c, w as c_uint); if w <= 64 { Z3_mk_unsigned_int64(self.c, k as u64, s) } else { Z3_mk_numeral(self.c, cs(&k.to_string()).as_ptr(), s) } } }
    fn inum(&self, k: u128) -> P { unsafe { Z3_mk_numeral(self.c, cs(&k.to_string()).as_ptr(), self.int_s) } }
    fn and(&self, v: &[P]) -> P { unsafe { if v.is_empty() { Z3_mk_true(self.c) } else if v.len() == 1 { v[0] } else { Z3_mk_and(self.c, v.len() as c_uint, v.as_ptr()) } } }
    fn or(&self, v: &[P]) -> P { unsafe { if v.is_empty() { Z3_mk_false(self.c) } else if v.len() == 1 { v[0] } else { Z3_mk_or(self.c, v.len() as c_uint, v.as_ptr()) } } }

    fn kids(n: &Node) -> ([Id; 3], usize) {
        use Op::*;
        let k = match n.op { Const | Var | Undef => 0, Zext | Sext | Extract | Table | FToUi | FToSi | UiToF | SiToF | FExt | FTrunc => 1, Ite => 3, _ => 2 };
        ([n.a, n.b, n.c], k)
    }

    // ---------- bit-vector translation (w == 1 terms are Bool) ----------
    fn bv(&mut self, ar: &Arena, id: Id) -> P {
        let mut st = vec![(id, false)];
        while let Some((x, ready)) = st.pop() {
            if self.bv.contains_key(&x) { continue; }
            let n = *ar.n(x);
            let (k, nk) = Self::kids(&n);
            if !ready { st.push((x, true)); for &y in &k[..nk] { st.push((y, false)); } continue; }
            let r = self.bv_node(ar, x, &n);
            self.bv.insert(x, r);
        }
        self.bv[&id]
    }
    fn as_bv(&self, ar: &Arena, id: Id) -> P {
        let a = self.bv[&id];
        if ar.w(id) == 1 { unsafe { Z3_mk_ite(self.c, a, self.num(1, 1), self.num(0, 1)) } } else { a }
    }
    fn fp_of(&mut self, ar: &Arena, id: Id) -> P {
        if let Some(&p) = self.fp.get(&id) { return p; }
        let n = *ar.n(id);
        let r = unsafe {
            let c = self.c;
            let so = |w: u16| if w == 64 { Z3_mk_fpa_sort_double(c) } else { Z3_mk_fpa_sort_single(c) };
            let rne = Z3_mk_fpa_rne(c);
            match n.op {
                Op::FAdd => { let (a, b) = (self.fp_of(ar, n.a), self.fp_of(ar, n.b)); Z3_mk_fpa_add(c, rne, a, b) }
                Op::FSub => { let (a, b) = (self.fp_of(ar, n.a), self.fp_of(ar, n.b)); Z3_mk_fpa_sub(c, rne, a, b) }
                Op::FMul => { let (a, b) = (self.fp_of(ar, n.a), self.fp_of(ar, n.b)); Z3_mk_fpa_mul(c, rne, a, b) }
                Op::FDiv => { let (a, b) = (self.fp_of(ar, n.a), self.fp_of(ar, n.b)); Z3_mk_fpa_div(c, rne, a, b) }
                Op::UiToF => { let a = self.as_bv(ar, n.a); Z3_mk_fpa_to_fp_unsigned(c, rne, a, so(n.w)) }
                Op::SiToF => { let a = self.as_bv(ar, n.a); Z3_mk_fpa_to_fp_signed(c, rne, a, so(n.w)) }
                Op::FExt | Op::FTrunc => { let a = self.fp_of(ar, n.a); Z3_mk_fpa_to_fp_float(c, rne, a, so(n.w)) }
                _ => { let a = self.bv[&id]; Z3_mk_fpa_to_fp_bv(c, a, so(n.w)) }
            }
        };
        self.fp.insert(id, r);
        r
    }
    fn bv_node(&mut self, ar: &Arena, id: Id, n: &Node) -> P {
        use Op::*;
        let c = self.c;
        let g = |s: &Self, i: Id| s.bv[&i];
        unsafe {
            if n.w == 1 && matches!(n.op, And | Or | Xor | Ite | Const | Var | Undef) {
                return match n.op {
                    Const => if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) },
                    And => { let v = [g(self, n.a), g(self, n.b)]; Z3_mk_and(c, 2, v.as_ptr()) }
                    Or => { let v = [g(self, n.a), g(self, n.b)]; Z3_mk_or(c, 2, v.as_ptr()) }
                    Xor => if ar.is_const(n.b) == Some(1) { Z3_mk_not(c, g(self, n.a)) } else { Z3_mk_xor(c, g(self, n.a), g(self, n.b)) },
                    Ite => Z3_mk_ite(c, g(self, n.a), g(self, n.b), g(self, n.c)),
                    Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), self.bool_s),
                    _ => Z3_mk_fresh_const(c, cs("u").as_ptr(), self.bool_s),
                };
            }
            match n.op {
                Const => self.num(n.k, n.w),
                Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, n.w as c_uint)),
                Undef => Z3_mk_fresh_const(c, cs("u").as_ptr(), Z3_mk_bv_sort(c, n.w as c_uint)),
                Add => Z3_mk_bvadd(c, g(self, n.a), g(self, n.b)),
                Sub => Z3_mk_bvsub(c, g(self, n.a), g(self, n.b)),
                Mul => Z3_mk_bvmul(c, g(self, n.a), g(self, n.b)),
                UDiv => Z3_mk_bvudiv(c, g(self, n.a), g(self, n.b)),
                SDiv => Z3_mk_bvsdiv(c, g(self, n.a), g(self, n.b)),
                URem => Z3_mk_bvurem(c, g(self, n.a), g(self, n.b)),
                SRem => Z3_mk_bvsrem(c, g(self, n.a), g(self, n.b)),
                And => Z3_mk_bvand(c, g(self, n.a), g(self, n.b)),
                Or => Z3_mk_bvor(c, g(self, n.a), g(self, n.b)),
                Xor => Z3_mk_bvxor(c, g(self, n.a), g(self, n.b)),
                Shl => Z3_mk_bvshl(c, g(self, n.a), g(self, n.b)),
                LShr => Z3_mk_bvlshr(c, g(self, n.a), g(self, n.b)),
                AShr => Z3_mk_bvashr(c, g(self, n.a), g(self, n.b)),
                Eq => Z3_mk_eq(c, g(self, n.a), g(self, n.b)),
                Ult => Z3_mk_bvult(c, g(self, n.a), g(self, n.b)),
                Ule => Z3_mk_bvule(c, g(self, n.a), g(self, n.b)),
                Slt => Z3_mk_bvslt(c, g(self, n.a), g(self, n.b)),
                Sle => Z3_mk_bvsle(c, g(self, n.a), g(self, n.b)),
                Ite => Z3_mk_ite(c, g(self, n.a), g(self, n.b), g(self, n.c)),
                Zext => { let a = self.as_bv(ar, n.a); Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, a) }
                Sext => { let a = self.as_bv(ar, n.a); Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, a) }
                Extract => { let a = self.as_bv(ar, n.a); let e = Z3_mk_extract(c, n.c as c_uint, n.b as c_uint, a); if n.w == 1 { Z3_mk_eq(c, e, self.num(1, 1)) } else { e } }
                Concat => { let (a, b) = (self.as_bv(ar, n.a), self.as_bv(ar, n.b)); Z3_mk_concat(c, a, b) }
                Table => self.table_bv(ar, n),
                FCmp => {
                    let (a, b) = (self.fp_of(ar, n.a), self.fp_of(ar, n.b));
                    let mut v = vec![];
                    if n.k & 1 != 0 { v.push(Z3_mk_fpa_eq(c, a, b)); }
                    if n.k & 2 != 0 { v.push(Z3_mk_fpa_lt(c, b, a)); }
                    if n.k & 4 != 0 { v.push(Z3_mk_fpa_lt(c, a, b)); }
                    if n.k & 8 != 0 { v.push(Z3_mk_fpa_is_nan(c, a)); v.push(Z3_mk_fpa_is_nan(c, b)); }
                    self.or(&v)
                }
                FToUi | FToSi => {
                    let a = self.fp_of(ar, n.a);
                    let rtz = Z3_mk_fpa_rtz(c);
                    let fs = if ar.w(n.a) == 64 { Z3_mk_fpa_sort_double(c) } else { Z3_mk_fpa_sort_single(c) };
                    let fc = |v: f64| { let bits = if ar.w(n.a) == 64 { self.num(v.to_bits() as u128, 64) } else { self.num((v as f32).to_bits() as u128, 32) }; Z3_mk_fpa_to_fp_bv(c, bits, fs) };
                    let m = mask(n.w);
                    if n.op == FToUi {
                        let conv = Z3_mk_fpa_to_ubv(c, rtz, a, n.w as c_uint);
                        let big = Z3_mk_not(c, Z3_mk_fpa_lt(c, a, fc((m as f64) + if n.w < 64 { 1.0 } else { 0.0 })));
                        let neg = Z3_mk_fpa_lt(c, a, fc(0.0));
                        let r = Z3_mk_ite(c, big, self.num(m, n.w), conv);
                        let r = Z3_mk_ite(c, neg, self.num(0, n.w), r);
                        Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, a), self.num(0, n.w), r)
                    } else {
                        let conv = Z3_mk_fpa_to_sbv(c, rtz, a, n.w as c_uint);
                        let lim = (1u128 << (n.w - 1)) as f64;
                        let big = Z3_mk_not(c, Z3_mk_fpa_lt(c, a, fc(lim)));
                        let neg = Z3_mk_fpa_lt(c, a, fc(-lim));
                        let r = Z3_mk_ite(c, big, self.num(m >> 1, n.w), conv);
                        let r = Z3_mk_ite(c, neg, self.num((m >> 1) + 1, n.w), r);
                        Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, a), self.num(0, n.w), r)
                    }
                }
                FAdd | FSub | FMul | FDiv | UiToF | SiToF | FExt | FTrunc => { let f = self.fp_of(ar, id); Z3_mk_fpa_to_ieee_bv(c, f) }
                ScaledLt | FOk => { Z3_mk_fresh_const(c, cs("big").as_ptr(), self.bool_s) }
                FPow => { eprintln!("symbolic pow"); Z3_mk_fresh_const(c, cs("pow").as_ptr(), Z3_mk_bv_sort(c, n.w as c_uint)) }
            }
        }
    }
    // runs of equal entries: (first index, last index, value)
    fn runs(t: &[u64], lo: usize, hi: usize) -> Vec<(u64, u64, u64)> {
        let mut v: Vec<(u64, u64, u64)> = vec![];
        for i in lo..=hi.min(t.len() - 1) {
            if let Some(l) = v.last_mut() { if l.2 == t[i] { l.1 = i as u64; continue; } }
            v.push((i as u64, i as u64, t[i]));
        }
        v
    }
    fn table_bv(&mut self, ar: &Arena, n: &Node) -> P {
        let t = ar.tables[n.k as usize].1.clone();
        let wi = ar.w(n.a);
        let ix = self.as_bv(ar, n.a);
        let inf = ar.inf(n.a);
        let runs = Self::runs(&t, (inf.lo as usize).min(t.len() - 1), inf.hi.min(t.len() as u128 - 1) as usize);
        unsafe {
            let c = self.c;
            let inr = |s: &Self, a: u64, b: u64| {
                if a == b { Z3_mk_eq(c, ix, s.num(a as u128, wi)) }
                else { let mut v = vec![]; if a > 0 { v.push(Z3_mk_bvule(c, s.num(a as u128, wi), ix)); } if (b as u128) < mask(wi) { v.push(Z3_mk_bvule(c, ix, s.num(b as u128, wi))); } s.and(&v) }
            };
            if n.w == 1 {
                let ones: Vec<_> = runs.iter().filter(|r| r.2 == 1).collect();
                let zeros: Vec<_> = runs.iter().filter(|r| r.2 == 0).collect();
                return if ones.len() <= zeros.len() { let v: Vec<P> = ones.iter().map(|r| inr(self, r.0, r.1)).collect(); self.or(&v) }
                else { let v: Vec<P> = zeros.iter().map(|r| inr(self, r.0, r.1)).collect(); Z3_mk_not(c, self.or(&v)) };
            }
            let mut by: HashMap<u64, Vec<P>> = HashMap::new();
            let mut cnt: HashMap<u64, usize> = HashMap::new();
            for r in &runs { *cnt.entry(r.2).or_default() += 1; }
            let def = *cnt.iter().max_by_key(|x| (*x.1, *x.0)).unwrap().0;
            for r in &runs { if r.2 != def { let p = inr(self, r.0, r.1); by.entry(r.2).or_default().push(p); } }
            let mut ks: Vec<u64> = by.keys().copied().collect(); ks.sort();
            let mut e = self.num(def as u128, n.w);
            for k in ks { let cond = self.or(&by[&k]); e = Z3_mk_ite(c, cond, self.num(k as u128, n.w), e); }
            e
        }
    }

    // ---------- linear integer translation ----------
    fn li(&mut self, ar: &mut Arena, id: Id) -> Option<P> {
        let mut st = vec![(id, false)];
        while let Some((x, ready)) = st.pop() {
            if self.li.contains_key(&x) { continue; }
            let n = *ar.n(x);
            let (k, nk) = Self::kids(&n);
            if !ready { st.push((x, true)); for &y in &k[..nk] { st.push((y, false)); } continue; }
            let mut side = vec![];
            let r = self.li_node(ar, x, &n, &mut side);
            let r = if r.is_none() && self.relax { if n.w == 1 { Some(unsafe { Z3_mk_fresh_const(self.c, cs("b").as_ptr(), self.bool_s) }) } else { Some(self.fresh(ar.inf(x).lo, ar.inf(x).hi, &mut side)) } } else { r };
            if r.is_none() && k[..nk].iter().all(|y| self.li[y].is_some()) && std::env::var("LLSYM_DUMP").is_ok() { eprintln!("not linear: {}", ar.show(x, 5)); }
            if !side.is_empty() { self.li_side.insert(x, side); }
            self.li.insert(x, r);
        }
        self.li[&id]
    }
    fn lsum(&self, v: &[P]) -> P { unsafe { Z3_mk_add(self.c, v.len() as c_uint, v.as_ptr()) } }
    fn lsub(&self, a: P, b: P) -> P { unsafe { let v = [a, b]; Z3_mk_sub(self.c, 2, v.as_ptr()) } }
    fn lmul(&self, a: P, k: u128) -> P { unsafe { if k == 1 { return a; } let v = [self.inum(k), a]; Z3_mk_mul(self.c, 2, v.as_ptr()) } }
    fn fresh(&self, lo: u128, hi: u128, side: &mut Vec<P>) -> P {
        unsafe {
            let f = if self.relax && hi - lo <= ints() { Z3_mk_int2real(self.c, Z3_mk_fresh_const(self.c, cs("q").as_ptr(), Z3_mk_int_sort(self.c))) }
                else { Z3_mk_fresh_const(self.c, cs("q").as_ptr(), self.int_s) };
            side.push(Z3_mk_ge(self.c, f, self.inum(lo)));
            side.push(Z3_mk_le(self.c, f, self.inum(hi)));
            f
        }
    }
    /// quotient and remainder of `a` by the constant `k`. All quotients of one term are linked to each
    /// other (x/1000 is (x/100)/10), so that digits taken out in different ways are related linearly.
    fn divmod(&mut self, ar: &Arena, a: Id, pa: P, k: u128, side: &mut Vec<P>) -> (P, P) {
        let (mut x, mut c) = (a, 1u128);
        loop {
            let n = ar.n(x);
            if n.op == Op::Zext { x = n.a; continue; }
            if n.op == Op::UDiv { if let Some(d) = ar.is_const(n.b) { if let Some(cc) = c.checked_mul(d) { if cc.checked_mul(k).is_some() { c = cc; x = n.a; continue; } } } }
            break;
        }
        let px = if x == a { pa } else { match self.li_int(ar, x) { Some(p) => p, None => { x = a; c = 1; pa } } };
        let hi = self.range(ar, x).1;
        let kz = ar.inf(x).kz;
        let qa = self.quot(x, px, hi, c, kz, side);
        let q = self.quot(x, px, hi, c * k, kz, side);
        let r = self.lsub(qa, self.lmul(q, k));
        unsafe { side.push(Z3_mk_ge(self.c, r, self.inum(0))); side.push(Z3_mk_le(self.c, r, self.inum(k - 1))); }
        (q, r)
    }
    /// x & k for a constant k: the sum of its runs of bits
    fn and_const(&mut self, ar: &Arena, a: Id, x: P, k: u128, side: &mut Vec<P>) -> P {
        let (mut sum, mut rest) = (vec![self.inum(0)], k);
        let hi = self.range(ar, a).1;
        while rest != 0 {
            let lo = rest.trailing_zeros();
            let len = (!(rest >> lo)).trailing_zeros();
            if lo + len >= 128 { rest = 0; } else { rest = rest >> (lo + len) << (lo + len); }
            if hi >> lo == 0 { break; }
            let q = if lo == 0 { x } else { self.divmod(ar, a, x, 1u128 << lo, side).0 };
            let part = if lo + len >= 128 || hi >> (lo + len) == 0 { q } else { let t = self.divmod(ar, a, x, 1u128 << (lo + len), side).0; self.lsub(q, self.lmul(t, 1u128 << len)) };
            sum.push(self.lmul(part, 1u128 << lo));
        }
        self.lsum(&sum)
    }
    fn quot(&mut self, x: Id, px: P, hi: u128, k: u128, kz: u128, side: &mut Vec<P>) -> P {
        let rmax = |a: u128, b: u128| if a.is_power_of_two() && b.is_power_of_two() { (!kz >> a.trailing_zeros()) & (b / a - 1) } else { b / a - 1 };
        if k == 1 { return px; }
        let l = self.li_div.entry(x).or_default();
        if let Some((_, q, defs)) = l.iter().find(|e| e.0 == k) { side.extend_from_slice(defs); return *q; }
        let below = l.iter().filter(|e| k % e.0 == 0).max_by_key(|e| e.0).cloned();
        let above = l.iter().filter(|e| e.0 % k == 0).min_by_key(|e| e.0).cloned();
        let mut defs = vec![];
        let q = self.fresh(0, hi / k, &mut defs);
        let (kb, pb) = match &below { Some(e) => { defs.extend_from_slice(&e.2); (e.0, e.1) } None => (1, px) };
        let r = self.fresh(0, rmax(kb, k), &mut defs);
        unsafe { defs.push(Z3_mk_eq(self.c, pb, self.lsum(&[self.lmul(q, k / kb), r]))); }
        if let Some((ka, pa, da)) = above {
            defs.extend_from_slice(&da);
            let r = self.fresh(0, rmax(k, ka), &mut defs);
            unsafe { defs.push(Z3_mk_eq(self.c, q, self.lsum(&[self.lmul(pa, ka / k), r]))); }
        }
        side.extend_from_slice(&defs);
        self.li_div.get_mut(&x).unwrap().push((k, q, defs));
        q
    }
    fn li_int(&self, ar: &Arena, id: Id) -> Option<P> {
        let p = self.li[&id]?;
        Some(if ar.w(id) == 1 { unsafe { Z3_mk_ite(self.c, p, self.inum(1), self.inum(0)) } } else { p })
    }
    fn range(&self, ar: &Arena, id: Id) -> (u128, u128) {
        if let Some(m) = &self.rng { if let Some(r) = m.get(&id) { return *r; } }
        let i = ar.inf(id);
        (i.lo, i.hi)
    }
    fn pow2(&self, w: u16) -> P { unsafe { if w >= 128 { Z3_mk_numeral(self.c, cs("340282366920938463463374607431768211456").as_ptr(), self.int_s) } else { self.inum(1u128 << w) } } }
    fn lmul2(&self, a: P, w: u16) -> P { unsafe { let v = [self.pow2(w), a]; Z3_mk_mul(self.c, 2, v.as_ptr()) } }
    /// ranges of all terms of a query, given its constraints; false: some constraint is impossible
    fn ranges(&self, ar: &Arena, key: &[Id]) -> Option<HashMap<Id, (u128, u128)>> {
        use Op::*;
        let mut b: HashMap<Id, (u128, u128)> = HashMap::new();
        let mut meet = |x: Id, lo: u128, hi: u128| { let e = b.entry(x).or_insert((0, !0)); e.0 = e.0.max(lo); e.1 = e.1.min(hi); };
        let mut st: Vec<(Id, bool)> = key.iter().map(|x| (*x, true)).collect();
        while let Some((x, pos)) = st.pop() {
            let n = ar.n(x);
            let (ca, cb) = (ar.is_const(n.a), if Self::kids(n).1 > 1 { ar.is_const(n.b) } else { None });
            match (n.op, pos) {
                (And, true) if n.w == 1 => { st.push((n.a, true)); st.push((n.b, true)); }
                (Or, false) if n.w == 1 => { st.push((n.a, false)); st.push((n.b, false)); }
                (Xor, _) if n.w == 1 && cb == Some(1) => st.push((n.a, !pos)),
                (Ult, true) => { if let Some(c) = cb { if c == 0 { return None; } meet(n.a, 0, c - 1); } if let Some(c) = ca { if c == !0 { return None; } meet(n.b, c + 1, !0); } }
                (Ult, false) => { if let Some(c) = cb { meet(n.a, c, !0); } if let Some(c) = ca { meet(n.b, 0, c); } }
                (Ule, true) => { if let Some(c) = cb { meet(n.a, 0, c); } if let Some(c) = ca { meet(n.b, c, !0); } }
                (Ule, false) => { if let Some(c) = cb { if c == !0 { return None; } meet(n.a, c + 1, !0); } if let Some(c) = ca { if c == 0 { return None; } meet(n.b, 0, c - 1); } }
                (Eq, true) => { if let Some(c) = cb { meet(n.a, c, c); } }
                _ => {}
            }
        }
        if b.is_empty() { return None; }
        let mut out: HashMap<Id, (u128, u128)> = HashMap::new();
        let mut st: Vec<(Id, bool)> = key.iter().map(|x| (*x, false)).collect();
        while let Some((x, ready)) = st.pop() {
            if out.contains_key(&x) { continue; }
            let n = *ar.n(x);
            let (k, nk) = Self::kids(&n);
            if !ready { st.push((x, true)); for &y in &k[..nk] { st.push((y, false)); } continue; }
            let inf = ar.inf(x);
            let m = mask(n.w);
            let r = |y: Id| out[&y];
            let c = if nk > 1 { ar.is_const(n.b) } else { None };
            let (mut lo, mut hi) = match n.op {
                Add => { let (p, q) = (r(n.a), r(n.b)); match p.1.checked_add(q.1) { Some(h) if h <= m => (p.0 + q.0, h), _ => match (p.0.checked_add(q.0), p.1.wrapping_add(q.1)) { (Some(l), h) if n.w < 128 && l > m => (l - m - 1, h - m - 1), _ => (0, m) } } }
                Sub => { let (p, q) = (r(n.a), r(n.b)); if p.0 >= q.1 { (p.0 - q.1, p.1 - q.0) } else { (0, m) } }
                Mul => { let (p, q) = (r(n.a), r(n.b)); match p.1.checked_mul(q.1) { Some(h) if h <= m => (p.0 * q.0, h), _ => (0, m) } }
                UDiv => match c { Some(k) if k > 0 => { let p = r(n.a); (p.0 / k, p.1 / k) } _ => (0, m) },
                URem => match c { Some(k) if k > 0 => { let p = r(n.a); if p.1 < k { p } else { (0, k - 1) } } _ => (0, m) },
                Zext => r(n.a),
                Extract => { let p = r(n.a); if n.b == 0 && p.1 <= m { p } else if p.1 >> n.b <= m { (p.0 >> n.b, p.1 >> n.b) } else { (0, m) } }
                Concat => { let (p, q) = (r(n.a), r(n.b)); let wb = ar.w(n.b); (p.0 << wb | q.0, p.1 << wb | q.1) }
                Ite => { let (p, q) = (r(n.b), r(n.c)); (p.0.min(q.0), p.1.max(q.1)) }
                _ => (0, m),
            };
            lo = lo.max(inf.lo); hi = hi.min(inf.hi);
            if let Some(e) = b.get(&x) { lo = lo.max(e.0); hi = hi.min(e.1); }
            if lo > hi { lo = inf.lo; hi = inf.hi; } // contradictory; left to the solver
            out.insert(x, (lo, hi));
        }
        Some(out)
    }
    fn signed(&self, ar: &Arena, id: Id) -> Option<P> {
        let p = self.li_int(ar, id)?;
        let w = ar.w(id);
        if self.range(ar, id).1 <= mask(w) >> 1 { return Some(p); }
        unsafe { Some(Z3_mk_ite(self.c, Z3_mk_ge(self.c, p, self.pow2(w - 1)), self.lsub(p, self.pow2(w)), p)) }
    }
    fn li_node(&mut self, ar: &mut Arena, id: Id, n: &Node, side: &mut Vec<P>) -> Option<P> {
        use Op::*;
        let c = self.c;
        let m = mask(n.w);
        unsafe {
            if n.w == 1 {
                let g = |s: &Self, i: Id| s.li[&i];
                match n.op {
                    Const => return Some(if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) }),
                    And => { let v = [g(self, n.a)?, g(self, n.b)?]; return Some(Z3_mk_and(c, 2, v.as_ptr())); }
                    Or => { let v = [g(self, n.a)?, g(self, n.b)?]; return Some(Z3_mk_or(c, 2, v.as_ptr())); }
                    Xor => { return Some(if ar.is_const(n.b) == Some(1) { Z3_mk_not(c, g(self, n.a)?) } else { Z3_mk_xor(c, g(self, n.a)?, g(self, n.b)?) }); }
                    Ite => return Some(Z3_mk_ite(c, g(self, n.a)?, g(self, n.b)?, g(self, n.c)?)),
                    Eq | Ult | Ule if self.relax => { // over integers, as tight as their reals allow
                        let (a, b) = (self.li_int(ar, n.a)?, self.li_int(ar, n.b)?);
                        let p = Z3_mk_fresh_const(c, cs("p").as_ptr(), self.bool_s);
                        let np = Z3_mk_not(c, p);
                        let one = self.inum(1);
                        let (y, z) = match n.op {
                            Eq => { let (l, g) = (Z3_mk_le(c, self.lsum(&[a, one]), b), Z3_mk_le(c, self.lsum(&[b, one]), a)); (Z3_mk_eq(c, a, b), if self.range(ar, n.b).1 <= self.range(ar, n.a).0 { g } else { self.or(&[l, g]) }) }
                            Ult => (Z3_mk_le(c, self.lsum(&[a, one]), b), Z3_mk_le(c, b, a)),
                            _ => (Z3_mk_le(c, a, b), Z3_mk_le(c, self.lsum(&[b, one]), a)),
                        };
                        side.push(self.or(&[np, y]));
                        side.push(self.or(&[p, z]));
                        return Some(p);
                    }
                    Eq => { let (a, b) = (self.li_int(ar, n.a)?, self.li_int(ar, n.b)?); return Some(Z3_mk_eq(c, a, b)); }
                    Ult => { let (a, b) = (self.li_int(ar, n.a)?, self.li_int(ar, n.b)?); return Some(Z3_mk_lt(c, a, b)); }
                    Ule => { let (a, b) = (self.li_int(ar, n.a)?, self.li_int(ar, n.b)?); return Some(Z3_mk_le(c, a, b)); }
                    Slt => { let (a, b) = (self.signed(ar, n.a)?, self.signed(ar, n.b)?); return Some(Z3_mk_lt(c, a, b)); }
                    Sle => { let (a, b) = (self.signed(ar, n.a)?, self.signed(ar, n.b)?); return Some(Z3_mk_le(c, a, b)); }
                    Var => { let v = Z3_mk_const(c, Z3_mk_int_symbol(c, 100000 + n.k as c_int), self.bool_s); self.li_vars.insert(n.k as u32, v); return Some(v); }
                    ScaledLt if self.relax => {
                        let (a, b) = (self.li_int(ar, n.a)?, self.li_int(ar, n.b)?);
                        let (lo, hi, sh) = crate::big::Big::bounds(n.k as u32 as i32, (n.k >> 32) as u32 as i32);
                        let (ax, bx) = if sh >= 0 { (0, sh as u32) } else { (-sh as u32, 0) };
                        let b = self.mul2(self.bignum(&crate::big::Big::from(1).shl(bx)), b);
                        let (l, h) = (self.mul2(self.bignum(&lo.shl(ax)), a), self.mul2(self.bignum(&hi.shl(ax)), a));
                        let p = Z3_mk_fresh_const(c, cs("p").as_ptr(), self.bool_s);
                        let np = Z3_mk_not(c, p);
                        side.push(self.or(&[np, Z3_mk_lt(c, l, b)]));
                        side.push(self.or(&[p, Z3_mk_le(c, b, h)]));
                        return Some(p);
                    }
                    ScaledLt => {
                        let (a, b) = (self.li_int(ar, n.a)?, self.li_int(ar, n.b)?);
                        let (x, y) = crate::big::Big::ratio(1, n.k as u32 as i32, (n.k >> 32) as u32 as i32);
                        let (x, y) = (self.bignum(&x), self.bignum(&y));
                        let (va, vb) = ([x, a], [y, b]);
                        return Some(Z3_mk_lt(c, Z3_mk_mul(c, 2, va.as_ptr()), Z3_mk_mul(c, 2, vb.as_ptr())));
                    }
                    FOk if self.relax => { let m = self.li_int(ar, n.b)?; return self.float_ok(ar, n, m, side); }
                    Extract | Table => {}
                    _ => return None,
                }
            }
            match n.op {
                Const => Some(self.inum(n.k)),
                Var => {
                    let v = Z3_mk_const(c, Z3_mk_int_symbol(c, 100000 + n.k as c_int), self.int_s);
                    self.li_vars.insert(n.k as u32, v);
                    side.push(Z3_mk_ge(c, v, self.inum(0))); side.push(Z3_mk_le(c, v, self.inum(m)));
                    Some(v)
                }
                Add | Sub if n.k == 1 => { let (a, b) = (self.li_int(ar, n.a)?, self.li_int(ar, n.b)?); let s = if n.op == Add { self.lsum(&[a, b]) } else { self.lsub(a, b) }; side.push(Z3_mk_ge(c, s, self.inum(0))); side.push(Z3_mk_le(c, s, self.inum(m))); Some(s) }
                Mul if n.k == 1 && ar.is_const(n.b).is_some() => { let p = self.lmul(self.li_int(ar, n.a)?, ar.is_const(n.b)?); side.push(Z3_mk_le(c, p, self.inum(m))); Some(p) }
                Add => {
                    let (ia, ib) = (self.range(ar, n.a), self.range(ar, n.b));
                    let s = self.lsum(&[self.li_int(ar, n.a)?, self.li_int(ar, n.b)?]);
                    if ia.1.checked_add(ib.1).map_or(false, |h| h <= m) { return Some(s); }
                    let two = self.pow2(n.w);
                    if ia.0.checked_add(ib.0).map_or(false, |l| l > m) { return Some(self.lsub(s, two)); }
                    Some(Z3_mk_ite(c, Z3_mk_ge(c, s, two), self.lsub(s, two), s))
                }
                Sub => {
                    let (ia, ib) = (self.range(ar, n.a), self.range(ar, n.b));
                    let s = self.lsub(self.li_int(ar, n.a)?, self.li_int(ar, n.b)?);
                    if ia.0 >= ib.1 { return Some(s); }
                    let two = self.pow2(n.w);
                    Some(Z3_mk_ite(c, Z3_mk_lt(c, s, self.inum(0)), self.lsum(&[s, two]), s))
                }
                Mul => {
                    let k = ar.is_const(n.b)?;
                    let p = self.lmul(self.li_int(ar, n.a)?, k);
                    if self.range(ar, n.a).1.checked_mul(k).map_or(false, |h| h <= m) { return Some(p); }
                    let q = self.fresh(0, k, side);
                    let r = self.fresh(0, m, side);
                    side.push(Z3_mk_eq(c, p, self.lsum(&[self.lmul2(q, n.w), r])));
                    Some(r)
                }
                UDiv | URem => {
                    let k = ar.is_const(n.b)?;
                    if k == 0 { return None; }
                    let pa = self.li_int(ar, n.a)?;
                    let (q, r) = self.divmod(ar, n.a, pa, k, side);
                    Some(if n.op == UDiv { q } else { r })
                }
                Extract => {
                    let (lo, hi) = (n.b, n.c);
                    let pa = self.li_int(ar, n.a)?;
                    let ahi = self.range(ar, n.a).1;
                    let (mut base, mut key, mut bhi) = (pa, n.a, ahi);
                    let _ = &mut key;
                    if lo > 0 { let (q, _) = self.divmod(ar, n.a, pa, 1u128 << lo, side); base = q; bhi = ahi >> lo; }
                    let top = bhi > m;
                    let _ = hi;
                    let v = if top {
                        if lo == 0 { self.divmod(ar, n.a, pa, 1u128 << n.w, side).1 }
                        else if self.relax {
                            let q = self.divmod(ar, n.a, pa, 1u128 << (hi + 1), side).0;
                            let v = self.lsub(base, self.lmul2(q, n.w));
                            side.push(Z3_mk_ge(c, v, self.inum(0))); side.push(Z3_mk_le(c, v, self.inum(m)));
                            v
                        } else {
                            let q = self.fresh(0, bhi >> n.w, side); let r = self.fresh(0, m, side);
                            side.push(Z3_mk_eq(c, base, self.lsum(&[self.lmul2(q, n.w), r]))); r
                        }
                    } else { base };
                    Some(if n.w == 1 { Z3_mk_eq(c, v, self.inum(1)) } else { v })
                }
                Concat => { let wb = ar.w(n.b); let (a, b) = (self.li_int(ar, n.a)?, self.li_int(ar, n.b)?); Some(self.lsum(&[self.lmul(a, 1u128 << wb), b])) }
                Zext => self.li_int(ar, n.a),
                Sext => {
                    let p = self.li_int(ar, n.a)?; let wa = ar.w(n.a);
                    let up = m - mask(wa);
                    Some(Z3_mk_ite(c, Z3_mk_ge(c, p, self.inum(1u128 << (wa - 1))), self.lsum(&[p, self.inum(up)]), p))
                }
                Or => {
                    let (ia, ib) = (*ar.inf(n.a), *ar.inf(n.b));
                    if ia.kz | ib.kz | !m == !0 { return Some(self.lsum(&[self.li_int(ar, n.a)?, self.li_int(ar, n.b)?])); }
                    if n.w > 16 && !self.relax { return None; } // wide masks are left to bit-vectors
                    let k = ar.is_const(n.b)?;
                    let x = self.li_int(ar, n.a)?;
                    let y = self.and_const(ar, n.a, x, k, side);
                    Some(self.lsub(self.lsum(&[x, self.inum(k)]), y))
                }
                And => { if n.w > 16 && !self.relax { return None; } let k = ar.is_const(n.b)?; let x = self.li_int(ar, n.a)?; Some(self.and_const(ar, n.a, x, k, side)) }
                Xor => {
                    if ar.is_const(n.b) == Some(m) { return Some(self.lsub(self.inum(m), self.li_int(ar, n.a)?)); }
                    if n.w > 16 && !self.relax { return None; } // wide masks are left to bit-vectors
                    let k = ar.is_const(n.b)?;
                    let x = self.li_int(ar, n.a)?;
                    let y = self.and_const(ar, n.a, x, k, side);
                    Some(self.lsub(self.lsum(&[x, self.inum(k)]), self.lmul(y, 2)))
                }
                Ite => { let cc = self.li[&n.a]?; let (a, b) = (self.li_int(ar, n.b)?, self.li_int(ar, n.c)?); Some(Z3_mk_ite(c, cc, a, b)) }
                Table => {
                    let t = ar.tables[n.k as usize].1.clone();
                    let pa = self.li_int(ar, n.a)?;
                    let inf = self.range(ar, n.a);
                    let (lo, hi) = ((inf.0 as usize).min(t.len() - 1), inf.1.min(t.len() as u128 - 1) as usize);
                    let e = &t[..=hi];
                    // closed forms over the whole index range
                    if n.w > 1 && lo == 0 {
                        let k0 = e[0];
                        if e.iter().enumerate().all(|(i, x)| *x == k0 + i as u64) { return Some(self.lsum(&[pa, self.inum(k0 as u128)])); }
                        if e.len() > 10 {
                            if e.iter().enumerate().all(|(i, x)| *x == k0 + (i as u64 / 10)) { let (q, _) = self.divmod(ar, n.a, pa, 10, side); return Some(self.lsum(&[q, self.inum(k0 as u128)])); }
                            if e.iter().enumerate().all(|(i, x)| *x == k0 + (i as u64 % 10)) { let (_, r) = self.divmod(ar, n.a, pa, 10, side); return Some(self.lsum(&[r, self.inum(k0 as u128)])); }
                        }
                    }
                    let runs = Self::runs(&t, lo, hi);
                    if runs.len() > 300 { return None; }
                    if n.w == 1 {
                        let v: Vec<P> = runs.iter().filter(|r| r.2 == 1).map(|r| { let v = [Z3_mk_ge(c, pa, self.inum(r.0 as u128)), Z3_mk_le(c, pa, self.inum(r.1 as u128))]; Z3_mk_and(c, 2, v.as_ptr()) }).collect();
                        return Some(self.or(&v));
                    }
                    let mut ex = self.inum(runs.last().unwrap().2 as u128);
                    for r in runs[..runs.len() - 1].iter().rev() { ex = Z3_mk_ite(c, Z3_mk_le(c, pa, self.inum(r.1 as u128)), self.inum(r.2 as u128), ex); }
                    Some(ex)
                }
                _ => { let _ = id; None }
            }
        }
    }
    fn bignum(&self, b: &crate::big::Big) -> P { unsafe { Z3_mk_numeral(self.c, cs(&b.decimal()).as_ptr(), self.int_s) } }
    fn rational(&self, n: &crate::big::Big, d: &crate::big::Big) -> P { unsafe { Z3_mk_numeral(self.c, cs(&format!("{}/{}", n.decimal(), d.decimal())).as_ptr(), self.int_s) } }
    fn pow2r(&self, k: i32) -> P { let (n, d) = crate::big::Big::ratio(1, k, 0); self.rational(&n, &d) }
    fn mul2(&self, a: P, b: P) -> P { unsafe { let v = [a, b]; Z3_mk_mul(self.c, 2, v.as_ptr()) } }
    /// value of a finite constant
    fn float_const(&self, w: u16, bits: u128) -> Fr {
        let c = self.c;
        let (neg, inf, nan, m, e) = if w == 64 {
            let b = bits as u64; let (x, f) = ((b >> 52 & 2047) as i32, b & ((1 << 52) - 1));
            (b >> 63 == 1, x == 2047 && f == 0, x == 2047 && f != 0, if x == 0 { f } else { f | 1 << 52 }, x.max(1) - 1075)
        } else {
            let b = bits as u64; let (x, f) = ((b >> 23 & 255) as i32, b & ((1 << 23) - 1));
            (b >> 31 == 1, x == 255 && f == 0, x == 255 && f != 0, if x == 0 { f } else { f | 1 << 23 }, x.max(1) - 150)
        };
        unsafe {
            let (t, f) = (Z3_mk_true(c), Z3_mk_false(c));
            let (n, d) = if inf || nan { crate::big::Big::ratio(0, 0, 0) } else { crate::big::Big::ratio(m as u128, e, 0) };
            Fr { neg, mag: self.rational(&n, &d), inf: if inf { t } else { f }, nan: if nan { t } else { f }, side: vec![] }
        }
    }
    /// result of rounding the magnitude v to a format: any value within the rounding error
    fn rounded(&self, w: u16, neg: bool, v: P, inf: P, nan: P, mut side: Vec<P>) -> Fr {
        let c = self.c;
        let (p, top, low) = if w == 64 { (53, 1024, -1074) } else { (24, 128, -149) };
        unsafe {
            let y = Z3_mk_fresh_const(c, cs("y").as_ptr(), self.int_s);
            let lim = { let (n, d) = crate::big::Big::ratio((1u128 << (p + 1)) - 1, top - p - 1, 0); self.rational(&n, &d) };
            let over = Z3_mk_ge(c, v, lim);
            let err = self.lsum(&[self.mul2(self.pow2r(-p), v), self.pow2r(low - 1)]);
            let tiny = Z3_mk_le(c, v, self.pow2r(low - 1));
            let zero = self.inum(0);
            let vv = [Z3_mk_le(c, self.lsub(y, v), err), Z3_mk_le(c, self.lsub(v, y), err), Z3_mk_ge(c, y, zero), Z3_mk_or(c, 2, [Z3_mk_not(c, tiny), Z3_mk_eq(c, y, zero)].as_ptr())];
            let io = [inf, over];
            let i = Z3_mk_or(c, 2, io.as_ptr());
            side.push(Z3_mk_or(c, 2, [i, Z3_mk_and(c, 4, vv.as_ptr())].as_ptr()));
            Fr { neg, mag: y, inf: i, nan, side }
        }
    }
    fn fr(&mut self, ar: &Arena, id: Id) -> Option<Fr> {
        if let Some(r) = self.fr.get(&id) { return r.clone(); }
        let r = self.fr0(ar, id);
        self.fr.insert(id, r.clone());
        r
    }
    fn fr0(&mut self, ar: &Arena, id: Id) -> Option<Fr> {
        use Op::*;
        let n = *ar.n(id);
        let c = self.c;
        unsafe {
            let (t, f) = (Z3_mk_true(c), Z3_mk_false(c));
            Some(match n.op {
                Const => self.float_const(n.w, n.k),
                UiToF => { let a = self.li_int(ar, n.a)?; if ar.inf(n.a).hi <= if n.w == 64 { 1 << 53 } else { 1 << 24 } { Fr { neg: false, mag: a, inf: f, nan: f, side: vec![] } } else { self.rounded(n.w, false, a, f, f, vec![]) } }
                FMul | FDiv => {
                    let (a, b) = if n.op == FMul && ar.is_const(n.a).is_some() { (n.b, n.a) } else { (n.a, n.b) };
                    let k = ar.is_const(b)?;
                    let (x, y) = (self.fr(ar, a)?, self.float_const(n.w, k));
                    let (sign, inf) = if n.w == 64 { (1u128 << 63, 0x7ffu128 << 52) } else { (1 << 31, 0xff << 23) };
                    let k = k & (sign - 1);
                    if k > inf { return Some(Fr { nan: t, ..x }); }
                    let neg = x.neg != y.neg;
                    let xz = Z3_mk_eq(c, x.mag, self.inum(0));
                    let to_inf = |fr: Fr, bad: P| Fr { neg, mag: fr.mag, inf: t, nan: Z3_mk_or(c, 2, [fr.nan, bad].as_ptr()), side: fr.side };
                    let to_zero = |fr: Fr, bad: P| Fr { neg, mag: self.inum(0), inf: f, nan: Z3_mk_or(c, 2, [fr.nan, bad].as_ptr()), side: fr.side };
                    match (n.op, k) {
                        (FMul, k) if k == inf => { let bad = Z3_mk_and(c, 2, [Z3_mk_not(c, x.inf), xz].as_ptr()); to_inf(x, bad) }
                        (FMul, 0) => { let bad = x.inf; to_zero(x, bad) }
                        (_, k) if k == inf => { let bad = x.inf; to_zero(x, bad) }
                        (_, 0) => { let bad = Z3_mk_and(c, 2, [Z3_mk_not(c, x.inf), xz].as_ptr()); to_inf(x, bad) }
                        _ => {
                            let fx = if n.op == FMul { y.mag } else {
                                // 1 / constant
                                let bits = k as u64;
                                let (m, e) = if n.w == 64 { let (z, g) = ((bits >> 52) as i32, bits & ((1 << 52) - 1)); (if z == 0 { g } else { g | 1 << 52 }, z.max(1) - 1075) } else { let (z, g) = ((bits >> 23) as i32, bits & ((1 << 23) - 1)); (if z == 0 { g } else { g | 1 << 23 }, z.max(1) - 150) };
                                let (p, q) = crate::big::Big::ratio(m as u128, e, 0);
                                self.rational(&q, &p)
                            };
                            let v = self.mul2(fx, x.mag);
                            self.rounded(n.w, neg, v, x.inf, x.nan, x.side)
                        }
                    }
                }
                FTrunc => { let x = self.fr(ar, n.a)?; self.rounded(n.w, x.neg, x.mag, x.inf, x.nan, x.side) }
                FExt => self.fr(ar, n.a)?,
                Xor if ar.is_const(n.b) == Some(1u128 << (n.w - 1)) => { let x = self.fr(ar, n.a)?; Fr { neg: !x.neg, ..x } }
                Zext => { let e = *ar.n(n.a); if e.op == Extract && e.b == 0 && e.w + 1 == n.w && ar.w(e.a) == n.w { let x = self.fr(ar, e.a)?; Fr { neg: false, ..x } } else { return None } }
                Concat => { // sign bit in front of a magnitude
                    let s = ar.is_const(n.a)?; let e = *ar.n(n.b);
                    if ar.w(n.a) == 1 && e.op == Extract && e.b == 0 && e.w + 1 == n.w && ar.w(e.a) == n.w { let x = self.fr(ar, e.a)?; Fr { neg: s == 1, ..x } } else { return None }
                }
                Ite => {
                    let k = self.li[&n.a]?;
                    let (x, y) = (self.fr(ar, n.b)?, self.fr(ar, n.c)?);
                    if x.neg != y.neg { return None; }
                    let i = |a: P, b: P| Z3_mk_ite(c, k, a, b);
                    let mut side = x.side.clone(); side.extend_from_slice(&y.side);
                    Fr { neg: x.neg, mag: i(x.mag, y.mag), inf: i(x.inf, y.inf), nan: i(x.nan, y.nan), side }
                }
                _ => return None,
            })
        }
    }
    /// FOk over the relaxed arithmetic; see big::float_ok
    fn float_ok(&mut self, ar: &Arena, n: &Node, m: P, side: &mut Vec<P>) -> Option<P> {
        let c = self.c;
        let (e, neg) = (n.k as u32 as i32, n.k >> 32 == 1);
        let w = ar.w(n.a);
        let (_, top, low, zero, tol) = crate::big::limits(w as u32);
        let r = self.fr(ar, n.a)?;
        side.extend_from_slice(&r.side);
        unsafe {
            let and = |v: &[P]| Z3_mk_and(c, v.len() as c_uint, v.as_ptr());
            let or = |v: &[P]| Z3_mk_or(c, v.len() as c_uint, v.as_ptr());
            if r.neg != neg { return Some(Z3_mk_false(c)); }
            let fin = Z3_mk_not(c, r.inf);
            let z = Z3_mk_eq(c, r.mag, self.inum(0));
            let ok = if e < -1000 { and(&[fin, z]) } else if e > 1000 { r.inf } else {
                let (xn, xd) = crate::big::Big::ratio(1, 0, e);
                let x = self.mul2(self.rational(&xn, &xd), m);
                let t = { let (a, b) = crate::big::Big::ratio(1, 0, -tol); self.rational(&a, &b) };
                let far = Z3_mk_ge(c, self.lsum(&[x, self.mul2(t, x)]), self.pow2r(top));
                let tiny = Z3_mk_le(c, x, self.pow2r(zero));
                let near = |b: P| { let b = self.mul2(t, b); and(&[Z3_mk_le(c, self.lsub(r.mag, x), b), Z3_mk_le(c, self.lsub(x, r.mag), b)]) };
                let close = or(&[near(x), near(self.pow2r(low))]);
                or(&[and(&[r.inf, far]), and(&[fin, tiny, z]), and(&[fin, Z3_mk_not(c, tiny), close])])
            };
            Some(and(&[Z3_mk_not(c, r.nan), ok]))
        }
    }
    /// Over-approximate satisfiability: unsatisfiable, or the values the inputs have in a model of the
    /// relaxation (rounded down).
    pub fn check_relaxed(&mut self, ar: &mut Arena, cons: &[Id]) -> Res {
        self.stats.queries += 1;
        let mut key: Vec<Id> = cons.to_vec();
        key.sort_unstable();
        key.dedup();
        let mut vars = 0u128;
        for &x in &key { if ar.is_const(x) == Some(0) { return Res::Unsat; } vars |= ar.inf(x).vars; }
        if let Some(r) = self.cache.get(&key) { self.stats.cache_hits += 1; return match r { None => Res::Unsat, Some(_) => Res::Unknown }; }
        let t0 = Instant::now();
        // the solver keeps the constraints of the previous query as far as they are the same
        let mut order: Vec<Id> = vec![];
        for &x in cons { if !order.contains(&x) { order.push(x); } }
        let keep = self.levels.iter().zip(order.iter()).take_while(|(l, x)| l.0 == **x).count();
        self.stats.lia += 1;
        self.stats.z3_calls += 1;
        let r = unsafe {
            let s = self.lia_s;
            self.params(s, 5000);
            if self.levels.len() > keep {
                Z3_solver_pop(self.c, s, (self.levels.len() - keep) as c_uint);
                for (_, ids) in self.levels.drain(keep..) { for x in ids { self.have.remove(&x); } }
            }
            for &x in &order[keep..] {
                Z3_solver_push(self.c, s);
                let a = self.li(ar, x).unwrap();
                Z3_solver_assert(self.c, s, a);
                let (mut st, mut ids) = (vec![x], vec![]);
                while let Some(y) = st.pop() {
                    if !self.have.insert(y) { continue; }
                    ids.push(y);
                    if let Some(v) = self.li_side.get(&y) { for a in v { Z3_solver_assert(self.c, s, *a); } }
                    let (k, nk) = Self::kids(ar.n(y));
                    st.extend_from_slice(&k[..nk]);
                }
                self.levels.push((x, ids));
            }
            match Z3_solver_check(self.c, s) {
                1 => { let m = Z3_solver_get_model(self.c, s); Z3_model_inc_ref(self.c, m); let r = self.model_vals(ar, m, vars, &[], true); Z3_model_dec_ref(self.c, m); r.map_or(Res::Unknown, Res::Sat) }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            }
        };
        let dt = t0.elapsed().as_secs_f64();
        self.stats.secs += dt;
        if dt > self.stats.max_secs { self.stats.max_secs = dt; }
        if std::env::var("LLSYM_SLOW").map_or(false, |v| dt > v.parse().unwrap_or(0.5)) { eprintln!("slow relaxed query {:.2}s res={}", dt, match r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" }); for x in &key { eprintln!("   {}", ar.show(*x, 6)); } }
        if let Res::Unsat = r { self.cache.insert(key, None); }
        r
    }
    fn li_collect(&self, ar: &Arena, id: Id, seen: &mut std::collections::HashSet<Id>, out: &mut Vec<P>) {
        let mut st = vec![id];
        while let Some(x) = st.pop() {
            if !seen.insert(x) { continue; }
            if let Some(s) = self.li_side.get(&x) { out.extend_from_slice(s); }
            let (k, nk) = Self::kids(ar.n(x));
            st.extend_from_slice(&k[..nk]);
        }
    }

    fn model_vals(&self, ar: &Arena, model: P, vars: u128, base: &[u128], li: bool) -> Option<Vec<u128>> {
        let mut out = base.to_vec();
        out.resize(ar.var_w.len(), 0);
        unsafe {
            for v in 0..ar.var_w.len() {
                if vars >> v & 1 == 0 { continue; }
                let w = ar.var_w[v];
                let t = if li { match self.li_vars.get(&(v as u32)) { Some(x) => *x, None => continue } }
                    else if w == 1 { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, v as c_int), self.bool_s) }
                    else { Z3_mk_const(self.c, Z3_mk_int_symbol(self.c, v as c_int), Z3_mk_bv_sort(self.c, w as c_uint)) };
                let t = if w == 1 { Z3_mk_ite(self.c, t, self.inum(1), self.inum(0)) } else { t };
                let mut r: P = std::ptr::null_mut();
                if !Z3_model_eval(self.c, model, t, true, &mut r) || r.is_null() { return None; }
                if self.relax {
                    let s = CStr::from_ptr(Z3_get_numeral_decimal_string(self.c, r, 0)).to_str().ok()?;
                    out[v] = s.split('.').next()?.trim_end_matches('?').parse::<u128>().ok()?;
                    continue;
                }
                let s = CStr::from_ptr(Z3_get_numeral_string(self.c, r)).to_str().ok()?;
                out[v] = s.parse::<u128>().ok()?;
            }
        }
        Some(out)
    }

    /// Is the conjunction of `cons` satisfiable? `base` supplies values for variables not mentioned.
    pub fn check(&mut self, ar: &mut Arena, cons: &[Id], base: &[u128]) -> Res {
        self.stats.queries += 1;
        let mut key: Vec<Id> = cons.to_vec();
        key.sort_unstable();
        key.dedup();
        let mut vars = 0u128;
        let (mut fp, mut arith) = (false, false);
        for &x in &key { let i = ar.inf(x); vars |= i.vars; fp |= i.fp; arith |= i.arith; if ar.is_const(x) == Some(0) { return Res::Unsat; } }
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return match r { None => Res::Unsat, Some(m) => { let mut b = base.to_vec(); b.resize(ar.var_w.len(), 0); for &(v, x) in m { b[v as usize] = x; } Res::Sat(b) } };
        }
        // recently found models
        for k in (0..self.pool.len()).rev() {
            let m = std::mem::take(&mut self.pool[k]);
            ar.eval_begin();
            let ok = key.iter().rev().all(|&x| ar.eval(x, &m) == 1);
            self.pool[k] = m;
            if ok {
                self.stats.pool_hits += 1;
                let m = self.pool[k].clone();
                return self.remember(ar, key, vars, base, m);
            }
        }
        let t0 = Instant::now();
        let mut res = Res::Unknown;
        if arith && !fp {
            res = self.check_lia(ar, &key, vars, base, 400.min(self.hard_ms));
            if let Res::Unknown = res {
                self.rng = self.ranges(ar, &key);
                if self.rng.is_some() {
                    let a = std::mem::take(&mut self.li); let b = std::mem::take(&mut self.li_side); let c = std::mem::take(&mut self.li_div);
                    res = self.check_lia(ar, &key, vars, base, 20_000.min(self.hard_ms));
                    self.li = a; self.li_side = b; self.li_div = c;
                    self.rng = None;
                }
                if let Res::Unknown = res { res = self.check_lia(ar, &key, vars, base, 20_000.min(self.hard_ms)); }
            }
        }
        if let Res::Unknown = res { res = self.check_bv(ar, &key, vars, base, fp); }
        let dt = t0.elapsed().as_secs_f64();
        self.stats.secs += dt;
        if dt > self.stats.max_secs { self.stats.max_secs = dt; }
        if std::env::var("LLSYM_SLOW").map_or(false, |v| dt > v.parse().unwrap_or(0.5)) { eprintln!("slow query {:.1}s fp={} arith={} res={}", dt, fp, arith, match res { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" }); for x in &key { eprintln!("   {}", ar.show(*x, 8)); } }
        match res {
            Res::Unsat => { self.cache.insert(key, None); Res::Unsat }
            Res::Sat(m) => {
                ar.eval_begin();
                for &x in &key { if ar.eval(x, &m) != 1 { if fp || ar.inf(x).undef { continue; } eprintln!("model validation failed: {}", ar.show(x, 6)); self.stats.unknown += 1; return Res::Unknown; } }
                if fp { ar.eval_begin(); if !key.iter().all(|&x| ar.eval(x, &m) == 1) { eprintln!("fp model validation failed"); } }
                if self.pool.len() >= 24 { self.pool.remove(0); }
                self.pool.push(m.clone());
                self.remember(ar, key, vars, base, m)
            }
            Res::Unknown => { self.stats.unknown += 1; Res::Unknown }
        }
    }
    fn remember(&mut self, ar: &Arena, key: Vec<Id>, vars: u128, base: &[u128], m: Vec<u128>) -> Res {
        let mut b = base.to_vec();
        b.resize(ar.var_w.len(), 0);
        let mut part = vec![];
        for v in 0..ar.var_w.len() { if vars >> v & 1 == 1 { let x = m.get(v).copied().unwrap_or(0); b[v] = x; part.push((v as u32, x)); } }
        self.cache.insert(key, Some(part));
        Res::Sat(b)
    }
    fn check_lia(&mut self, ar: &mut Arena, key: &[Id], vars: u128, base: &[u128], ms: u32) -> Res {
        let mut asts = vec![];
        for &x in key { match self.li(ar, x) { Some(p) => asts.push(p), None => return Res::Unknown } }
        let mut seen = Default::default();
        for &x in key { self.li_collect(ar, x, &mut seen, &mut asts); }
        { let mut have = std::collections::HashSet::new(); asts.retain(|x| have.insert(*x)); }
        self.stats.lia += 1;
        self.stats.z3_calls += 1;
        unsafe {
            let s = self.lia_s;
            self.params(s, ms);
            Z3_solver_push(self.c, s);
            for a in asts { Z3_solver_assert(self.c, s, a); }
            let t0 = Instant::now();
            let dump = if std::env::var("LLSYM_DUMP").is_ok() { Some(CStr::from_ptr(Z3_solver_to_string(self.c, s)).to_string_lossy().into_owned()) } else { None };
            let r = match Z3_solver_check(self.c, s) {
                1 => { let m = Z3_solver_get_model(self.c, s); Z3_model_inc_ref(self.c, m); let r = self.model_vals(ar, m, vars, base, true); Z3_model_dec_ref(self.c, m); r.map_or(Res::Unknown, Res::Sat) }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.c, s, 1);
            if let Some(d) = dump { if t0.elapsed().as_secs_f64() > 0.4 { eprintln!("LIA {:.1}s {}\n{}", t0.elapsed().as_secs_f64(), match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" }, d); } }
            if let Res::Sat(m) = &r {
                ar.eval_begin();
                for &x in key { if ar.eval(x, m) != 1 { eprintln!("LIA model mismatch: {}", ar.show(x, 6)); return Res::Unknown; } }
            }
            r
        }
    }
    fn check_bv(&mut self, ar: &mut Arena, key: &[Id], vars: u128, base: &[u128], fp: bool) -> Res {
        let asts: Vec<P> = key.iter().map(|&x| self.bv(ar, x)).collect();
        self.stats.z3_calls += 1;
        if fp { self.stats.fp += 1; }
        unsafe {
            if !fp {
                let s = self.inc;
                if self.inc_cnt == 0 { self.params(s, 1500.min(self.hard_ms)); }
                self.inc_cnt += 1;
                Z3_solver_push(self.c, s);
                for &a in &asts { Z3_solver_assert(self.c, s, a); }
                let r = match Z3_solver_check(self.c, s) {
                    1 => { let m = Z3_solver_get_model(self.c, s); Z3_model_inc_ref(self.c, m); let r = self.model_vals(ar, m, vars, base, false); Z3_model_dec_ref(self.c, m); r.map_or(Res::Unknown, Res::Sat) }
                    -1 => Res::Unsat,
                    _ => Res::Unknown,
                };
                Z3_solver_pop(self.c, s, 1);
                if !matches!(r, Res::Unknown) { return r; }
            }
            // one-shot tactic solver
            let logic = if fp { "QF_FPBV" } else { "QF_BV" };
            let s = Z3_mk_solver_for_logic(self.c, Z3_mk_string_symbol(self.c, cs(logic).as_ptr()));
            Z3_solver_inc_ref(self.c, s);
            self.params(s, self.hard_ms);
            for &a in &asts { Z3_solver_assert(self.c, s, a); }
            let r = match Z3_solver_check(self.c, s) {
                1 => { let m = Z3_solver_get_model(self.c, s); Z3_model_inc_ref(self.c, m); let r = self.model_vals(ar, m, vars, base, false); Z3_model_dec_ref(self.c, m); r.map_or(Res::Unknown, Res::Sat) }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_dec_ref(self.c, s);
            r
        }
    }
}
impl Solver {
    /// self-test hook: one encoding, no caching
    pub fn test_sat(&mut self, ar: &mut Arena, key: &[Id], li: bool) -> Option<Res> {
        let mut vars = 0; for &x in key { vars |= ar.inf(x).vars; }
        let base = vec![0u128; ar.var_w.len()];
        let r = if li { self.check_lia(ar, key, vars, &base, 5000) } else { self.check_bv(ar, key, vars, &base, false) };
        match r { Res::Unknown => None, r => Some(r) }
    }
}
