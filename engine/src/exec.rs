//! Path-forking symbolic interpreter over decoded LLVM IR.
use crate::expr::{mask, sx, Arena, Id, Op};
use crate::ll::*;
use crate::solver::{Res, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum V { C(u64), S(Id), A(Rc<Vec<V>>) }

pub const UND: u32 = u32::MAX;
const HEAP: u64 = 1 << 60;
const STACK: u64 = 2 << 60;
const GLOB: u64 = 3 << 60;
const FUNC: u64 = 4 << 60;
const BASE: u64 = 0x10_0000;

#[derive(Clone)]
pub struct Obj { pub size: u64, pub align: u64, pub data: Vec<u8>, pub sym: Vec<u32> }
impl Obj {
    fn new(size: u64, align: u64, undef: bool) -> Obj { Obj { size, align, data: vec![0; size as usize], sym: if undef { vec![UND; size as usize] } else { vec![] } } }
}

#[derive(Clone)]
pub struct Frame { f: &'static Func, block: u32, ip: u32, regs: Vec<V>, stack_base: u32, dst: u32, edge: Option<u32> }

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    heap: Vec<Option<Rc<Obj>>>,
    stack: Vec<(u16, Rc<Obj>)>,
    gen: u16,
    globs: BTreeMap<u32, Rc<Obj>>,
    pc: Vec<Id>,
    model: Rc<Vec<u128>>,
    log: Vec<V>,
    steps: u64,
    steps_here: u64,
    live: u64,
    subst: Rc<HashMap<Id, u64>>,
    tape: Rc<Vec<(u32, u16)>>, // (variable, width) of the inputs drawn so far
    lin: bool,   // branches are decided over the relaxed (real) arithmetic
    frozen: usize, // heap objects up to this one, and globals, may only be read
    held: Vec<u64>, // addresses of locks acquired while frozen: writes are synchronised until they are released
    ghost: bool, // the model may not satisfy the path condition
}

#[derive(Debug, Clone)]
pub enum End { Given, Done, Infeasible, Viol(Viol), Unsup(String), Incon(String) }
#[derive(Debug, Clone)]
pub struct Viol { pub kind: String, pub msg: String, pub id: u64, pub tape: Vec<(u16, u64)>, pub trace: Vec<String>, pub log: Vec<u64> }

#[derive(Default)]
pub struct Report {
    pub paths: u64, pub infeasible: u64, pub steps: u64, pub forks: u64, pub max_depth: usize,
    pub viols: Vec<(Viol, u64)>,
    pub errors: Vec<String>,
    pub covers: BTreeSet<u64>,
    pub checked: BTreeSet<u64>,
    pub samples: Vec<(Vec<(u16, u64)>, Vec<u64>)>,
    pub fns: BTreeSet<String>,
    pub obligations: u64,
    pub secs: f64,
}

pub struct Cfg { pub max_steps: u64, pub time: f64, pub samples: usize, pub stop_first: bool, pub leak: bool, pub max_viols: usize }

pub struct Exec {
    pub m: &'static Module,
    pub ar: Arena,
    pub so: Solver,
    pub so_r: Solver,
    tries: f64, // time spent looking for inputs of relaxed counterexamples
    pub cfg: Cfg,
    pub rep: Report,
    work: Vec<State>,
    ginit: HashMap<u32, Rc<Obj>>,
    touched: HashMap<*const Func, ()>,
    atomic: bool, // the store being executed is synchronised
    und_vars: HashMap<u16, (Id, Id)>, // two arbitrary values per width, for uninitialised bytes
    vars: HashMap<(usize, u16), Id>, // k-th input of width w -> variable
    deadline: Instant,
    z3_seen: u64,
    rng: u64,
    pub share: Option<(&'static crate::par::Shared, usize)>,
    pub hit_limit: bool,
    t0: Instant,
}

type E<T> = Result<T, End>;
fn unsup<T>(s: impl Into<String>) -> E<T> { Err(End::Unsup(s.into())) }

impl Exec {
    pub fn new(m: &'static Module, cfg: Cfg) -> Exec {
        let deadline = Instant::now() + Duration::from_secs_f64(cfg.time);
        Exec { m, ar: Arena::new(), so: Solver::new(), so_r: Solver::with(true), tries: 0.0, cfg, rep: Report::default(), work: vec![], ginit: HashMap::new(), touched: HashMap::new(), atomic: false, vars: HashMap::new(), und_vars: HashMap::new(), deadline, z3_seen: 0, rng: 0x9E3779B97F4A7C15, share: None, hit_limit: false, t0: Instant::now() }
    }

    // ---------- value helpers ----------
    fn id(&mut self, v: &V, w: u16) -> Id { match v { V::C(k) => self.ar.c(w, *k as u128), V::S(i) => *i, V::A(_) => panic!("aggregate as scalar") } }
    fn v(&self, i: Id) -> V { match self.ar.is_const(i) { Some(k) if self.ar.w(i) <= 64 => V::C(k as u64), _ => V::S(i) } }

    fn konst(&mut self, ty: &Ty, k: &Konst) -> E<V> {
        Ok(match (ty, k) {
            (_, Konst::Int(w, v)) => if *w <= 64 { V::C(*v as u64) } else { V::S(self.ar.c(*w, *v)) },
            (_, Konst::F(_, b)) => V::C(*b),
            (_, Konst::Null) => V::C(0),
            (_, Konst::Global(g, off)) => V::C(self.sym_addr(g)?.wrapping_add(*off as u64)),
            (t, Konst::BinE(op, w, a, b)) => { let (a, b) = (self.konst(t, a)?, self.konst(t, b)?); let (a, b) = (self.id(&a, *w), self.id(&b, *w)); let r = self.ar.bin(*op, a, b); self.v(r) }
            (t, Konst::Undef(_)) => self.undef_of(t),
            (t, Konst::Zero(_)) => self.zero_of(t),
            (Ty::Struct(_, f), Konst::Agg(_, v)) => { let mut o = vec![]; for (t, k) in f.iter().zip(v) { o.push(self.konst(t, k)?); } V::A(Rc::new(o)) }
            (Ty::Array(_, t), Konst::Agg(_, v)) | (Ty::Vector(_, t), Konst::Agg(_, v)) => { let mut o = vec![]; for k in v { o.push(self.konst(t, k)?); } V::A(Rc::new(o)) }
            (Ty::Vector(n, t), Konst::Splat(_, k)) => { let x = self.konst(t, k)?; V::A(Rc::new(vec![x; *n as usize])) }
            (Ty::Array(_, _), Konst::Bytes(b)) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
            (t, k) => return unsup(format!("constant {:?} {:?}", t, k)),
        })
    }
    fn undef_of(&mut self, t: &Ty) -> V {
        match t {
            Ty::Struct(_, f) => V::A(Rc::new(f.iter().map(|x| self.undef_of(x)).collect())),
            Ty::Array(n, e) | Ty::Vector(n, e) => { let x = self.undef_of(e); V::A(Rc::new(vec![x; *n as usize])) }
            t => { let w = t.bits(); V::S(self.ar.undef(w)) }
        }
    }
    fn zero_of(&mut self, t: &Ty) -> V {
        match t {
            Ty::Struct(_, f) => V::A(Rc::new(f.iter().map(|x| self.zero_of(x)).collect())),
            Ty::Array(n, e) | Ty::Vector(n, e) => { let x = self.zero_of(e); V::A(Rc::new(vec![x; *n as usize])) }
            t => { let w = t.bits(); if w <= 64 { V::C(0) } else { V::S(self.ar.c(w, 0)) } }
        }
    }
    fn sym_addr(&self, g: &str) -> E<u64> {
        let g = self.m.aliases.get(g).map(|s| s.as_str()).unwrap_or(g);
        if let Some(&i) = self.m.glob_by_name.get(g) { return Ok(GLOB | (i as u64 + 1) << 24 | BASE); }
        if let Some(&i) = self.m.fn_by_name.get(g) { return Ok(FUNC | (i as u64 + 1) << 4); }
        unsup(format!("symbol {}", g))
    }
    fn opnd(&mut self, fr: &Frame, o: &Opnd) -> E<V> {
        Ok(match o {
            Opnd::Reg(r) => fr.regs[*r as usize].clone(),
            Opnd::C(k) => V::C(*k),
            Opnd::K(k) => { let (t, k) = &fr.f.konsts[*k as usize]; self.konst(t, k)? }
        })
    }

    // ---------- violations ----------
    fn tape_of(&self, st: &State) -> Vec<(u16, u64)> { st.tape.iter().map(|(v, w)| (*w, st.model.get(*v as usize).copied().unwrap_or(0) as u64)).collect() }
    fn log_of(&mut self, st: &State) -> Vec<u64> {
        self.ar.eval_begin();
        let model = st.model.clone();
        st.log.iter().map(|v| match v { V::C(k) => *k, V::S(i) => self.ar.eval(*i, &model) as u64, _ => 0 }).collect()
    }
    fn viol(&mut self, st: &State, kind: &str, msg: String, id: u64) -> End {
        let trace = st.frames.iter().rev().take(24).map(|f| f.f.name.clone()).collect();
        let log = self.log_of(st);
        End::Viol(Viol { kind: kind.into(), msg, id, tape: self.tape_of(st), trace, log })
    }
    fn mem_err<T>(&mut self, st: &State, msg: String) -> E<T> { Err(self.viol(st, "memory", msg, 0)) }

    // ---------- path conditions ----------
    fn slice(&self, st: &State, cond: Id) -> Vec<Id> {
        let mut mv = self.ar.inf(cond).vars;
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &p) in st.pc.iter().enumerate() {
                if !used[i] { let v = self.ar.inf(p).vars; if v & mv != 0 { used[i] = true; mv |= v; out.push(p); ch = true; } }
            }
            if !ch { break; }
        }
        out
    }
    /// disjuncts of a 1-bit term
    fn disjuncts(&mut self, cond: Id, neg: bool, out: &mut Vec<Id>) {
        let n = *self.ar.n(cond);
        if n.w == 1 && out.len() < 256 {
            if n.op == Op::Xor && self.ar.is_const(n.b) == Some(1) { return self.disjuncts(n.a, !neg, out); }
            if n.op == (if neg { Op::And } else { Op::Or }) { self.disjuncts(n.a, neg, out); return self.disjuncts(n.b, neg, out); }
        }
        let x = if neg { self.ar.not(cond) } else { cond };
        out.push(x);
    }
    fn sat(&mut self, st: &State, cond: Id) -> E<Option<Vec<u128>>> {
        if st.lin {
            if let Some(k) = self.ar.is_const(cond) { if k == 0 { return Ok(None); } }
            let cs = self.slice(st, cond);
            let mut q = cs.clone(); q.push(cond);
            return match self.so_r.check_relaxed(&mut self.ar, &q) {
                Res::Unsat => Ok(None),
                r => self.witness(st, cond, if let Res::Sat(m) = r { Some(m) } else { None }),
            };
        }
        if let Some(k) = self.ar.is_const(cond) { return Ok(if k == 1 { Some(st.model.to_vec()) } else { None }); }
        // a disjunction over unrelated inputs holds somewhere when one of its parts does
        let mut ds = vec![];
        self.disjuncts(cond, false, &mut ds);
        if ds.len() > 1 {
            let mut groups: Vec<(u128, Id)> = vec![];
            for d in ds {
                let (mut v, mut g) = (self.ar.inf(d).vars, d);
                let mut i = 0;
                while i < groups.len() { if groups[i].0 & v != 0 { let (w, h) = groups.remove(i); v |= w; g = self.ar.bin(Op::Or, g, h); } else { i += 1; } }
                groups.push((v, g));
            }
            if groups.len() > 1 {
                for (_, g) in groups { if let Some(m) = self.sat1(st, g)? { return Ok(Some(m)); } }
                return Ok(None);
            }
        }
        self.sat1(st, cond)
    }
    fn sat1(&mut self, st: &State, cond: Id) -> E<Option<Vec<u128>>> {
        if let Some(k) = self.ar.is_const(cond) { return Ok(if k == 1 { Some(st.model.to_vec()) } else { None }); }
        let mut cs = self.slice(st, cond);
        let neg = self.ar.not(cond);
        if cs.contains(&neg) { return Ok(None); }
        // conjuncts, then groups of conjuncts over unrelated inputs
        let mut todo = vec![cond];
        let mut seen = std::collections::HashSet::new();
        while let Some(x) = todo.pop() { if !seen.insert(x) { continue; } let n = *self.ar.n(x); if n.op == Op::And && n.w == 1 { todo.push(n.a); todo.push(n.b); } else { cs.push(x); } }
        let mut groups: Vec<(u128, Vec<Id>)> = vec![];
        for x in cs {
            let (mut v, mut g) = (self.ar.inf(x).vars, vec![x]);
            let mut i = 0;
            while i < groups.len() { if groups[i].0 & v != 0 { let (w, h) = groups.remove(i); v |= w; g.extend(h); } else { i += 1; } }
            groups.push((v, g));
        }
        let mut base: Vec<u128> = st.model.to_vec();
        for (_, g) in groups {
            match self.so.check(&mut self.ar, &g, &base) {
                Res::Sat(m) => base = m,
                Res::Unsat => return Ok(None),
                Res::Unknown => return Err(End::Incon(format!("solver gave no answer for {}", self.ar.show(cond, 5)))),
            }
        }
        Ok(Some(base))
    }
    fn rand(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }
    /// Inputs that satisfy the path condition and `cond`, which a relaxation could not refute.
    fn witness(&mut self, st: &State, cond: Id, guess: Option<Vec<u128>>) -> E<Option<Vec<u128>>> {
        let mut all = st.pc.clone();
        all.push(cond);
        all.reverse(); // most specific first
        let ok = |s: &mut Exec, m: &[u128]| { s.ar.eval_begin(); all.iter().all(|&x| s.ar.eval(x, m) == 1) };
        let mut base = st.model.to_vec();
        base.resize(self.ar.var_w.len(), 0);
        if ok(self, &base) { return Ok(Some(base)); }
        let vars = all.iter().fold(0u128, |a, &x| a | self.ar.inf(x).vars);
        let seed = guess.unwrap_or_else(|| base.clone());
        let t0 = Instant::now();
        for k in 0..4000u64 {
            if t0.elapsed().as_secs_f64() > 1.5 { break; }
            let mut m = base.clone();
            for v in 0..m.len() {
                if vars >> v & 1 == 0 { continue; }
                let w = self.ar.var_w[v];
                let (r, x) = (self.rand(), self.rand());
                let g = seed.get(v).copied().unwrap_or(0);
                m[v] = match if k < 8 { 0 } else { r % 8 } {
                    0 => g.wrapping_add(if k < 8 { k as u128 } else { (x % 64) as u128 }).wrapping_sub(if k < 8 { 3 } else { 32 }),
                    1 | 2 => x as u128,
                    3 | 4 => (x as u128) >> (r >> 8 & 63),
                    5 => (1u128 << ((r >> 8) % 65)).wrapping_add((x % 5) as u128).wrapping_sub(2),
                    6 => 10u128.pow(((r >> 8) % 20) as u32).wrapping_add((x % 5) as u128).wrapping_sub(2),
                    _ => m[v],
                } & mask(w);
            }
            if ok(self, &m) { return Ok(Some(m)); }
        }
        // exactly, for a while
        if self.tries < 60.0 && !all.iter().any(|&x| self.ar.inf(x).fp) {
            let ms = std::mem::replace(&mut self.so.hard_ms, 6000);
            let r = self.so.check(&mut self.ar, &all, &base);
            self.so.hard_ms = ms;
            self.tries += t0.elapsed().as_secs_f64();
            match r { Res::Sat(m) => return Ok(Some(m)), Res::Unsat => return Ok(None), _ => {} }
        }
        self.tries += t0.elapsed().as_secs_f64();
        Err(End::Incon(format!("not decided by linear arithmetic: {}", self.ar.show(cond, 4))))
    }
    /// branch() over the relaxed arithmetic: a side is dropped only when the relaxation refutes it
    fn branch_lin(&mut self, st: &mut State, cond: Id) -> E<bool> {
        let neg = self.ar.not(cond);
        let model = st.model.clone();
        self.ar.eval_begin();
        let cur = self.ar.eval(cond, &model) == 1;
        let (here, other) = if cur { (cond, neg) } else { (neg, cond) };
        let q = |s: &mut Exec, st: &State, x: Id| { let mut cs = s.slice(st, x); cs.push(x); s.so_r.check_relaxed(&mut s.ar, &cs) };
        let r = q(self, st, other);
        if let Res::Unsat = r { return Ok(cur); }
        let mut o = st.clone();
        self.assume(&mut o, other);
        self.settle(&mut o, r);
        if st.ghost {
            let r = q(self, st, here);
            if let Res::Unsat = r { *st = o; return Ok(!cur); }
            self.assume(st, here);
            self.settle(st, r);
        } else { self.assume(st, here); }
        self.rep.forks += 1;
        self.work.push(o);
        Ok(cur)
    }
    /// a model for the path condition, when rounding the relaxed one gives one
    fn settle(&mut self, st: &mut State, r: Res) {
        let mut cands = vec![st.model.to_vec()];
        if let Res::Sat(m) = r { for d in 0..3u128 { cands.push(m.iter().map(|x| x.wrapping_add(d)).collect()); } }
        for mut m in cands {
            for (v, x) in m.iter_mut().enumerate() { *x &= mask(self.ar.var_w.get(v).copied().unwrap_or(0)); }
            self.ar.eval_begin();
            let pc = st.pc.clone();
            if pc.iter().rev().all(|&x| self.ar.eval(x, &m) == 1) { st.model = Rc::new(m); st.ghost = false; return; }
        }
        st.ghost = true;
    }
    fn assume(&mut self, st: &mut State, cond: Id) {
        let n = *self.ar.n(cond);
        if n.op == Op::And && n.w == 1 { self.assume(st, n.a); self.assume(st, n.b); return; }
        if self.ar.is_const(cond).is_some() { return; }
        if !st.pc.contains(&cond) { st.pc.push(cond); }
    }
    /// Take one side of `cond` in `st` (returned); the other, when feasible, is queued to re-execute this instruction.
    fn branch(&mut self, st: &mut State, cond: Id) -> E<bool> {
        let cond = if self.ar.inf(cond).undef { self.defined(st, cond, "control flow depends on uninitialised memory", 0)? } else { cond };
        if let Some(k) = self.ar.is_const(cond) { return Ok(k == 1); }
        let neg = self.ar.not(cond);
        if st.pc.contains(&cond) { return Ok(true); }
        if st.pc.contains(&neg) { return Ok(false); }
        if st.lin { return self.branch_lin(st, cond); }
        self.ar.eval_begin();
        let model = st.model.clone();
        let cur = self.ar.eval(cond, &model) == 1;
        let (here, other) = if cur { (cond, neg) } else { (neg, cond) };
        if let Some(m) = self.sat(st, other)? {
            let mut o = st.clone();
            o.model = Rc::new(m);
            self.assume(&mut o, other);
            self.rep.forks += 1;
            self.work.push(o);
            self.assume(st, here);
        }
        Ok(cur)
    }
    fn branch_v(&mut self, st: &mut State, v: &V) -> E<bool> { match v { V::C(k) => Ok(*k & 1 == 1), V::S(i) => self.branch(st, *i), _ => unsup("branch on aggregate") } }
    /// A term that mentions uninitialised bytes, without them, when no input of this path lets them
    /// influence its value; a violation otherwise.
    fn defined(&mut self, st: &State, x: Id, msg: &str, id: u64) -> E<Id> {
        if !self.ar.inf(x).undef { return Ok(x); }
        let ws = self.ar.undef_widths(x);
        let (mut zero, mut p, mut q) = (HashMap::new(), HashMap::new(), HashMap::new());
        for w in ws {
            zero.insert(w, self.ar.c(w, 0));
            if !self.und_vars.contains_key(&w) { let v = (self.ar.var(w), self.ar.var(w)); self.und_vars.insert(w, v); }
            p.insert(w, self.und_vars[&w].0); q.insert(w, self.und_vars[&w].1);
        }
        let (a, b) = (self.ar.without_undef(x, &p), self.ar.without_undef(x, &q));
        if a == b { return Ok(a); }
        let e = self.ar.bin(Op::Eq, a, b);
        let ne = self.ar.not(e);
        if let Some(m) = self.sat(st, ne)? {
            let mut bad = st.clone();
            bad.model = Rc::new(m);
            let s = self.ar.show(x, 4);
            return Err(self.viol(&bad, "uninit", format!("{} ({})", msg, s), id));
        }
        Ok(self.ar.without_undef(x, &zero))
    }
    /// Is `cond` true on every input of this path? Otherwise returns a state violating it.
    fn must(&mut self, st: &State, cond: Id) -> E<Option<Vec<u128>>> {
        self.rep.obligations += 1;
        let n = self.ar.not(cond);
        self.sat(st, n)
    }
    fn conc(&mut self, st: &mut State, v: &V, _w: u16) -> E<u64> {
        match v {
            V::C(k) => Ok(*k),
            V::S(i) => {
                if let Some(k) = st.subst.get(i) { return Ok(*k); }
                // the part that decides the value
                let (mut t, mut chain) = (*i, vec![]);
                loop {
                    let n = *self.ar.n(t);
                    t = match n.op {
                        Op::Zext | Op::Sext if n.w <= 64 => n.a,
                        Op::Add | Op::Xor if n.w <= 64 && self.ar.is_const(n.b).is_some() => n.a,
                        Op::Sub if n.w <= 64 && self.ar.is_const(n.a).is_some() => n.b,
                        _ => break,
                    };
                    chain.push(n);
                }
                if !chain.is_empty() {
                    let w = self.ar.w(t);
                    let mut k = self.conc(st, &V::S(t), w)? as u128;
                    let mut iw = w;
                    for n in chain.iter().rev() {
                        k = match n.op {
                            Op::Zext => k,
                            Op::Sext => crate::expr::sx(k, iw) as u128,
                            Op::Add => k.wrapping_add(self.ar.is_const(n.b).unwrap()),
                            Op::Xor => k ^ self.ar.is_const(n.b).unwrap(),
                            _ => self.ar.is_const(n.a).unwrap().wrapping_sub(k),
                        } & crate::expr::mask(n.w);
                        iw = n.w;
                    }
                    Rc::make_mut(&mut st.subst).insert(*i, k as u64);
                    return Ok(k as u64);
                }
                let d = self.defined(st, *i, "uninitialised value used as address, size or divisor", 0)?;
                self.ar.eval_begin();
                let model = st.model.clone();
                let mut k = self.ar.eval(d, &model);
                let w = self.ar.w(d);
                for attempt in 0.. {
                    let kc = self.ar.c(w, k);
                    let eq = self.ar.bin(Op::Eq, d, kc);
                    if self.branch(st, eq)? { break; }
                    // the model was no model of this path: take the value from a relaxed one
                    if attempt == 12 { return unsup("value of an address, size or divisor over the relaxed arithmetic"); }
                    let cs = self.slice(st, d);
                    let m = if st.ghost { match self.so_r.check_relaxed(&mut self.ar, &cs) { Res::Sat(m) => m, Res::Unsat => return Err(End::Infeasible), _ => st.model.to_vec() } } else { st.model.to_vec() };
                    let m: Vec<u128> = m.iter().enumerate().map(|(v, x)| x & mask(self.ar.var_w.get(v).copied().unwrap_or(0))).collect();
                    self.ar.eval_begin();
                    k = self.ar.eval(d, &m);
                }
                Rc::make_mut(&mut st.subst).insert(*i, k as u64);
                Ok(k as u64)
            }
            _ => unsup("concretise aggregate"),
        }
    }

    /// Products and quotients of two symbolic terms are out of the solver's reach: where one operand
    /// comes from a constant table (a power of ten), or is known on this path, split on its value.
    fn pin(&mut self, st: &mut State, x: &mut V, y: &mut V, w: u16, either: bool) -> E<()> {
        for k in 0..if either { 2 } else { 1 } {
            if matches!(x, V::C(_)) && either { return Ok(()); }
            let v = if k == 0 { &mut *y } else { &mut *x };
            let V::S(i) = *v else { return Ok(()) };
            if self.ar.is_const(i).is_some() { return Ok(()); }
            if let Some(c) = st.subst.get(&i) { *v = V::C(*c); return Ok(()); }
            let n = *self.ar.n(i);
            let t = if n.op == Op::Zext { n.a } else { i };
            if self.ar.n(t).op == Op::Table && self.ar.w(t) > 8 && w <= 128 { let c = self.conc(st, &V::S(t), w)?; *v = V::C(c); return Ok(()); }
        }
        Ok(())
    }

    // ---------- memory ----------
    fn global_obj(&mut self, g: u32) -> E<Rc<Obj>> {
        if let Some(o) = self.ginit.get(&g) { return Ok(o.clone()); }
        let gl = &self.m.globals[g as usize];
        let mut o = Obj::new(gl.size, 16, false);
        if let Some(k) = &gl.init { self.fill(&mut o, 0, &gl.ty, k)?; } else { o.size = 0; o.data.clear(); }
        let o = Rc::new(o);
        self.ginit.insert(g, o.clone());
        Ok(o)
    }
    fn fill(&mut self, o: &mut Obj, off: u64, ty: &Ty, k: &Konst) -> E<()> {
        match (ty, k) {
            (_, Konst::Zero(_)) => {}
            (t, Konst::Undef(_)) => { if o.sym.is_empty() { o.sym = vec![0; o.size as usize]; } for i in 0..t.size() { o.sym[(off + i) as usize] = UND; } }
            (_, Konst::Bytes(b)) => o.data[off as usize..off as usize + b.len()].copy_from_slice(b),
            (Ty::Struct(_, f), Konst::Agg(_, v)) => { for (i, (t, k)) in f.iter().zip(v).enumerate() { self.fill(o, off + ty.field_off(i), t, k)?; } }
            (Ty::Array(_, t), Konst::Agg(_, v)) | (Ty::Vector(_, t), Konst::Agg(_, v)) => { for (i, k) in v.iter().enumerate() { self.fill(o, off + i as u64 * t.size(), t, k)?; } }
            (t, k) => {
                match self.konst(t, k)? {
                    V::C(x) => { let n = t.store_size() as usize; o.data[off as usize..off as usize + n].copy_from_slice(&x.to_le_bytes()[..n]); }
                    V::S(i) => { let x = self.ar.is_const(i).unwrap_or(0); let n = t.store_size() as usize; o.data[off as usize..off as usize + n].copy_from_slice(&x.to_le_bytes()[..n]); }
                    _ => return unsup("global initialiser"),
                }
            }
        }
        Ok(())
    }
    /// object containing address `a`, its kind tag and the offset
    fn find(&mut self, st: &State, a: u64, n: u64, what: &str) -> E<(Rc<Obj>, u64)> {
        let (o, off) = self.locate(st, a, n, what)?;
        if off > o.size || off + n > o.size { return self.mem_err(st, format!("{} of {} bytes at offset {} of a {}-byte object", what, n, off as i64, o.size)); }
        Ok((o, off))
    }
    /// the object an address belongs to, wherever in or beyond it
    fn locate(&mut self, st: &State, a: u64, n: u64, what: &str) -> E<(Rc<Obj>, u64)> {
        let tag = a >> 60;
        let (o, off) = match tag {
            1 => {
                let idx = ((a & (HEAP - 1)) >> 24) as usize;
                let off = (a & 0xff_ffff).wrapping_sub(BASE);
                match st.heap.get(idx.wrapping_sub(1)) {
                    Some(Some(o)) => (o.clone(), off),
                    Some(None) => return self.mem_err(st, format!("{} of {} bytes in freed heap object #{}", what, n, idx)),
                    None => return self.mem_err(st, format!("{} at wild address {:#x}", what, a)),
                }
            }
            2 => {
                let slot = ((a >> 24) & 0xf_ffff) as usize;
                let gen = ((a >> 44) & 0xffff) as u16;
                match st.stack.get(slot) {
                    Some((g, o)) if *g == gen => (o.clone(), (a & 0xff_ffff).wrapping_sub(BASE)),
                    _ => return self.mem_err(st, format!("{} of dead stack object", what)),
                }
            }
            3 => {
                let g = (((a & (HEAP - 1)) >> 24) as u32).wrapping_sub(1);
                if g as usize >= self.m.globals.len() { return self.mem_err(st, format!("{} at wild address {:#x}", what, a)); }
                let o = match st.globs.get(&g) { Some(o) => o.clone(), None => self.global_obj(g)? };
                (o, (a & 0xff_ffff).wrapping_sub(BASE))
            }
            _ => return self.mem_err(st, format!("{} at invalid address {:#x}", what, a)),
        };
        Ok((o, off))
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, a: u64) -> E<&'a mut Obj> {
        match a >> 60 {
            1 => {
                let idx = ((a & (HEAP - 1)) >> 24) as usize - 1;
                if idx < st.frozen && !self.atomic && st.held.is_empty() { return Err(self.viol(st, "shared", "write to memory of a shared value".into(), 0)); }
                Ok(Rc::make_mut(st.heap[idx].as_mut().unwrap()))
            }
            2 => { let slot = ((a >> 24) & 0xf_ffff) as usize; Ok(Rc::make_mut(&mut st.stack[slot].1)) }
            3 => {
                let g = ((a & (HEAP - 1)) >> 24) as u32 - 1;
                if self.m.globals[g as usize].constant { return Err(self.viol(st, "memory", format!("write to constant {}", self.m.globals[g as usize].name), 0)); }
                if st.frozen > 0 && !self.atomic && st.held.is_empty() && !self.m.globals[g as usize].tls { return Err(self.viol(st, "shared", format!("unsynchronised write to {}", self.m.globals[g as usize].name), 0)); }
                if !st.globs.contains_key(&g) { let o = self.global_obj(g)?; st.globs.insert(g, o); }
                Ok(Rc::make_mut(st.globs.get_mut(&g).unwrap()))
            }
            _ => unreachable!(),
        }
    }
    fn check_range(&mut self, st: &State, a: u64, n: u64, what: &str) -> E<(Rc<Obj>, u64)> { self.find(st, a, n, what) }

    fn byte_at(&mut self, o: &Obj, i: usize) -> Id {
        let s = if o.sym.is_empty() { 0 } else { o.sym[i] };
        if s == 0 { self.ar.c(8, o.data[i] as u128) } else if s == UND { self.ar.undef(8) } else { s }
    }
    fn read_int(&mut self, o: &Obj, off: u64, w: u16) -> V {
        let n = (w as usize + 7) / 8;
        let off = off as usize;
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|x| *x == 0) {
            if n <= 8 { let mut b = [0u8; 8]; b[..n].copy_from_slice(&o.data[off..off + n]); let k = u64::from_le_bytes(b); return V::C(k & mask(w.min(64)) as u64); }
            let mut b = [0u8; 16]; b[..n].copy_from_slice(&o.data[off..off + n]);
            return V::S(self.ar.c(w, u128::from_le_bytes(b)));
        }
        if o.sym[off..off + n].iter().all(|x| *x == UND) { return V::S(self.ar.undef(w)); }
        let first = self.byte_at(o, off);
        if n > 1 && n <= 16 {
            let mut key = [0; 16];
            for i in 0..n { key[i] = self.byte_at(o, off + i) + 1; }
            if let Some(&v) = self.ar.prov.get(&key) { let v = if n * 8 > w as usize { self.ar.extract(v, w - 1, 0) } else { v }; return self.v(v); }
        }
        let mut acc = first;
        for i in 1..n { let b = self.byte_at(o, off + i); acc = self.ar.concat(b, acc); }
        if n * 8 > w as usize { acc = self.ar.extract(acc, w - 1, 0); }
        self.v(acc)
    }
    fn read_ty(&mut self, o: &Obj, off: u64, t: &Ty) -> E<V> {
        Ok(match t {
            Ty::Vector(n, e) if **e == Ty::Int(1) => {
                let v = self.read_int(o, off, *n as u16);
                let id = self.id(&v, *n as u16);
                let mut out = vec![];
                for i in 0..*n { let b = self.ar.extract(id, i as u16, i as u16); out.push(self.v(b)); }
                V::A(Rc::new(out))
            }
            Ty::Array(n, e) | Ty::Vector(n, e) => { let mut out = vec![]; for i in 0..*n { out.push(self.read_ty(o, off + i * e.size(), e)?); } V::A(Rc::new(out)) }
            Ty::Struct(_, f) => { let mut out = vec![]; for (i, x) in f.iter().enumerate() { out.push(self.read_ty(o, off + t.field_off(i), x)?); } V::A(Rc::new(out)) }
            t => self.read_int(o, off, t.bits()),
        })
    }
    fn write_int(ar: &mut Arena, o: &mut Obj, off: u64, w: u16, v: &V) {
        let n = (w as usize + 7) / 8;
        let off = off as usize;
        match v {
            V::C(k) => {
                o.data[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
                if !o.sym.is_empty() { for x in &mut o.sym[off..off + n] { *x = 0; } }
            }
            V::S(id) => {
                if o.sym.is_empty() { o.sym = vec![0; o.size as usize]; }
                let id = if n * 8 > w as usize { ar.zext(*id, n as u16 * 8) } else { *id };
                let und = ar.n(id).op == Op::Undef;
                let mut key = [0; 16];
                for i in 0..n {
                    if und { o.sym[off + i] = UND; continue; }
                    let b = ar.extract(id, i as u16 * 8 + 7, i as u16 * 8);
                    if i < 16 { key[i] = b + 1; }
                    match ar.n(b).op {
                        Op::Const => { o.sym[off + i] = 0; o.data[off + i] = ar.is_const(b).unwrap() as u8; }
                        Op::Undef => o.sym[off + i] = UND,
                        _ => o.sym[off + i] = b,
                    }
                }
                if n > 1 && n <= 16 && !und { ar.prov.insert(key, id); }
            }
            V::A(_) => panic!(),
        }
    }
    fn write_ty(ar: &mut Arena, o: &mut Obj, off: u64, t: &Ty, v: &V) -> E<()> {
        match (t, v) {
            (Ty::Vector(n, e), V::A(x)) if **e == Ty::Int(1) => {
                let mut acc = None;
                for b in x.iter() { let i = match b { V::C(k) => ar.c(1, *k as u128), V::S(i) => *i, _ => return unsup("vec") }; acc = Some(match acc { None => i, Some(a) => ar.concat(i, a) }); }
                Self::write_int(ar, o, off, *n as u16, &V::S(acc.unwrap()));
            }
            (Ty::Array(_, e), V::A(x)) | (Ty::Vector(_, e), V::A(x)) => { for (i, y) in x.iter().enumerate() { Self::write_ty(ar, o, off + i as u64 * e.size(), e, y)?; } }
            (Ty::Struct(_, f), V::A(x)) => { for (i, (tt, y)) in f.iter().zip(x.iter()).enumerate() { Self::write_ty(ar, o, off + t.field_off(i), tt, y)?; } }
            (t, v) if t.is_scalar() => Self::write_int(ar, o, off, t.bits(), v),
            _ => return unsup("store type"),
        }
        Ok(())
    }
    /// Resolve a possibly symbolic address for an access of n bytes: either a concrete address or
    /// (object start address, offset term known to be in bounds).
    fn resolve(&mut self, st: &mut State, a: &V, n: u64, what: &str) -> E<Result<u64, (u64, Id)>> {
        match a {
            V::C(k) => Ok(Ok(*k)),
            V::S(i) => {
                if let Some(k) = st.subst.get(i) { return Ok(Ok(*k)); }
                let i = &self.defined(st, *i, "access through an uninitialised pointer", 0)?;
                if let Some(k) = self.ar.is_const(*i) { return Ok(Ok(k as u64)); }
                // choose between pointers: split on the condition
                let nd = *self.ar.n(*i);
                if nd.op == Op::Ite && (self.ar.is_const(nd.b).is_some() || self.ar.is_const(nd.c).is_some()) {
                    let t = self.branch(st, nd.a)?;
                    let x = if t { nd.b } else { nd.c };
                    let x = self.v(x);
                    return self.resolve(st, &x, n, what);
                }
                self.ar.eval_begin();
                let model = st.model.clone();
                let addr = self.ar.eval(*i, &model) as u64;
                // the address under a model that need not satisfy the path condition says which object, not where in it
                let (o, off) = if st.ghost { self.locate(st, addr, n, what)? } else { self.check_range(st, addr, n, what)? };
                if st.ghost && o.size < n { return self.mem_err(st, format!("{} of {} bytes of a {}-byte object", what, n, o.size)); }
                let start = addr.wrapping_sub(off);
                let sc = self.ar.c(64, start as u128);
                let offx = self.ar.bin(Op::Sub, *i, sc);
                let lim = self.ar.c(64, (o.size - n) as u128);
                let inb = self.ar.bin(Op::Ule, offx, lim);
                self.rep.obligations += 1;
                // usually the current model is inside; an outside case is queued and will be judged when it re-executes
                if !self.branch(st, inb)? { return self.mem_err(st, format!("{} of {} bytes outside a {}-byte object", what, n, o.size)); }
                Ok(Err((start, offx)))
            }
            _ => unsup("address"),
        }
    }
    fn load(&mut self, st: &mut State, t: &Ty, a: &V) -> E<V> {
        let n = t.store_size();
        if n == 0 { return Ok(self.zero_of(t)); }
        match self.resolve(st, a, n, "read")? {
            Ok(k) => { let (o, off) = self.check_range(st, k, n, "read")?; self.read_ty(&o, off, t) }
            Err((start, off)) => {
                let (o, _) = self.check_range(st, start, 1, "read")?;
                if t.is_scalar() && t.bits() <= 64 && o.size <= 8192 {
                    let w = t.bits();
                    // split constant part
                    let nd = *self.ar.n(off);
                    let (c0, x) = match (nd.op, self.ar.is_const(nd.b)) { (Op::Add, Some(c)) => (c as u64, nd.a), _ => (0, off) };
                    let neg = c0 > 1 << 40;
                    if !neg && c0 <= o.size - n {
                        let kz = self.ar.inf(x).kz as u64;
                        let tz = (!kz).trailing_zeros().min(6) as u16;
                        let maxi = ((o.size - n - c0) >> tz).min(self.ar.inf(x).hi.min(u64::MAX as u128) as u64 >> tz);
                        let mut iw = 64 - maxi.leading_zeros() as u16;
                        if iw == 0 { iw = 1; }
                        let conc = (0..=maxi).all(|j| { let p = (c0 + (j << tz)) as usize; o.sym.is_empty() || o.sym[p..p + n as usize].iter().all(|s| *s == 0) });
                        let idx = if iw + tz >= 64 { self.ar.extract(x, 63, tz) } else { self.ar.extract(x, tz + iw - 1, tz) };
                        if conc {
                            let mut tab = Vec::with_capacity(maxi as usize + 1);
                            for j in 0..=maxi { match self.read_int(&o, c0 + (j << tz), w) { V::C(k) => tab.push(k), _ => unreachable!() } }
                            if w > 8 && w % 8 == 0 && n > 1 {
                                // assemble from byte tables so that parts simplify independently
                                let mut acc: Option<Id> = None;
                                for b in 0..n { let tb: Vec<u64> = tab.iter().map(|k| (k >> (8 * b)) & 0xff).collect(); let e = self.table(8, tb, idx); acc = Some(match acc { None => e, Some(a) => self.ar.concat(e, a) }); }
                                if n <= 2 { return Ok(self.v(acc.unwrap())); }
                            }
                            let e = self.table(w, tab, idx);
                            return Ok(self.v(e));
                        } else if maxi <= 40 && !(0..=maxi).any(|j| { let p = (c0 + (j << tz)) as usize; o.sym[p..p + n as usize].iter().any(|s| *s == UND) }) {
                            let last = self.read_int(&o, c0 + (maxi << tz), w);
                            let mut e = self.id(&last, w);
                            let wi = self.ar.w(idx);
                            for j in (0..maxi).rev() { let r = self.read_int(&o, c0 + (j << tz), w); let r = self.id(&r, w); let k = self.ar.c(wi, j as u128); let c = self.ar.bin(Op::Eq, idx, k); e = self.ar.ite(c, r, e); }
                            return Ok(self.v(e));
                        }
                    }
                }
                let k = self.conc(st, a, 64)?;
                let (o, off) = self.check_range(st, k, n, "read")?;
                self.read_ty(&o, off, t)
            }
        }
    }
    fn table(&mut self, w: u16, t: Vec<u64>, idx: Id) -> Id {
        if t.iter().all(|x| *x == t[0]) { return self.ar.c(w, t[0] as u128); }
        let wi = self.ar.w(idx);
        if w == wi && t.iter().enumerate().all(|(i, x)| *x == i as u64) { return idx; }
        self.ar.table(w, t, idx)
    }
    fn store(&mut self, st: &mut State, t: &Ty, v: &V, a: &V) -> E<()> {
        let n = t.store_size();
        if n == 0 { return Ok(()); }
        let k = match self.resolve(st, a, n, "write")? { Ok(k) => k, Err(_) => self.conc(st, a, 64)? };
        let (_, off) = self.check_range(st, k, n, "write")?;
        let o = self.obj_mut(st, k)? as *mut Obj;
        Self::write_ty(&mut self.ar, unsafe { &mut *o }, off, t, v)
    }
    fn memcopy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> E<()> {
        if n == 0 { return Ok(()); }
        let (so, soff) = self.check_range(st, s, n, "read")?;
        let (_, doff) = self.check_range(st, d, n, "write")?;
        let o = self.obj_mut(st, d)?;
        let (soff, doff, n) = (soff as usize, doff as usize, n as usize);
        o.data[doff..doff + n].copy_from_slice(&so.data[soff..soff + n]);
        if so.sym.is_empty() {
            if !o.sym.is_empty() { for x in &mut o.sym[doff..doff + n] { *x = 0; } }
        } else {
            if o.sym.is_empty() { o.sym = vec![0; o.size as usize]; }
            o.sym[doff..doff + n].copy_from_slice(&so.sym[soff..soff + n]);
        }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> u64 {
        if size > 16 << 20 { return 0; }
        let mut o = Obj::new(size, align, !zero);
        if size == 0 { o.sym.clear(); }
        st.heap.push(Some(Rc::new(o)));
        st.live += 1;
        HEAP | (st.heap.len() as u64) << 24 | BASE
    }
    fn free(&mut self, st: &mut State, p: u64, layout: Option<(u64, u64)>) -> E<Rc<Obj>> {
        if p >> 60 != 1 || p & 0xff_ffff != BASE { return self.mem_err(st, format!("free of a pointer that is not the start of a heap block ({:#x})", p)); }
        let idx = ((p & (HEAP - 1)) >> 24) as usize - 1;
        match st.heap.get(idx).cloned() {
            Some(Some(o)) => {
                if idx < st.frozen && st.held.is_empty() { return Err(self.viol(st, "shared", "memory of a shared value is freed".into(), 0)); }
                if let Some((s, a)) = layout { if s != o.size || a != o.align { return self.mem_err(st, format!("freed with size {} align {} but allocated with size {} align {}", s, a, o.size, o.align)); } }
                st.heap[idx] = None;
                st.live -= 1;
                Ok(o)
            }
            _ => self.mem_err(st, "double free".into()),
        }
    }

    /// an atomic write to `a`: releases the lock there, or acquires it
    fn lock(&mut self, st: &mut State, a: &V, acquire: bool) {
        if st.frozen == 0 { return; }
        if let V::C(a) = a {
            match st.held.iter().position(|x| x == a) { Some(i) => { st.held.remove(i); } None => if acquire && a >> 60 != 2 { st.held.push(*a); } }
        }
    }
    /// heap blocks that nothing refers to any more, neither static variables nor blocks they refer to
    fn leaked(&self, st: &State) -> Vec<usize> {
        let mut seen = vec![false; st.heap.len()];
        let mut todo: Vec<Rc<Obj>> = st.globs.values().cloned().collect();
        while let Some(o) = todo.pop() {
            let mut i = 0;
            while i + 8 <= o.data.len() {
                if o.sym.is_empty() || o.sym[i..i + 8].iter().all(|&x| x == 0) {
                    let a = u64::from_le_bytes(o.data[i..i + 8].try_into().unwrap());
                    if a >> 60 == 1 {
                        let k = (((a & (HEAP - 1)) >> 24) as usize).wrapping_sub(1);
                        if k < seen.len() && !seen[k] { if let Some(b) = &st.heap[k] { seen[k] = true; todo.push(b.clone()); } }
                    }
                }
                i += 8;
            }
        }
        (0..st.heap.len()).filter(|&k| st.heap[k].is_some() && !seen[k]).collect()
    }

    // ---------- running ----------
    pub fn run(&mut self, harness: &str, args: &[u64]) {
        self.t0 = Instant::now();
        let fid = match self.m.fn_by_name.get(harness) { Some(f) => *f, None => { self.rep.errors.push(format!("no harness {}", harness)); return; } };
        let f = match self.m.func(fid) { Ok(f) => f, Err(e) => { self.rep.errors.push(e); return; } };
        let mut st = State { frames: vec![], heap: vec![], stack: vec![], gen: 0, globs: BTreeMap::new(), pc: vec![], model: Rc::new(vec![]), log: vec![], steps: 0, steps_here: 0, live: 0, subst: Rc::new(HashMap::new()), tape: Rc::new(vec![]), lin: false, frozen: 0, held: vec![], ghost: false };
        let mut regs = vec![V::C(0); f.nregs as usize];
        for (i, p) in f.params.iter().enumerate() { regs[*p as usize] = V::C(args.get(i).copied().unwrap_or(0)); }
        st.frames.push(Rc::new(Frame { f, block: 0, ip: 0, regs, stack_base: 0, dst: u32::MAX, edge: None }));
        self.note(f);
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            st.steps_here = 0;
            let end = loop { match self.step(&mut st) { Ok(()) => {} Err(e) => break e } };
            self.rep.steps += st.steps_here;
            let end = match end {
                // reached on a path that may have no inputs
                End::Viol(v) if st.ghost => { let t = self.ar.tru(); match self.witness(&st, t, None) {
                    Ok(Some(m)) => { st.model = Rc::new(m); st.ghost = false; match self.viol(&st, &v.kind, v.msg.clone(), v.id) { End::Viol(mut n) => { n.trace = v.trace; End::Viol(n) } e => e } }
                    Ok(None) => End::Infeasible,
                    Err(_) => End::Incon(format!("not decided by linear arithmetic whether this can happen: {}", v.msg)),
                } }
                e => e,
            };
            match end {
                End::Done => {
                    self.rep.paths += 1;
                    if !st.ghost { self.sample(&st); }
                }
                End::Infeasible => self.rep.infeasible += 1,
                End::Viol(v) => {
                    self.rep.paths += 1;
                    if let Some(x) = self.rep.viols.iter_mut().find(|x| x.0.kind == v.kind && x.0.id == v.id && x.0.msg == v.msg) { x.1 += 1; }
                    else if self.rep.viols.len() < self.cfg.max_viols { self.rep.viols.push((v, 1)); }
                    if self.cfg.stop_first { if let Some((sh, t)) = self.share { sh.stop[t].store(1, std::sync::atomic::Ordering::SeqCst); } break; }
                }
                End::Given => {}
                End::Unsup(s) | End::Incon(s) => {
                    let tr: Vec<String> = st.frames.iter().rev().take(6).map(|f| f.f.name.clone()).collect();
                    let s = format!("{} [in {}]", s, tr.join(" < "));
                    if self.rep.errors.len() < 20 { self.rep.errors.push(s); }
                    if !st.lin { break; }
                }
            }
            if self.stopped() { break; }
            if Instant::now() > self.deadline && !self.work.is_empty() { self.hit_limit = true; self.rep.errors.push(format!("time limit with {} paths pending", self.work.len())); break; }
            if self.work.len() >= 2 { self.split(None); }
        }
        self.rep.secs = self.t0.elapsed().as_secs_f64();
        self.rep.fns = self.touched.keys().map(|p| unsafe { (**p).name.clone() }).collect();
    }
    pub fn since_start(&self) -> f64 { self.cfg.time - self.deadline.saturating_duration_since(Instant::now()).as_secs_f64() }
    fn stopped(&self) -> bool {
        use std::sync::atomic::Ordering::Relaxed;
        match self.share { Some((sh, t)) => sh.stop[t].load(Relaxed) != 0 || sh.stop_all.load(Relaxed) != 0, None => false }
    }
    /// Give the older half of the pending states to a new process when a core is free.
    /// Returns true in the child when `cur` was running (the parent keeps it).
    fn split(&mut self, cur: Option<&State>) -> bool {
        let Some((sh, task)) = self.share else { return false };
        if sh.slots.load(std::sync::atomic::Ordering::Relaxed) <= 0 || !sh.try_slot() { return false; }
        let n = self.work.len();
        let give = if cur.is_some() { (n + 1) / 2 } else { n / 2 };
        sh.started[task].fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        match crate::par::do_fork() {
            0 => {
                self.work.truncate(give);
                let fns = std::mem::take(&mut self.rep.fns);
                self.rep = Report { fns, ..Default::default() };
                self.so.stats = Default::default();
                self.so_r.stats = Default::default();
                self.t0 = Instant::now();
                crate::par::end_after(self.deadline.saturating_duration_since(Instant::now()).as_secs_f64() + 20.0);
                self.rng ^= (crate::par::pid() as u64) << 20;
                true
            }
            p if p > 0 => { self.work.drain(..give); false }
            _ => { sh.started[task].fetch_sub(1, std::sync::atomic::Ordering::SeqCst); sh.release(); false }
        }
    }
    fn sample(&mut self, st: &State) {
        // reservoir sampling of completed paths for native cross-checking
        let k = self.cfg.samples;
        if k == 0 { return; }
        self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
        let pos = if self.rep.samples.len() < k { self.rep.samples.len() } else { let r = (self.rng % self.rep.paths) as usize; if r >= k { return; } r };
        let log = self.log_of(st);
        let s = (self.tape_of(st), log);
        if pos == self.rep.samples.len() { self.rep.samples.push(s); } else { self.rep.samples[pos] = s; }
    }
    fn note(&mut self, f: &'static Func) { self.touched.insert(f as *const Func, ()); }

    fn goto(&mut self, fr: &mut Frame, e: u32) -> E<()> {
        let ed = &fr.f.edges[e as usize];
        match ed.moves.len() {
            0 => {}
            1 => { let v = self.opnd(fr, &ed.moves[0].1)?; fr.regs[ed.moves[0].0 as usize] = v; }
            _ => {
                let mut tmp = Vec::with_capacity(ed.moves.len());
                for (_, o) in &ed.moves { tmp.push(self.opnd(fr, o)?); }
                for ((r, _), v) in ed.moves.iter().zip(tmp) { fr.regs[*r as usize] = v; }
            }
        }
        fr.block = ed.target;
        fr.ip = 0;
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> E<()> {
        st.steps += 1;
        st.steps_here += 1;
        if st.steps_here & 0xfff == 0 {
            if self.stopped() { return Err(End::Given); }
            if !self.work.is_empty() && self.split(Some(st)) { return Err(End::Given); }
            if st.steps > self.cfg.max_steps { return Err(self.viol(st, "hang", format!("no end after {} instructions", st.steps), 0)); }
            if (st.steps_here & 0xfffff == 0 || self.so.stats.z3_calls != self.z3_seen) && { self.z3_seen = self.so.stats.z3_calls; Instant::now() > self.deadline } { self.hit_limit = true; return Err(End::Incon("time limit inside a path".into())); }
        }
        let top = st.frames.len() - 1;
        let f = st.frames[top].f;
        let (b, ip) = (st.frames[top].block, st.frames[top].ip);
        let Some(ins) = f.blocks[b as usize].get(ip as usize) else { return unsup(format!("fell off block {} of {}: {:?}", b, f.name, f.blocks[b as usize])) };
        macro_rules! fr { () => { Rc::make_mut(&mut st.frames[top]) } }
        macro_rules! val { ($o:expr) => {{ match $o { Opnd::Reg(r) => st.frames[top].regs[*r as usize].clone(), Opnd::C(k) => V::C(*k), o => { let fr = st.frames[top].clone(); self.opnd(&fr, o)? } } }} }
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; let fr = fr!(); fr.regs[*$d as usize] = v; fr.ip = ip + 1; }} }
        match ins {
            Ins::Bin(op, t, d, a, c) => { let (x, y) = (val!(a), val!(c)); let r = self.bin_ty(st, *op, t, &x, &y)?; set!(d, r) }
            Ins::ICmp(p, t, d, a, c) => { let (x, y) = (val!(a), val!(c)); let r = self.icmp_ty(*p, t, &x, &y)?; set!(d, r) }
            Ins::Load(t, d, a) => { let a = val!(a); let r = self.load(st, t, &a)?; set!(d, r) }
            Ins::Store(t, v, a, at) => { let (v, a) = (val!(v), val!(a)); self.atomic = *at; let r = self.store(st, t, &v, &a); self.atomic = false; r?; if *at { self.lock(st, &a, false); } fr!().ip = ip + 1; }
            Ins::Gep(d, base, off, terms) => {
                let bv = val!(base);
                let mut cst = *off as u64;
                let mut sym: Option<Id> = None;
                match bv { V::C(k) => cst = cst.wrapping_add(k), V::S(i) => sym = Some(i), _ => return unsup("gep base") }
                for (o, w, sc) in terms {
                    match val!(o) {
                        V::C(k) => cst = cst.wrapping_add((sx(k as u128, *w) as u64).wrapping_mul(*sc as u64)),
                        V::S(i) => {
                            let e = self.ar.sext(i, 64);
                            let k = self.ar.c(64, *sc as u64 as u128);
                            let e = self.ar.bin(Op::Mul, e, k);
                            sym = Some(match sym { None => e, Some(s) => self.ar.bin(Op::Add, s, e) });
                        }
                        _ => return unsup("gep index"),
                    }
                }
                let r = match sym { None => V::C(cst), Some(s) => { let k = self.ar.c(64, cst as u128); let e = self.ar.bin(Op::Add, s, k); self.v(e) } };
                set!(d, r)
            }
            Ins::Br(e) => { let fr = fr!(); self.goto(fr, *e)?; }
            Ins::CondBr(c, t, e) => { let c = val!(c); let r = self.branch_v(st, &c)?; let fr = fr!(); self.goto(fr, if r { *t } else { *e })?; }
            Ins::Cast(k, t, t2, d, a) => { let a = val!(a); let r = self.cast_ty(st, *k, t, t2, &a)?; set!(d, r) }
            Ins::Select(ct, t, d, c, a, e) => {
                let cv = val!(c);
                let r = match (&cv, ct) {
                    (V::A(cs), _) => {
                        let (a, e) = (val!(a), val!(e));
                        let (V::A(a), V::A(e)) = (a, e) else { return unsup("vector select") };
                        let et = match t { Ty::Vector(_, et) => (**et).clone(), _ => return unsup("vector select") };
                        let mut out = vec![];
                        for i in 0..cs.len() { let (c, x, y) = (self.id(&cs[i], 1), self.id(&a[i], et.bits()), self.id(&e[i], et.bits())); let r = self.ar.ite(c, x, y); out.push(self.v(r)); }
                        V::A(Rc::new(out))
                    }
                    (V::C(k), _) => if *k & 1 == 1 { val!(a) } else { val!(e) },
                    (V::S(ci), _) => {
                        let ci = &(if matches!(t, Ty::Int(_)) { *ci } else { self.defined(st, *ci, "select on uninitialised memory", 0)? });
                        let (x, y) = (val!(a), val!(e));
                        let is_ptr = *t == Ty::Ptr && !matches!((&x, &y), (V::C(a), V::C(b)) if a == b);
                        if !t.is_scalar() || is_ptr || t.bits() > 128 { if self.branch(st, *ci)? { x } else { y } }
                        else { let w = t.bits(); let (xi, yi) = (self.id(&x, w), self.id(&y, w)); let r = self.ar.ite(*ci, xi, yi); self.v(r) }
                    }
                };
                set!(d, r)
            }
            Ins::Extract(d, a, ix) => {
                let mut v = val!(a);
                for i in ix { v = match v { V::A(x) => x[*i as usize].clone(), _ => return unsup("extractvalue") }; }
                set!(d, v)
            }
            Ins::Insert(d, a, x, ix) => {
                let v = val!(a); let x = val!(x);
                fn put(v: &V, ix: &[u32], x: V) -> V { if ix.is_empty() { return x; } match v { V::A(l) => { let mut l = (**l).clone(); let i = ix[0] as usize; l[i] = put(&l[i], &ix[1..], x); V::A(Rc::new(l)) } _ => v.clone() } }
                set!(d, put(&v, ix, x))
            }
            Ins::ExtractEl(d, a, i) => { let v = val!(a); let i = val!(i); let k = self.conc(st, &i, 64)?; let r = match v { V::A(x) => x[k as usize].clone(), _ => return unsup("extractelement") }; set!(d, r) }
            Ins::InsertEl(d, a, e, i) => { let v = val!(a); let e = val!(e); let i = val!(i); let k = self.conc(st, &i, 64)?; let r = match v { V::A(x) => { let mut x = (*x).clone(); x[k as usize] = e; V::A(Rc::new(x)) } _ => return unsup("insertelement") }; set!(d, r) }
            Ins::Shuffle(d, a, c, mk, n) => {
                let (V::A(x), V::A(y)) = (val!(a), val!(c)) else { return unsup("shuffle") };
                let out = mk.iter().map(|&i| if i < 0 { x[0].clone() } else if (i as u64) < *n { x[i as usize].clone() } else { y[i as usize - *n as usize].clone() }).collect();
                set!(d, V::A(Rc::new(out)))
            }
            Ins::Alloca(d, size, al, cnt) => {
                let mut n = *size;
                if let Some((o, w)) = cnt { let c = val!(o); n *= self.conc(st, &c, *w)?; }
                st.gen = st.gen.wrapping_add(1);
                let slot = st.stack.len() as u64;
                if slot >= 1 << 20 { return Err(self.viol(st, "hang", "stack overflow".into(), 0)); }
                let g = st.gen;
                st.stack.push((g, Rc::new(Obj::new(n, *al, true))));
                set!(d, V::C(STACK | (g as u64) << 44 | slot << 24 | BASE))
            }
            Ins::Switch(w, v, def, cases) => {
                let v = val!(v);
                match v {
                    V::C(k) => { let e = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def); let fr = fr!(); self.goto(fr, e)?; }
                    V::S(i) => {
                        // group cases by target edge with identical phi moves
                        let mut groups: Vec<(u32, Id)> = vec![];
                        let mut any = self.ar.fls();
                        for (k, e) in cases {
                            let kc = self.ar.c(*w, *k as u128);
                            let c = self.ar.bin(Op::Eq, i, kc);
                            any = self.ar.bin(Op::Or, any, c);
                            let same = groups.iter().position(|g| { let (x, y) = (&f.edges[g.0 as usize], &f.edges[*e as usize]); x.target == y.target && x.moves.len() == y.moves.len() && x.moves.iter().zip(&y.moves).all(|(p, q)| format!("{:?}", p) == format!("{:?}", q)) });
                            match same { Some(p) => groups[p].1 = self.ar.bin(Op::Or, groups[p].1, c), None => groups.push((*e, c)) }
                        }
                        let _ = any;
                        let mut target = *def;
                        for (e, c) in groups { if self.branch(st, c)? { target = e; break; } }
                        let fr = fr!();
                        self.goto(fr, target)?;
                    }
                    _ => return unsup("switch"),
                }
            }
            Ins::Ret(v) => {
                let r = match v { Some(o) => Some(val!(o)), None => None };
                let fr = st.frames.pop().unwrap();
                st.stack.truncate(fr.stack_base as usize);
                if st.frames.is_empty() {
                    let lost = if self.cfg.leak && st.live > 0 { self.leaked(st) } else { vec![] };
                    if !lost.is_empty() {
                        // put the frame back for the trace
                        st.frames.push(fr);
                        let n = lost.len();
                        let ex: Vec<String> = lost.iter().filter_map(|&k| st.heap[k].as_ref()).take(4).map(|o| format!("{} bytes", o.size)).collect();
                        return Err(self.viol(st, "leak", format!("{} heap blocks leaked ({})", n, ex.join(", ")), 0));
                    }
                    return Err(End::Done);
                }
                let t2 = st.frames.len() - 1;
                let c = Rc::make_mut(&mut st.frames[t2]);
                if fr.dst != u32::MAX { c.regs[fr.dst as usize] = r.unwrap_or(V::C(0)); }
                match fr.edge { Some(e) => self.goto(c, e)?, None => c.ip += 1 }
            }
            Ins::Call(ci) => self.call(st, ci, top, ip)?,
            Ins::Freeze(d, a) => { let v = val!(a); set!(d, v) }
            Ins::FBin(op, t, d, a, c) => {
                let (x, y) = (val!(a), val!(c));
                let w = t.bits();
                let (x, y) = (self.id(&x, w), self.id(&y, w));
                let o = match op { Fop::Add => Op::FAdd, Fop::Sub => Op::FSub, Fop::Mul => Op::FMul, Fop::Div => Op::FDiv, Fop::Rem => Op::Const };
                let r = if o != Op::Const { self.ar.fbin(o, x, y) } else {
                    let (Some(x), Some(y)) = (self.ar.is_const(x), self.ar.is_const(y)) else { return unsup("frem") };
                    let r = if w == 64 { (f64::from_bits(x as u64) % f64::from_bits(y as u64)).to_bits() } else { (f32::from_bits(x as u32) % f32::from_bits(y as u32)).to_bits() as u64 };
                    self.ar.c(w, r as u128)
                };
                set!(d, self.v(r))
            }
            Ins::FNeg(t, d, a) => { let x = val!(a); let w = t.bits(); let x = self.id(&x, w); let k = self.ar.c(w, 1u128 << (w - 1)); let r = self.ar.bin(Op::Xor, x, k); set!(d, self.v(r)) }
            Ins::FCmp(p, t, d, a, c) => { let (x, y) = (val!(a), val!(c)); let w = t.bits(); let (x, y) = (self.id(&x, w), self.id(&y, w)); let r = self.ar.fcmp(*p, x, y); set!(d, self.v(r)) }
            Ins::AtomicRmw(op, t, d, a, v, acq) => {
                let (a, v) = (val!(a), val!(v));
                let old = self.load(st, t, &a)?;
                let w = t.bits();
                let (o, x) = (self.id(&old, w), self.id(&v, w));
                let n = match op.as_str() { "xchg" => x, "add" => self.ar.bin(Op::Add, o, x), "sub" => self.ar.bin(Op::Sub, o, x), "and" => self.ar.bin(Op::And, o, x), "or" => self.ar.bin(Op::Or, o, x), "xor" => self.ar.bin(Op::Xor, o, x), "nand" => { let n = self.ar.bin(Op::And, o, x); let k = self.ar.c(w, mask(w)); self.ar.bin(Op::Xor, n, k) }
                    "max" | "min" | "umax" | "umin" => { let l = self.ar.bin(if op.starts_with('u') { Op::Ult } else { Op::Slt }, o, x); if op.ends_with("min") { self.ar.ite(l, o, x) } else { self.ar.ite(l, x, o) } }
                    _ => return unsup("atomicrmw") };
                let nv = self.v(n);
                self.atomic = true; let r = self.store(st, t, &nv, &a); self.atomic = false; r?;
                self.lock(st, &a, *acq && matches!(op.as_str(), "xchg" | "or"));
                set!(d, old)
            }
            Ins::CmpXchg(t, d, a, c, n, acq) => {
                let (a, c, n) = (val!(a), val!(c), val!(n));
                let old = self.load(st, t, &a)?;
                let w = t.bits();
                let (o, x) = (self.id(&old, w), self.id(&c, w));
                let e = self.ar.bin(Op::Eq, o, x);
                let ok = self.branch(st, e)?;
                if ok { self.atomic = true; let r = self.store(st, t, &n, &a); self.atomic = false; r?; self.lock(st, &a, *acq); }
                set!(d, V::A(Rc::new(vec![old, V::C(ok as u64)])))
            }
            Ins::Unreachable => return Err(self.viol(st, "unreachable", "reached code declared unreachable".into(), 0)),
            Ins::Unsupported(s) => return unsup(s.clone()),
        }
        Ok(())
    }

    fn bop(op: Bop) -> Op { match op { Bop::Add => Op::Add, Bop::Sub => Op::Sub, Bop::Mul => Op::Mul, Bop::UDiv => Op::UDiv, Bop::SDiv => Op::SDiv, Bop::URem => Op::URem, Bop::SRem => Op::SRem, Bop::And => Op::And, Bop::Or => Op::Or, Bop::Xor => Op::Xor, Bop::Shl => Op::Shl, Bop::LShr => Op::LShr, Bop::AShr => Op::AShr } }
    fn bin_ty(&mut self, st: &mut State, op: Bop, t: &Ty, x: &V, y: &V) -> E<V> {
        if let Ty::Vector(_, e) = t {
            let (V::A(a), V::A(b)) = (x, y) else { return unsup("vector op") };
            let mut out = vec![];
            for (p, q) in a.iter().zip(b.iter()) { out.push(self.bin_ty(st, op, e, p, q)?); }
            return Ok(V::A(Rc::new(out)));
        }
        let w = t.bits();
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let m = mask(w) as u64;
            let r = match op {
                Bop::Add => a.wrapping_add(b), Bop::Sub => a.wrapping_sub(b), Bop::Mul => a.wrapping_mul(b),
                Bop::And => a & b, Bop::Or => a | b, Bop::Xor => a ^ b,
                Bop::Shl => if b >= w as u64 { 0 } else { a << b },
                Bop::LShr => if b >= w as u64 { 0 } else { a >> b },
                _ => {
                    if matches!(op, Bop::UDiv | Bop::SDiv | Bop::URem | Bop::SRem) && b == 0 { return Err(self.viol(st, "unreachable", "division by zero".into(), 0)); }
                    crate::expr::bin_const(Self::bop(op), w, a as u128, b as u128).unwrap() as u64
                }
            };
            return Ok(V::C(r & m));
        }
        let (mut x, mut y) = (x.clone(), y.clone());
        if matches!(op, Bop::Mul | Bop::UDiv | Bop::SDiv | Bop::URem | Bop::SRem) { self.pin(st, &mut x, &mut y, w, op == Bop::Mul)?; }
        let (a, b) = (self.id(&x, w), self.id(&y, w));
        if matches!(op, Bop::UDiv | Bop::SDiv | Bop::URem | Bop::SRem) && self.ar.is_const(b).is_none() {
            let z = self.ar.c(w, 0);
            let c = self.ar.bin(Op::Eq, b, z);
            if self.branch(st, c)? { return Err(self.viol(st, "unreachable", "division by zero".into(), 0)); }
        }
        let r = if st.lin { self.bin_lin(st, Self::bop(op), a, b)? } else { self.ar.bin(Self::bop(op), a, b) };
        Ok(self.v(r))
    }
    /// Sums, differences and products over the relaxed arithmetic: as exact ones when the relaxation refutes a wrap
    fn bin_lin(&mut self, st: &State, op: Op, a: Id, b: Id) -> E<Id> {
        let r = self.ar.bin(op, a, b);
        let w = self.ar.w(a);
        if w < 16 || w > 64 || self.ar.is_const(r).is_some() { return Ok(r); }
        let (op, a, b) = match op {
            Op::Add | Op::Sub => {
                let (a, b) = if op == Op::Add && self.ar.is_const(a).is_some() { (b, a) } else { (a, b) };
                let (na, nb) = (*self.ar.n(a), *self.ar.n(b));
                let kid = |n: &crate::expr::Node| matches!(n.op, Op::Add | Op::Sub) && (n.a == r || n.b == r);
                if r == a || r == b || kid(&na) || kid(&nb) { return Ok(r); }
                match (op, self.ar.is_const(b)) { (Op::Add, Some(c)) if c > mask(w) >> 1 => { let k = self.ar.c(w, (mask(w) - c) + 1); (Op::Sub, a, k) } _ => (op, a, b) }
            }
            Op::Mul => { let (a, b) = if self.ar.is_const(a).is_some() { (b, a) } else { (a, b) }; if r == a || self.ar.is_const(b).is_none() { return Ok(r); } (op, a, b) }
            Op::Shl => match self.ar.is_const(b) {
                Some(k) if k < w as u128 => { let n = *self.ar.n(r); if n.op == Op::Concat && self.ar.n(n.a).op == Op::Extract && self.ar.n(n.a).a == a { (Op::Mul, a, self.ar.c(w, 1 << k)) } else { return Ok(r); } }
                _ => return Ok(r),
            },
            _ => return Ok(r),
        };
        let wrap = self.wraps(op, a, b);
        if self.ar.is_const(wrap) != Some(0) {
            if self.ar.is_const(wrap).is_some() { return Ok(r); }
            let mut cs = self.slice(st, wrap);
            cs.push(wrap);
            if !matches!(self.so_r.check_relaxed(&mut self.ar, &cs), Res::Unsat) { return Ok(r); }
        }
        Ok(self.ar.exact(op, a, b))
    }
    /// whether the sum, difference or product (by a constant) leaves the unsigned range
    fn wraps(&mut self, op: Op, a: Id, b: Id) -> Id {
        let ar = &mut self.ar;
        let w = ar.w(a);
        let (ia, ib) = (*ar.inf(a), *ar.inf(b));
        let m = mask(w);
        match (op, ar.is_const(b)) {
            (Op::Sub, _) => if ia.lo >= ib.hi { ar.fls() } else { ar.bin(Op::Ult, a, b) },
            (Op::Mul, Some(c)) => if ia.hi.checked_mul(c).map_or(false, |h| h <= m) { ar.fls() } else { let k = ar.c(w, m / c.max(1)); ar.bin(Op::Ult, k, a) },
            (Op::Add, Some(c)) => { if ia.hi + c <= m { return ar.fls(); } let k = ar.c(w, m - c); ar.bin(Op::Ult, k, a) }
            _ => {
                if ia.hi + ib.hi <= m { return ar.fls(); }
                let (x, y) = (ar.zext(a, w + 8), ar.zext(b, w + 8));
                let s = ar.exact(Op::Add, x, y);
                let k = ar.c(w + 8, m);
                ar.bin(Op::Ult, k, s)
            }
        }
    }
    fn icmp_ty(&mut self, p: Pred, t: &Ty, x: &V, y: &V) -> E<V> {
        if let Ty::Vector(_, e) = t {
            let (V::A(a), V::A(b)) = (x, y) else { return unsup("vector cmp") };
            let mut out = vec![];
            for (u, v) in a.iter().zip(b.iter()) { out.push(self.icmp_ty(p, e, u, v)?); }
            return Ok(V::A(Rc::new(out)));
        }
        let w = t.bits();
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (sx(a as u128, w), sx(b as u128, w));
            let r = match p { Pred::Eq => a == b, Pred::Ne => a != b, Pred::Ugt => a > b, Pred::Uge => a >= b, Pred::Ult => a < b, Pred::Ule => a <= b, Pred::Sgt => sa > sb, Pred::Sge => sa >= sb, Pred::Slt => sa < sb, Pred::Sle => sa <= sb };
            return Ok(V::C(r as u64));
        }
        let (a, b) = (self.id(x, w), self.id(y, w));
        let r = match p {
            Pred::Eq => self.ar.bin(Op::Eq, a, b),
            Pred::Ne => { let e = self.ar.bin(Op::Eq, a, b); self.ar.not(e) }
            Pred::Ugt => self.ar.bin(Op::Ult, b, a), Pred::Uge => self.ar.bin(Op::Ule, b, a),
            Pred::Ult => self.ar.bin(Op::Ult, a, b), Pred::Ule => self.ar.bin(Op::Ule, a, b),
            Pred::Sgt => self.ar.bin(Op::Slt, b, a), Pred::Sge => self.ar.bin(Op::Sle, b, a),
            Pred::Slt => self.ar.bin(Op::Slt, a, b), Pred::Sle => self.ar.bin(Op::Sle, a, b),
        };
        Ok(self.v(r))
    }
    fn flat(&mut self, t: &Ty, v: &V) -> E<Id> {
        match (t, v) {
            (Ty::Vector(_, e), V::A(x)) => {
                let mut acc: Option<Id> = None;
                for y in x.iter() { let i = self.flat(e, y)?; acc = Some(match acc { None => i, Some(a) => { if self.ar.w(a) + self.ar.w(i) > 128 { return unsup("wide bitcast"); } self.ar.concat(i, a) } }); }
                Ok(acc.unwrap())
            }
            (t, v) => { let w = t.bits(); Ok(self.id(v, w)) }
        }
    }
    fn cast_ty(&mut self, st: &mut State, k: Cast, t: &Ty, t2: &Ty, a: &V) -> E<V> {
        if k == Cast::Bitcast {
            let f = self.flat(t, a)?;
            return Ok(match t2 {
                Ty::Vector(n, e) => { let w = e.bits(); let mut out = vec![]; for i in 0..*n as u16 { let x = self.ar.extract(f, i * w + w - 1, i * w); out.push(self.v(x)); } V::A(Rc::new(out)) }
                _ => self.v(f),
            });
        }
        if let (Ty::Vector(_, e), Ty::Vector(_, e2)) = (t, t2) {
            let V::A(x) = a else { return unsup("vector cast") };
            let mut out = vec![];
            for y in x.iter() { out.push(self.cast_ty(st, k, e, e2, y)?); }
            return Ok(V::A(Rc::new(out)));
        }
        if k == Cast::Same { return Ok(a.clone()); }
        let (w, w2) = (t.bits(), t2.bits());
        if let V::C(x) = a {
            match k {
                Cast::Trunc => return Ok(V::C(*x & mask(w2) as u64)),
                Cast::Zext if w2 <= 64 => return Ok(V::C(*x)),
                Cast::Sext if w2 <= 64 => return Ok(V::C(sx(*x as u128, w) as u64 & mask(w2) as u64)),
                _ => {}
            }
        }
        let i = self.id(a, w);
        let r = match k {
            Cast::Trunc => self.ar.extract(i, w2 - 1, 0),
            Cast::Zext => self.ar.zext(i, w2),
            Cast::Sext => self.ar.sext(i, w2),
            Cast::FToUi => self.ar.fcast(Op::FToUi, i, w2),
            Cast::FToSi => self.ar.fcast(Op::FToSi, i, w2),
            Cast::UiToF => self.ar.fcast(Op::UiToF, i, w2),
            Cast::SiToF => self.ar.fcast(Op::SiToF, i, w2),
            Cast::FExt => self.ar.fcast(Op::FExt, i, w2),
            Cast::FTrunc => self.ar.fcast(Op::FTrunc, i, w2),
            _ => unreachable!(),
        };
        Ok(self.v(r))
    }

    fn call(&mut self, st: &mut State, ci: &'static CallI, top: usize, ip: u32) -> E<()> {
        let mut args = Vec::with_capacity(ci.args.len());
        for (_, o) in &ci.args {
            args.push(match o { Opnd::Reg(r) => st.frames[top].regs[*r as usize].clone(), Opnd::C(k) => V::C(*k), o => { let fr = st.frames[top].clone(); self.opnd(&fr, o)? } });
        }
        let target = match &ci.callee {
            Callee::Fn(f) => Ok(*f),
            Callee::Builtin(b) => Err(*b),
            Callee::AsmNop => Err(Bi::Nop),
            Callee::Ptr(o) => {
                let p = match o { Opnd::Reg(r) => st.frames[top].regs[*r as usize].clone(), _ => return unsup("call target") };
                let p = match p { V::S(i) => { let nd = *self.ar.n(i); if nd.op == Op::Ite { let t = self.branch(st, nd.a)?; let x = if t { nd.b } else { nd.c }; self.v(x) } else { V::S(i) } } x => x };
                let p = self.conc(st, &p, 64)?;
                if p >> 60 != 4 { return self.mem_err(st, format!("call through invalid pointer {:#x}", p)); }
                let f = ((p & (HEAP - 1)) >> 4) as u32 - 1;
                if f as usize >= self.m.fns.len() { return self.mem_err(st, "call through invalid pointer".into()); }
                match self.m.fns[f as usize].builtin { Some(b) => Err(b), None => Ok(f) }
            }
        };
        match target {
            Ok(f) => {
                let func = match self.m.func(f) { Ok(f) => f, Err(e) => return unsup(e) };
                self.note(func);
                if st.frames.len() > 4000 { return Err(self.viol(st, "hang", "call depth above 4000 frames".into(), 0)); }
                let mut regs = vec![V::C(0); func.nregs as usize];
                for (p, a) in func.params.iter().zip(args) { regs[*p as usize] = a; }
                st.frames.push(Rc::new(Frame { f: func, block: 0, ip: 0, regs, stack_base: st.stack.len() as u32, dst: ci.dst, edge: ci.normal }));
                if st.frames.len() > self.rep.max_depth { self.rep.max_depth = st.frames.len(); }
            }
            Err(b) => {
                let r = self.builtin(st, b, ci, &args)?;
                let fr = Rc::make_mut(&mut st.frames[top]);
                if ci.dst != u32::MAX { fr.regs[ci.dst as usize] = r.unwrap_or(V::C(0)); }
                match ci.normal { Some(e) => self.goto(fr, e)?, None => fr.ip = ip + 1 }
            }
        }
        Ok(())
    }

    fn read_location(&mut self, st: &State, p: &V) -> String {
        if let V::C(a) = p {
            if a >> 60 == 3 {
                if let Ok((o, off)) = self.find(st, *a, 24, "read") {
                    let rd = |i: usize| u64::from_le_bytes(o.data[off as usize + i..off as usize + i + 8].try_into().unwrap());
                    let (fp, fl, lc) = (rd(0), rd(8), rd(16));
                    if fl < 300 { if let Ok((fo, foff)) = self.find(st, fp, fl, "read") { return format!("{}:{}:{}", String::from_utf8_lossy(&fo.data[foff as usize..(foff + fl) as usize]), lc as u32, lc >> 32); } }
                }
            }
        }
        "?".into()
    }

    fn builtin(&mut self, st: &mut State, b: Bi, ci: &CallI, a: &[V]) -> E<Option<V>> {
        use Bi::*;
        let rw = || match &ci.ret { t if t.is_scalar() => t.bits(), _ => 0 };
        let ity = |i: usize| ci.args[i].0.clone();
        match b {
            Nop => Ok(Some(V::C(0))),
            Assume => {
                if let Some(V::S(c)) = a.first() { let c = *c; if let Some(m) = self.must(st, c)? { st.model = Rc::new(m); return Err(self.viol(st, "unreachable", "compiler assumption violated".into(), 0)); } }
                else if let Some(V::C(0)) = a.first() { return Err(self.viol(st, "unreachable", "compiler assumption violated".into(), 0)); }
                Ok(None)
            }
            Panic => {
                let loc = match a.last() { Some(p) => self.read_location(st, p), None => "?".into() };
                let name = ci.name.clone();
                Err(self.viol(st, "panic", format!("panic at {} ({})", loc, short(&name)), 0))
            }
            Trap => Err(self.viol(st, "panic", "trap".into(), 0)),
            AllocError => Err(self.viol(st, "panic", "allocation failure or capacity overflow".into(), 0)),
            Memcpy | Memmove => {
                let n = self.conc(st, &a[2], 64)?;
                if n > 0 {
                    let d = match self.resolve(st, &a[0], n, "write")? { Ok(k) => k, Err(_) => self.conc(st, &a[0], 64)? };
                    let s = match self.resolve(st, &a[1], n, "read")? { Ok(k) => k, Err(_) => {
                        // a short copy from a constant table at a symbolic offset: go through a scalar
                        if n <= 8 && n.is_power_of_two() {
                            let t = Ty::Int(8 * n as u16);
                            let v = self.load(st, &t, &a[1])?;
                            self.store(st, &t, &v, &V::C(d))?;
                            return Ok(Some(V::C(d)));
                        }
                        self.conc(st, &a[1], 64)?
                    } };
                    if b == Memcpy && d != s && d >> 24 == s >> 24 && d.abs_diff(s) < n { return Err(self.viol(st, "memory", "overlapping copy_nonoverlapping".into(), 0)); }
                    self.memcopy(st, d, s, n)?;
                }
                Ok(Some(a[0].clone()))
            }
            Memset => {
                let n = self.conc(st, &a[2], 64)?;
                if n > 0 {
                    let d = match self.resolve(st, &a[0], n, "write")? { Ok(k) => k, Err(_) => self.conc(st, &a[0], 64)? };
                    let (_, off) = self.check_range(st, d, n, "write")?;
                    let bv = match &a[1] { V::S(i) if self.ar.w(*i) > 8 => { let e = self.ar.extract(*i, 7, 0); self.v(e) } V::C(k) => V::C(k & 255), x => x.clone() };
                    let o = self.obj_mut(st, d)?;
                    let r = off as usize..(off + n) as usize;
                    match bv {
                        V::C(k) => { for x in &mut o.data[r.clone()] { *x = k as u8; } if !o.sym.is_empty() { for x in &mut o.sym[r] { *x = 0; } } }
                        V::S(i) => { let und = self.ar.n(i).op == Op::Undef; let o = self.obj_mut(st, d)?; if o.sym.is_empty() { o.sym = vec![0; o.size as usize]; } for x in &mut o.sym[r] { *x = if und { UND } else { i }; } }
                        _ => return unsup("memset"),
                    }
                }
                Ok(Some(a[0].clone()))
            }
            Memcmp => {
                let n = self.conc(st, &a[2], 64)?;
                if n == 0 { return Ok(Some(V::C(0))); }
                let p = match self.resolve(st, &a[0], n, "read")? { Ok(k) => k, Err(_) => self.conc(st, &a[0], 64)? };
                let q = match self.resolve(st, &a[1], n, "read")? { Ok(k) => k, Err(_) => self.conc(st, &a[1], 64)? };
                let (po, poff) = self.check_range(st, p, n, "read")?;
                let (qo, qoff) = self.check_range(st, q, n, "read")?;
                if ci.name == "bcmp" {
                    let mut eq = self.ar.tru();
                    for i in 0..n as usize { let x = self.byte_at(&po, poff as usize + i); let y = self.byte_at(&qo, qoff as usize + i); let e = self.ar.bin(Op::Eq, x, y); eq = self.ar.bin(Op::And, eq, e); if self.ar.is_const(eq) == Some(0) { break; } }
                    let eq = self.defined(st, eq, "comparison of uninitialised memory", 0)?;
                    let ne = self.ar.not(eq);
                    let r = self.ar.zext(ne, 32);
                    return Ok(Some(self.v(r)));
                }
                // memcmp: sign of the first difference
                let one = self.ar.c(32, 1); let neg = self.ar.c(32, 0xffff_ffff); let mut r = self.ar.c(32, 0);
                for i in (0..n as usize).rev() {
                    let x = self.byte_at(&po, poff as usize + i); let y = self.byte_at(&qo, qoff as usize + i);
                    let e = self.ar.bin(Op::Eq, x, y); let l = self.ar.bin(Op::Ult, x, y);
                    let d = self.ar.ite(l, neg, one);
                    r = self.ar.ite(e, r, d);
                }
                Ok(Some(self.v(r)))
            }
            Strlen => {
                let p = self.conc(st, &a[0], 64)?;
                let mut n = 0;
                loop { let (o, off) = self.check_range(st, p + n, 1, "read")?; if !o.sym.is_empty() && o.sym[off as usize] != 0 { return unsup("strlen of symbolic data"); } if o.data[off as usize] == 0 { break; } n += 1; }
                Ok(Some(V::C(n)))
            }
            UMax | UMin | SMax | SMin => {
                let t = ity(0);
                let r = self.lanes(&t, a, |s, w, x, y| { let o = match b { UMax | UMin => Op::Ult, _ => Op::Slt }; let _ = w; let l = s.ar.bin(o, x, y); if matches!(b, UMin | SMin) { s.ar.ite(l, x, y) } else { s.ar.ite(l, y, x) } })?;
                Ok(Some(r))
            }
            UAddSat | USubSat | SAddSat | SSubSat => {
                let t = ity(0);
                let r = self.lanes(&t, a, |s, w, x, y| match b {
                    UAddSat => { let r = s.ar.bin(Op::Add, x, y); let o = s.ar.bin(Op::Ult, r, x); let m = s.ar.c(w, mask(w)); s.ar.ite(o, m, r) }
                    USubSat => { let l = s.ar.bin(Op::Ult, x, y); let z = s.ar.c(w, 0); let r = s.ar.bin(Op::Sub, x, y); s.ar.ite(l, z, r) }
                    _ => {
                        let (ex, ey) = (s.ar.sext(x, w + 1), s.ar.sext(y, w + 1));
                        let r = s.ar.bin(if b == SAddSat { Op::Add } else { Op::Sub }, ex, ey);
                        let (hi, lo) = (s.ar.c(w + 1, mask(w) >> 1), s.ar.c(w + 1, mask(w + 1) - (mask(w) >> 1)));
                        let g = s.ar.bin(Op::Slt, hi, r); let l = s.ar.bin(Op::Slt, r, lo);
                        let r1 = s.ar.ite(l, lo, r); let r2 = s.ar.ite(g, hi, r1);
                        s.ar.extract(r2, w - 1, 0)
                    }
                })?;
                Ok(Some(r))
            }
            UAddO | USubO | UMulO | SAddO | SSubO | SMulO => {
                let w = ity(0).bits();
                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                if matches!(b, UMulO | SMulO) { self.pin(st, &mut x, &mut y, w, true)?; }
                let (x, y) = (self.id(&x, w), self.id(&y, w));
                if st.lin && matches!(b, UAddO | USubO | UMulO) {
                    let op = match b { UAddO => Op::Add, USubO => Op::Sub, _ => Op::Mul };
                    let r = self.bin_lin(st, op, x, y)?;
                    let n = *self.ar.n(r);
                    if n.k == 1 && n.op == op { return Ok(Some(V::A(Rc::new(vec![self.v(r), V::C(0)])))); }
                    if matches!(op, Op::Add | Op::Sub) || self.ar.is_const(y).is_some() || self.ar.is_const(x).is_some() {
                        let (x, y) = if op != Op::Sub && self.ar.is_const(x).is_some() { (y, x) } else { (x, y) };
                        let o = self.wraps(op, x, y);
                        return Ok(Some(V::A(Rc::new(vec![self.v(r), self.v(o)]))));
                    }
                }
                let ar = &mut self.ar;
                let (r, o) = match b {
                    UAddO => {
                        let r = ar.bin(Op::Add, x, y);
                        let nov = ar.inf(x).hi.checked_add(ar.inf(y).hi).map_or(false, |h| h <= mask(w));
                        let o = if nov { ar.fls() } else if let Some(c) = ar.is_const(y) { let k = ar.c(w, mask(w) - c); ar.bin(Op::Ult, k, x) } else { ar.bin(Op::Ult, r, x) };
                        (r, o)
                    }
                    USubO => { let r = ar.bin(Op::Sub, x, y); let o = ar.bin(Op::Ult, x, y); (r, o) }
                    UMulO => {
                        let r = ar.bin(Op::Mul, x, y);
                        let nov = ar.inf(x).hi.checked_mul(ar.inf(y).hi).map_or(false, |h| h <= mask(w));
                        let (x, y) = if ar.is_const(x).is_some() { (y, x) } else { (x, y) };
                        let o = if nov { ar.fls() } else if let Some(c) = ar.is_const(y) { let k = ar.c(w, mask(w) / c.max(1)); ar.bin(Op::Ult, k, x) }
                            else { let (ex, ey) = (ar.zext(x, 2 * w), ar.zext(y, 2 * w)); let p = ar.bin(Op::Mul, ex, ey); let h = ar.extract(p, 2 * w - 1, w); let z = ar.c(w, 0); let e = ar.bin(Op::Eq, h, z); ar.not(e) };
                        (r, o)
                    }
                    _ => {
                        let op = match b { SAddO => Op::Add, SSubO => Op::Sub, _ => Op::Mul };
                        let r = ar.bin(op, x, y);
                        if let (SMulO, Some(c)) = (b, ar.is_const(y).or(ar.is_const(x))) {
                            let v = if ar.is_const(y).is_some() { x } else { y };
                            let c = sx(c, w);
                            let (mx, mn) = ((mask(w) >> 1) as i128, -((mask(w) >> 1) as i128) - 1);
                            let o = if c == 0 || c == 1 { ar.fls() } else if c == -1 { let k = ar.c(w, mn as u128); ar.bin(Op::Eq, v, k) } else {
                                let (hi, lo) = if c > 0 { (mx / c, mn / c) } else { (mn / c, mx / c) };
                                let (h, l) = (ar.c(w, hi as u128), ar.c(w, lo as u128));
                                let g = ar.bin(Op::Slt, h, v); let s = ar.bin(Op::Slt, v, l);
                                ar.bin(Op::Or, g, s)
                            };
                            (r, o)
                        } else {
                            let ww = if op == Op::Mul { 2 * w } else { w + 1 };
                            let (ex, ey) = (ar.sext(x, ww), ar.sext(y, ww));
                            let p = ar.bin(op, ex, ey);
                            let er = ar.sext(r, ww);
                            let e = ar.bin(Op::Eq, p, er);
                            (r, ar.not(e))
                        }
                    }
                };
                Ok(Some(V::A(Rc::new(vec![self.v(r), self.v(o)]))))
            }
            Ctlz | Cttz | Ctpop => {
                let w = ity(0).bits();
                if let V::C(k) = a[0] {
                    let k = k & mask(w) as u64;
                    return Ok(Some(V::C(match b { Ctlz => if k == 0 { w as u64 } else { k.leading_zeros() as u64 - (64 - w as u64) }, Cttz => if k == 0 { w as u64 } else { k.trailing_zeros() as u64 }, _ => k.count_ones() as u64 })));
                }
                let x = self.id(&a[0], w);
                if b == Ctpop { // only small widths
                    let mut s = self.ar.c(w, 0);
                    for i in 0..w { let bt = self.ar.extract(x, i, i); let z = self.ar.zext(bt, w); s = self.ar.bin(Op::Add, s, z); }
                    return Ok(Some(self.v(s)));
                }
                let mut r = self.ar.c(w, w as u128);
                if b == Ctlz {
                    if w <= 16 { for i in 0..w { let bt = self.ar.extract(x, i, i); let k = self.ar.c(w, (w - 1 - i) as u128); r = self.ar.ite(bt, k, r); } }
                    else {
                        // split on the result
                        self.ar.eval_begin();
                        let model = st.model.clone();
                        let v = self.ar.eval(x, &model);
                        let nb = 128 - v.leading_zeros() as u16; // bits used
                        let mut c = self.ar.tru();
                        if nb > 0 { let k = self.ar.c(w, 1u128 << (nb - 1)); c = self.ar.bin(Op::Ule, k, x); }
                        if nb < w { let k = self.ar.c(w, 1u128 << nb); let l = self.ar.bin(Op::Ult, x, k); c = self.ar.bin(Op::And, c, l); }
                        self.branch(st, c)?;
                        return Ok(Some(V::C((w - nb) as u64)));
                    }
                } else { for i in (0..w).rev() { let bt = self.ar.extract(x, i, i); let k = self.ar.c(w, i as u128); r = self.ar.ite(bt, k, r); } }
                Ok(Some(self.v(r)))
            }
            Bswap => { let w = rw(); let x = self.id(&a[0], w); let mut acc = self.ar.extract(x, 7, 0); for i in 1..w / 8 { let bt = self.ar.extract(x, i * 8 + 7, i * 8); acc = self.ar.concat(acc, bt); } Ok(Some(self.v(acc))) }
            Bitreverse => { let w = rw(); let x = self.id(&a[0], w); let mut acc = self.ar.extract(x, 0, 0); for i in 1..w { let bt = self.ar.extract(x, i, i); acc = self.ar.concat(acc, bt); } Ok(Some(self.v(acc))) }
            Fshl | Fshr => {
                let w = rw();
                let s = self.conc(st, &a[2], w)? % w as u64;
                let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                let k = if b == Fshl { s as u16 } else { (w - s as u16) % w };
                let r = if k == 0 { if b == Fshl { x } else { y } } else { let h = self.ar.extract(x, w - k - 1, 0); let l = self.ar.extract(y, w - 1, w - k); self.ar.concat(h, l) };
                Ok(Some(self.v(r)))
            }
            Abs => { let w = rw(); let x = self.id(&a[0], w); let z = self.ar.c(w, 0); let n = self.ar.bin(Op::Sub, z, x); let s = self.ar.bin(Op::Slt, x, z); let r = self.ar.ite(s, n, x); Ok(Some(self.v(r))) }
            Ucmp | Scmp => {
                let w = ity(0).bits(); let r = rw();
                let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                let o = if b == Ucmp { Op::Ult } else { Op::Slt };
                let l = self.ar.bin(o, x, y); let e = self.ar.bin(Op::Eq, x, y);
                let (z, p, n) = (self.ar.c(r, 0), self.ar.c(r, 1), self.ar.c(r, mask(r)));
                let q = self.ar.ite(e, z, p); let q = self.ar.ite(l, n, q);
                Ok(Some(self.v(q)))
            }
            IsConstant => Ok(Some(V::C(0))),
            TlsAddr | Expect => Ok(Some(a[0].clone())),
            PtrMask => { let (x, y) = (self.id(&a[0], 64), self.id(&a[1], 64)); let r = self.ar.bin(Op::And, x, y); Ok(Some(self.v(r))) }
            FToUiSat | FToSiSat => { let w = ity(0).bits(); let r = rw(); let x = self.id(&a[0], w); let e = self.ar.fcast(if b == FToUiSat { Op::FToUi } else { Op::FToSi }, x, r); Ok(Some(self.v(e))) }
            FAbs => { let w = rw(); let x = self.id(&a[0], w); let e = self.ar.extract(x, w - 2, 0); let e = self.ar.zext(e, w); Ok(Some(self.v(e))) }
            CopySign => { let w = rw(); let (x, y) = (self.id(&a[0], w), self.id(&a[1], w)); let m = self.ar.extract(x, w - 2, 0); let s = self.ar.extract(y, w - 1, w - 1); let e = self.ar.concat(s, m); Ok(Some(self.v(e))) }
            FPow => { let w = rw(); let x = self.conc(st, &a[0], w)?; let y = self.conc(st, &a[1], w)?; Ok(Some(V::C(crate::expr::f_bin(Op::FPow, w, x as u128, y as u128) as u64))) }
            FTruncI | FFloor | FCeil | FRound => {
                let w = rw();
                let x = self.id(&a[0], w);
                if let Some(k) = self.ar.is_const(x) {
                    let v = if w == 64 { let f = f64::from_bits(k as u64); match b { FTruncI => f.trunc(), FFloor => f.floor(), FCeil => f.ceil(), _ => f.round() }.to_bits() } else { let f = f32::from_bits(k as u32); match b { FTruncI => f.trunc(), FFloor => f.floor(), FCeil => f.ceil(), _ => f.round() }.to_bits() as u64 };
                    return Ok(Some(V::C(v)));
                }
                let one = if w == 64 { 1f64.to_bits() as u128 } else { 1f32.to_bits() as u128 };
                let one = self.ar.c(w, one);
                let x = if b == FRound {
                    let h = if w == 64 { 0.49999999999999994f64.to_bits() as u128 } else { 0.49999997f32.to_bits() as u128 };
                    let h = self.ar.c(w, h);
                    let m = self.ar.extract(h, w - 2, 0); let s = self.ar.extract(x, w - 1, w - 1); let h = self.ar.concat(s, m);
                    self.ar.fbin(Op::FAdd, x, h)
                } else { x };
                let t = self.ar.ftrunc(x);
                let r = match b {
                    FFloor => { let c = self.ar.fcmp(4, x, t); let d = self.ar.fbin(Op::FSub, t, one); self.ar.ite(c, d, t) }
                    FCeil => { let c = self.ar.fcmp(2, x, t); let d = self.ar.fbin(Op::FAdd, t, one); self.ar.ite(c, d, t) }
                    _ => t,
                };
                Ok(Some(self.v(r)))
            }
            FMin | FMax => {
                let w = rw();
                let (x, y) = (self.id(&a[0], w), self.id(&a[1], w));
                let n = self.ar.fcmp(8, x, x);
                let l = self.ar.fcmp(if b == FMin { 4 } else { 2 }, y, x);
                let r = self.ar.ite(l, y, x);
                let r = self.ar.ite(n, y, r);
                Ok(Some(self.v(r)))
            }
            FSqrt => { let w = rw(); let x = self.conc(st, &a[0], w)?; Ok(Some(V::C(if w == 64 { f64::from_bits(x).sqrt().to_bits() } else { f32::from_bits(x as u32).sqrt().to_bits() as u64 }))) }
            FPowi => {
                let w = rw(); let x = self.conc(st, &a[0], w)?; let y = self.conc(st, &a[1], 32)?;
                Ok(Some(V::C(if w == 64 { f64::from_bits(x).powi(y as u32 as i32).to_bits() } else { f32::from_bits(x as u32).powi(y as u32 as i32).to_bits() as u64 })))
            }
            ReduceOr | ReduceAnd | ReduceAdd | ReduceUMax | ReduceUMin => {
                let V::A(x) = &a[0] else { return unsup("reduce") };
                let w = rw();
                let mut acc = self.id(&x[0], w);
                for y in x[1..].iter() {
                    let y = self.id(y, w);
                    acc = match b { ReduceOr => self.ar.bin(Op::Or, acc, y), ReduceAnd => self.ar.bin(Op::And, acc, y), ReduceAdd => self.ar.bin(Op::Add, acc, y), _ => { let l = self.ar.bin(Op::Ult, acc, y); if b == ReduceUMax { self.ar.ite(l, y, acc) } else { self.ar.ite(l, acc, y) } } };
                }
                Ok(Some(self.v(acc)))
            }
            Alloc | AllocZeroed => { let n = self.conc(st, &a[0], 64)?; let al = self.conc(st, &a[1], 64)?; let p = self.alloc(st, n, al, b == AllocZeroed); Ok(Some(V::C(p))) }
            Dealloc => { let p = self.conc(st, &a[0], 64)?; let n = self.conc(st, &a[1], 64)?; let al = self.conc(st, &a[2], 64)?; self.free(st, p, Some((n, al)))?; Ok(None) }
            Realloc => {
                let p = self.conc(st, &a[0], 64)?; let n = self.conc(st, &a[1], 64)?; let al = self.conc(st, &a[2], 64)?; let nn = self.conc(st, &a[3], 64)?;
                let _ = self.check_range(st, p, n.min(1), "realloc")?;
                let q = self.alloc(st, nn, al, false);
                if q != 0 { self.memcopy(st, q, p, n.min(nn))?; self.free(st, p, Some((n, al)))?; }
                Ok(Some(V::C(q)))
            }
            Malloc => { let n = self.conc(st, &a[0], 64)?; let p = self.alloc(st, n, 16, false); Ok(Some(V::C(p))) }
            Calloc => { let n = self.conc(st, &a[0], 64)?; let k = self.conc(st, &a[1], 64)?; let p = self.alloc(st, n * k, 16, true); Ok(Some(V::C(p))) }
            Free => { let p = self.conc(st, &a[0], 64)?; if p != 0 { self.free(st, p, None)?; } Ok(None) }
            HashKeys => { // deterministic keys; iteration order over std maps is not part of any property
                if ci.ret == Ty::Void { let d = self.conc(st, &a[0], 64)?; self.store(st, &Ty::Int(64), &V::C(0x0123456789abcdef), &V::C(d))?; self.store(st, &Ty::Int(64), &V::C(0xfedcba9876543210), &V::C(d + 8))?; return Ok(None); }
                Ok(Some(V::A(Rc::new(vec![V::C(0x0123456789abcdef), V::C(0xfedcba9876543210)]))))
            }
            SymBytes => {
                let p = self.conc(st, &a[0], 64)?; let n = self.conc(st, &a[1], 64)?;
                for i in 0..n { let v = self.fresh(st, 8); self.store(st, &Ty::Int(8), &v, &V::C(p + i))?; }
                Ok(None)
            }
            SymU => { let w = rw(); Ok(Some(self.fresh(st, w))) }
            SymAssume => {
                let w = ity(0).bits();
                let c = self.id(&a[0], w);
                let z = self.ar.c(w, 0);
                let e = self.ar.bin(Op::Eq, c, z);
                let c = self.ar.not(e);
                match self.ar.is_const(c) { Some(1) => return Ok(None), Some(_) => return Err(End::Infeasible), None => {} }
                if st.lin {
                    let mut cs = self.slice(st, c); cs.push(c);
                    let r = self.so_r.check_relaxed(&mut self.ar, &cs);
                    if let Res::Unsat = r { return Err(End::Infeasible); }
                    self.assume(st, c);
                    self.settle(st, r);
                    return Ok(None);
                }
                self.ar.eval_begin();
                let model = st.model.clone();
                if self.ar.eval(c, &model) != 1 { match self.sat(st, c)? { Some(m) => st.model = Rc::new(m), None => return Err(End::Infeasible) } }
                self.assume(st, c);
                Ok(None)
            }
            SymCheck => {
                let w = ity(0).bits();
                let c = self.id(&a[0], w);
                let z = self.ar.c(w, 0);
                let e = self.ar.bin(Op::Eq, c, z);
                let c = self.ar.not(e);
                let id = self.conc(st, &a[1], 32)?;
                let c = self.defined(st, c, "checked value depends on uninitialised memory", id)?;
                self.rep.obligations += 1;
                if st.lin {
                    let n = self.ar.not(c);
                    if let Some(m) = self.sat(st, n)? { st.model = Rc::new(m); st.ghost = false; return Err(self.viol(st, "check", format!("assertion {} fails", id), id)); }
                    self.rep.checked.insert(id);
                    return Ok(None);
                }
                if !self.branch(st, c)? { return Err(self.viol(st, "check", format!("assertion {} fails", id), id)); }
                self.rep.checked.insert(id);
                Ok(None)
            }
            SymFail => { let id = self.conc(st, &a[0], 32)?; Err(self.viol(st, "check", format!("assertion {} fails", id), id)) }
            SymCover => { let id = self.conc(st, &a[0], 32)?; if !st.ghost { self.rep.covers.insert(id); } Ok(None) }
            SymLinear => { st.lin = true; Ok(None) }
            SymBits => { let n = self.conc(st, &a[0], 32)?; let v = self.fresh(st, n as u16); let x = self.id(&v, n as u16); let x = self.ar.zext(x, 64); Ok(Some(self.v(x))) }
            SymScaledLt => {
                let (x, y) = (self.id(&a[0], 64), self.id(&a[1], 64));
                let (p2, p10) = (self.conc(st, &a[2], 32)?, self.conc(st, &a[3], 32)?);
                let r = self.ar.big(Op::ScaledLt, x, y, (p2 & 0xffff_ffff | (p10 & 0xffff_ffff) << 32) as u128);
                Ok(Some(self.bool_ret(r, rw())))
            }
            SymFloatOk => {
                let w = self.conc(st, &a[1], 32)?;
                let x = self.id(&a[0], 64);
                let x = if w == 32 { self.ar.extract(x, 31, 0) } else { x };
                let m = self.id(&a[2], 64);
                let (e, neg) = (self.conc(st, &a[3], 32)?, self.conc(st, &a[4], 8)?);
                let r = self.ar.big(Op::FOk, x, m, (e & 0xffff_ffff | (neg & 1) << 32) as u128);
                Ok(Some(self.bool_ret(r, rw())))
            }
            SymPick => { let k = self.conc(st, &a[0], 64)?; Ok(Some(V::C(k))) }
            SymLog => { st.log.push(a[0].clone()); Ok(None) }
            AtExit => Ok(Some(V::C(0))), // destructors of thread-local variables, which outlive the run
            SymFreeze => { let on = self.conc(st, &a[0], 8)? & 1 == 1; st.frozen = if on { st.heap.len() } else { 0 }; st.held.clear(); Ok(None) }
            SymHeap => Ok(Some(V::C(st.live))),
            _ => unsup(format!("call to {} ({:?})", ci.name, b)),
        }
    }
    fn bool_ret(&mut self, r: Id, w: u16) -> V { let r = if w > 1 { self.ar.zext(r, w) } else { r }; self.v(r) }
    fn lanes(&mut self, t: &Ty, a: &[V], f: impl Fn(&mut Exec, u16, Id, Id) -> Id) -> E<V> {
        match t {
            Ty::Vector(_, e) => {
                let w = e.bits();
                let (V::A(x), V::A(y)) = (&a[0], &a[1]) else { return unsup("vector intrinsic") };
                let mut out = vec![];
                for (p, q) in x.iter().zip(y.iter()) { let (p, q) = (self.id(p, w), self.id(q, w)); let r = f(self, w, p, q); out.push(self.v(r)); }
                Ok(V::A(Rc::new(out)))
            }
            t => { let w = t.bits(); let (p, q) = (self.id(&a[0], w), self.id(&a[1], w)); let r = f(self, w, p, q); Ok(self.v(r)) }
        }
    }
    fn fresh(&mut self, st: &mut State, w: u16) -> V {
        let k = st.tape.len();
        let id = match self.vars.get(&(k, w)) { Some(&i) => i, None => { let i = self.ar.var(w); self.vars.insert((k, w), i); i } };
        let v = self.ar.n(id).k as u32;
        Rc::make_mut(&mut st.tape).push((v, w));
        V::S(id)
    }
}

pub fn short(n: &str) -> String { if n.len() > 60 { format!("..{}", &n[n.len() - 58..]) } else { n.to_string() } }
