//! Path-exploring symbolic execution of the parsed LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::z3::Z3;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty, or one entry per byte (0 = concrete)
    pub ro: bool,
}

#[derive(Clone)]
pub struct Frame {
    func: Rc<Func>,
    block: u32,
    ip: u32,
    regs: Vec<Val>,
    ret: Option<u32>,
    allocas: Vec<u32>,
}

/// A set of constraints over a set of variables independent of all others.
pub struct Part {
    id: u32,
    vars: Vec<u32>,
    cons: Vec<E>,
    model: Vec<(u32, u64)>,
}

/// What the solver said about a condition under the constraints of a part.
#[derive(Clone)]
enum Decision {
    Forced(bool),
    Both(Rc<Part>, Rc<Part>), // the part with the condition, with its negation
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64);
        }
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64);
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
}
pub type FxB = std::hash::BuildHasherDefault<Fx>;

#[derive(Clone)]
pub struct State {
    top: Frame,
    below: Vec<Rc<Frame>>,
    mem: Vec<(u32, Rc<Obj>)>,
    next_obj: u32,
    parts: Vec<Rc<Part>>, // indexed by variable
    nvars: u32,
    outs: Vec<u64>,
    steps: u64,
    forks: u32,
    text: Option<(u64, u64)>, // input shown in reports: address, length
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub code: u64,
    pub vars: Vec<u64>,
    pub text: Vec<u8>,
    pub stack: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub vars: Vec<u64>,
    pub outs: Vec<u64>,
    pub text: Vec<u8>,
}

enum End {
    Done,
    Panic(String),
    Infeasible,
    Error(String),
}

enum Flow {
    Next,
    Jump,
    End(End),
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub infeasible: u64,
    pub panics: u64,
    pub forks: u64,
    pub steps: u64,
    pub checks_concrete: u64,
    pub checks_symbolic: u64,
    pub branch_sym: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub alpha_hits: u64,
    pub max_steps: u64,
    pub max_vars: u32,
}

pub struct Limits {
    pub max_steps_path: u64,
    pub deadline: std::time::Instant,
    pub max_violations: usize,
    pub max_paths: u64,
    pub samples: usize,
    pub shard: u64,
    pub nshards: u64,
    pub arg: u64,
}

pub struct Engine {
    pub m: Module,
    pub a: Arena,
    pub z: Z3,
    gbase: Vec<Option<Rc<Obj>>>,
    /// Statics and thread locals some path stores to.
    pub globals_written: std::collections::BTreeSet<String>,
    work: Vec<State>,
    cache: HashMap<(u32, E), Decision, FxB>,
    alpha: HashMap<(u32, u32), Option<u64>, FxB>,
    interned: HashMap<(Vec<u32>, Vec<E>), Rc<Part>, FxB>,
    pub stats: Stats,
    pub violations: Vec<Violation>,
    pub errors: Vec<String>,
    /// Paths given up, with a model of the path so far.
    pub lost: Vec<Violation>,
    /// States left when the budget was used up.
    pub pending: u64,
    pub samples: Vec<Sample>,
    pub reached: BTreeMap<u64, u64>,
    pub funcs_run: BTreeSet<u32>,
    pub lim: Limits,
    pub complete: bool,
    pub concrete: Option<Vec<u64>>,
    specials: Vec<u8>,
    rng: u64,
}

type X<T> = Result<T, End>;

fn err<T>(s: impl Into<String>) -> X<T> {
    Err(End::Error(s.into()))
}

const PANICS: &[&str] = &[
    "9panicking",
    "16slice_error_fail",
    "13unwrap_failed",
    "13expect_failed",
    "18handle_alloc_error",
    "17capacity_overflow",
    "12handle_error",
    "rust_begin_unwind",
    "16slice_index_fail",
    "rust_panic",
    "begin_panic",
];

impl Engine {
    pub fn new(m: Module, lim: Limits, z3_timeout: u32) -> Engine {
        let ng = m.next_obj as usize;
        let specials = m.funcs.iter().map(|f| Self::classify(&f.name, f.body.is_some())).collect();
        Engine {
            m,
            a: Arena::new(),
            z: Z3::new(z3_timeout),
            gbase: vec![None; ng],
            globals_written: Default::default(),
            work: vec![],
            cache: HashMap::default(),
            interned: HashMap::default(),
            alpha: HashMap::default(),
            stats: Stats::default(),
            violations: vec![],
            errors: vec![],
            lost: vec![],
            pending: 0,
            samples: vec![],
            reached: BTreeMap::new(),
            funcs_run: BTreeSet::new(),
            lim,
            complete: true,
            concrete: None,
            specials,
            rng: 0x9E3779B97F4A7C15,
        }
    }
    /// 0 = interpret, 1 = panic entry, 2 = builtin
    fn classify(n: &str, has_body: bool) -> u8 {
        if n.starts_with("llvm.") || n.starts_with("vp_") {
            return 2;
        }
        if matches!(n, "malloc" | "free" | "realloc" | "calloc" | "posix_memalign" | "memcmp" | "bcmp" | "memcpy" | "memmove" | "memset" | "strlen" | "abort") {
            return 2;
        }
        if PANICS.iter().any(|p| n.contains(p)) {
            return 1;
        }
        if !has_body {
            return 2;
        }
        0
    }

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let fid = *self.m.fmap.get(entry).ok_or_else(|| format!("no function {}", entry))?;
        let f = self.m.func(fid)?;
        self.funcs_run.insert(fid);
        let st = State {
            top: Frame {
                regs: vec![Val::I(0); f.nregs as usize],
                func: f,
                block: 0,
                ip: 0,
                ret: None,
                allocas: vec![],
            },
            below: vec![],
            mem: vec![],
            next_obj: self.m.next_obj,
            parts: vec![],
            nvars: 0,
            outs: vec![],
            steps: 0,
            forks: 0,
            text: None,
        };
        self.work.push(st);
        if self.lim.nshards > 1 {
            self.deal()?;
        }
        while let Some(st) = self.work.pop() {
            if self.violations.len() >= self.lim.max_violations {
                self.complete = false;
                break;
            }
            if std::time::Instant::now() > self.lim.deadline || self.stats.paths >= self.lim.max_paths {
                self.complete = false;
                self.pending = self.work.len() as u64 + 1;
                break;
            }
            self.run_path(st);
            if self.lost.len() >= 20 {
                self.complete = false;
                self.pending = self.work.len() as u64;
                break;
            }
        }
        Ok(())
    }

    /// Divide the paths among the shards: all shards run the same first paths
    /// (only the first shard counts them), until there are enough pending
    /// states to deal out.
    fn deal(&mut self) -> Result<(), String> {
        let mut q: std::collections::VecDeque<State> = self.work.drain(..).collect();
        let want = 24 * self.lim.nshards as usize;
        while q.len() < want {
            let st = match q.pop_front() {
                Some(s) => s,
                None => break,
            };
            self.run_path(st);
            q.extend(self.work.drain(..));
            if self.lost.len() >= 20 || self.violations.len() >= self.lim.max_violations {
                self.complete = false;
                return Ok(());
            }
            if std::time::Instant::now() > self.lim.deadline {
                break;
            }
        }
        if self.lim.shard != 0 {
            self.stats = Stats::default();
            self.samples.clear();
        }
        let (i, n) = (self.lim.shard as usize, self.lim.nshards as usize);
        self.work = q.into_iter().enumerate().filter(|(k, _)| k % n == i).map(|(_, s)| s).collect();
        Ok(())
    }

    fn run_path(&mut self, mut st: State) {
        let start = st.steps;
        let end = loop {
            let fl = self.step(&mut st);
            match fl {
                Ok(Flow::Next) => st.top.ip += 1,
                Ok(Flow::Jump) => {}
                Ok(Flow::End(e)) => break e,
                Err(e) => break e,
            }
            st.steps += 1;
            if st.steps & 0xfffff == 0 && std::time::Instant::now() > self.lim.deadline {
                break End::Error("deadline inside a path".into());
            }
            if st.steps > self.lim.max_steps_path {
                let v = self.violation(&st, "hang", 0, None);
                self.violations.push(v);
                break End::Infeasible;
            }
        };
        self.stats.steps += st.steps - start;
        self.stats.max_steps = self.stats.max_steps.max(st.steps);
        self.stats.max_vars = self.stats.max_vars.max(st.nvars);
        match end {
            End::Done => {
                self.stats.paths += 1;
                self.sample(&st);
            }
            End::Infeasible => self.stats.infeasible += 1,
            End::Panic(n) => {
                self.stats.paths += 1;
                self.stats.panics += 1;
                let mut v = self.violation(&st, "panic", 0, None);
                v.stack.insert(0, n);
                self.violations.push(v);
            }
            End::Error(s) => {
                self.complete = false;
                let mut v = self.violation(&st, "lost", 0, None);
                v.stack.insert(0, s);
                self.lost.push(v);
            }
        }
    }

    fn sample(&mut self, st: &State) {
        // reservoir sampling of completed paths, for native cross-validation
        let k = self.lim.samples;
        if k == 0 {
            return;
        }
        let vars = self.full_model(st, None);
        let text = self.text_of(st, &vars);
        let s = Sample {
            vars,
            outs: st.outs.clone(),
            text,
        };
        if self.samples.len() < k {
            self.samples.push(s);
        } else {
            self.rng ^= self.rng << 13;
            self.rng ^= self.rng >> 7;
            self.rng ^= self.rng << 17;
            let j = (self.rng % self.stats.paths) as usize;
            if j < k {
                self.samples[j] = s;
            }
        }
    }

    fn full_model(&self, st: &State, over: Option<&[(u32, u64)]>) -> Vec<u64> {
        let mut v = vec![0u64; st.nvars as usize];
        for p in &st.parts {
            for (i, x) in &p.model {
                v[*i as usize] = *x;
            }
        }
        if let Some(o) = over {
            for (i, x) in o {
                v[*i as usize] = *x;
            }
        }
        v
    }
    fn text_of(&mut self, st: &State, vars: &[u64]) -> Vec<u8> {
        let mut out = vec![];
        if let Some((p, n)) = st.text {
            if let Ok(bs) = self.bytes_at(st, p, n) {
                for b in bs {
                    match b {
                        Ok(c) => out.push(c),
                        Err(e) => out.push(self.a.eval(e, &|i| vars.get(i as usize).copied().unwrap_or(0) as u128) as u8),
                    }
                }
            }
        }
        out
    }
    fn violation(&mut self, st: &State, kind: &str, code: u64, over: Option<&[(u32, u64)]>) -> Violation {
        let vars = self.full_model(st, over);
        let text = self.text_of(st, &vars);
        let mut stack = vec![st.top.func.name.clone()];
        for f in st.below.iter().rev().take(12) {
            stack.push(f.func.name.clone());
        }
        Violation {
            kind: kind.into(),
            code,
            vars,
            text,
            stack,
        }
    }

    // ---- solver ----

    /// The part with exactly these variables and constraints; `model` satisfies them.
    fn intern(&mut self, vars: Vec<u32>, cons: Vec<E>, model: Vec<(u32, u64)>) -> Rc<Part> {
        let id = self.interned.len() as u32;
        let key = (vars, cons);
        if let Some(p) = self.interned.get(&key) {
            return p.clone();
        }
        let p = Rc::new(Part {
            id,
            vars: key.0.clone(),
            cons: key.1.clone(),
            model,
        });
        self.interned.insert(key, p.clone());
        p
    }
    /// The constraints relevant to `e`: the part, or the merge of the parts, of its variables.
    fn slice(&mut self, st: &State, e: E) -> Rc<Part> {
        let vs = self.a.vars_of(e);
        if vs.is_empty() {
            return self.intern(vec![], vec![], vec![]);
        }
        let first = &st.parts[vs[0] as usize];
        if vs.iter().all(|v| Rc::ptr_eq(&st.parts[*v as usize], first)) {
            return first.clone();
        }
        let mut seen: Vec<u32> = vec![];
        let mut vars = vec![];
        let mut cons = vec![];
        let mut model = vec![];
        for v in vs.iter() {
            let p = &st.parts[*v as usize];
            if !seen.contains(&p.id) {
                seen.push(p.id);
                vars.extend_from_slice(&p.vars);
                cons.extend_from_slice(&p.cons);
                model.extend_from_slice(&p.model);
            }
        }
        vars.sort_unstable();
        cons.sort_unstable();
        cons.dedup();
        model.sort_unstable();
        self.intern(vars, cons, model)
    }
    fn lookup(p: &Part, i: u32) -> u128 {
        p.model.binary_search_by_key(&i, |x| x.0).map(|k| p.model[k].1 as u128).unwrap_or(0)
    }
    /// Solver verdict on `part and extra`: a model, or None if unsatisfiable.
    fn query(&mut self, p: &Part, extra: E) -> X<Option<Vec<(u32, u64)>>> {
        let mut key: Vec<E> = Vec::with_capacity(p.cons.len() + 1);
        key.extend_from_slice(&p.cons);
        key.push(extra);
        let vw: Vec<(u8, u32)> = p.vars.iter().map(|v| (8u8, *v)).collect();
        let r = match self.z.check(&self.a, &key, &vw) {
            Ok(r) => r,
            Err(e) => return err(e),
        };
        if let Some(m) = &r {
            // the model is re-checked by evaluation
            let mm: HashMap<u32, u64> = m.iter().copied().collect();
            for c in key.iter() {
                if self.a.eval(*c, &|i| *mm.get(&i).unwrap_or(&0) as u128) != 1 {
                    return err("model does not satisfy the query");
                }
            }
        }
        Ok(r.map(|mut m| {
            m.sort_unstable();
            m
        }))
    }
    fn set_part(st: &mut State, p: &Rc<Part>) {
        for v in p.vars.iter() {
            st.parts[*v as usize] = p.clone();
        }
    }
    fn with(&mut self, p: &Part, e: E, model: Vec<(u32, u64)>) -> Rc<Part> {
        let mut c = p.cons.clone();
        let mut e = self.a.canon(e);
        if let Some((_, v)) = self.a.as_set(e) {
            // at most one condition per byte is kept
            for k in 0..c.len() {
                if matches!(self.a.as_set(c[k]), Some((_, w)) if w == v) {
                    if let Some(n) = self.a.set_and(c[k], e) {
                        e = n;
                        c.remove(k);
                        break;
                    }
                }
            }
        }
        match c.binary_search(&e) {
            Ok(_) => {}
            Err(i) => c.insert(i, e),
        }
        self.intern(p.vars.clone(), c, model)
    }
    fn decision(&mut self, p: &Rc<Part>, e: E) -> X<Decision> {
        if let Some(v) = self.a.get_const(e) {
            return Ok(Decision::Forced(v == 1));
        }
        if let Some(d) = self.cache.get(&(p.id, e)) {
            self.stats.cache_hits += 1;
            return Ok(d.clone());
        }
        if p.vars.len() > 1 {
            self.stats.model_hits += 1;
        }
        // the part's own model witnesses one side; the solver decides the other
        let b0 = self.a.eval(e, &|i| Self::lookup(p, i)) == 1;
        let ne = self.a.not(e);
        let ne = self.a.canon(ne);
        let (same, other) = if b0 { (e, ne) } else { (ne, e) };
        // a question about one byte is the same question for every other byte
        let alpha = if p.vars.len() == 1 && p.cons.len() <= 1 {
            let t = self.a.set_table(other);
            let c = p.cons.first().map(|c| self.a.set_table(*c));
            match (c, t) {
                (None, Some(t)) => Some((u32::MAX, t)),
                (Some(Some(c)), Some(t)) => Some((c, t)),
                _ => None,
            }
        } else {
            None
        };
        let known = alpha.and_then(|k| self.alpha.get(&k).copied());
        let verdict = match known {
            Some(r) => {
                self.stats.alpha_hits += 1;
                r.map(|x| vec![(p.vars[0], x)])
            }
            None => {
                let r = self.query(p, other)?;
                if let Some(k) = alpha {
                    self.alpha.insert(k, r.as_ref().map(|m| m[0].1));
                }
                r
            }
        };
        let d = match verdict {
            None => Decision::Forced(b0),
            Some(m2) => {
                let po = self.with(p, other, m2);
                let ps = self.with(p, same, p.model.clone());
                if b0 {
                    Decision::Both(ps, po)
                } else {
                    Decision::Both(po, ps)
                }
            }
        };
        self.cache.insert((p.id, e), d.clone());
        Ok(d)
    }
    /// Decide a width-1 expression: returns the forced value, or both sides
    /// (the second state carries the other side).
    fn decide(&mut self, st: &mut State, e: E) -> X<(bool, Option<State>)> {
        if let Some(v) = self.a.get_const(e) {
            return Ok((v == 1, None));
        }
        self.stats.branch_sym += 1;
        let e = self.a.canon(e);
        if let Some(v) = self.a.get_const(e) {
            return Ok((v == 1, None));
        }
        let p = self.slice(st, e);
        match self.decision(&p, e)? {
            Decision::Forced(b) => Ok((b, None)),
            Decision::Both(pt, pf) => {
                let mut st2 = st.clone();
                st2.forks += 1;
                self.stats.forks += 1;
                Self::set_part(st, &pt);
                Self::set_part(&mut st2, &pf);
                Ok((true, Some(st2)))
            }
        }
    }
    /// Concrete value of an expression; remaining values are queued as forks
    /// that re-execute the current instruction.
    fn concretize(&mut self, st: &mut State, v: &Val, w: u8) -> X<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::W(x) => Ok(**x as u64),
            Val::A(_) => err("aggregate as scalar"),
            Val::S(e) => {
                let e = *e;
                let p = self.slice(st, e);
                let x = self.a.eval(e, &|i| Self::lookup(&p, i));
                let k = self.a.konst(w, x);
                let c = self.a.cmp(Cop::Eq, e, k);
                let (b, other) = self.decide(st, c)?;
                if !b {
                    return err("concretize");
                }
                if let Some(o) = other {
                    self.work.push(o);
                }
                Ok(x as u64)
            }
        }
    }

    // ---- values ----

    #[inline]
    fn get(&self, st: &State, o: &Op) -> Val {
        match o {
            Op::R(i) => st.top.regs[*i as usize].clone(),
            Op::K(v) => v.clone(),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: Val) {
        st.top.regs[d as usize] = v;
    }
    fn e_of(&mut self, v: &Val, w: u8) -> E {
        match v {
            Val::I(x) => self.a.konst(w, *x as u128),
            Val::W(x) => self.a.konst(w, **x),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate"),
        }
    }
    fn v_of(&self, e: E) -> Val {
        match self.a.get_const(e) {
            Some(v) => Self::vk(self.a.w(e), v),
            None => Val::S(e),
        }
    }
    fn vk(w: u8, v: u128) -> Val {
        if w <= 64 {
            Val::I(v as u64)
        } else {
            Val::W(Rc::new(v))
        }
    }
    fn kv(v: &Val) -> Option<u128> {
        match v {
            Val::I(x) => Some(*x as u128),
            Val::W(x) => Some(**x),
            _ => None,
        }
    }
    fn binop(&mut self, op: Bop, w: u8, x: &Val, y: &Val) -> X<Val> {
        if let (Val::I(a), Val::I(b)) = (x, y) {
            if w <= 64 {
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                match op {
                    Bop::Add => return Ok(Val::I(a.wrapping_add(*b) & m)),
                    Bop::Sub => return Ok(Val::I(a.wrapping_sub(*b) & m)),
                    Bop::And => return Ok(Val::I(a & b)),
                    Bop::Or => return Ok(Val::I(a | b)),
                    Bop::Xor => return Ok(Val::I(a ^ b)),
                    _ => {}
                }
            }
        }
        if let (Some(a), Some(b)) = (Self::kv(x), Self::kv(y)) {
            return match bin_const(op, w, a, b) {
                Some(v) => Ok(Self::vk(w, v)),
                None => err("division by zero"),
            };
        }
        // a symbolic divisor is never zero: rustc guards every division with a branch
        let (a, b) = (self.e_of(x, w), self.e_of(y, w));
        let e = self.a.bin(op, a, b);
        Ok(self.v_of(e))
    }
    fn icmp(&mut self, op: Cop, neg: bool, w: u8, x: &Val, y: &Val) -> X<Val> {
        if let (Some(a), Some(b)) = (Self::kv(x), Self::kv(y)) {
            return Ok(Val::I((cmp_const(op, w, a, b) ^ neg) as u64));
        }
        let (a, b) = (self.e_of(x, w), self.e_of(y, w));
        let mut e = self.a.cmp(op, a, b);
        if neg {
            e = self.a.not(e);
        }
        Ok(self.v_of(e))
    }
    fn cast(&mut self, k: &Cast, w1: u8, w2: u8, x: &Val) -> X<Val> {
        if let Some(a) = Self::kv(x) {
            let v = match k {
                Cast::Trunc => a & mask(w2),
                Cast::ZExt | Cast::Bit => a,
                Cast::SExt => sext(a, w1) as u128 & mask(w2),
            };
            return Ok(Self::vk(w2, v));
        }
        let a = self.e_of(x, w1);
        let e = match k {
            Cast::Trunc => self.a.extract(a, 0, w2),
            Cast::ZExt => self.a.zext(a, w2),
            Cast::SExt => self.a.sext(a, w2),
            Cast::Bit => a,
        };
        Ok(self.v_of(e))
    }

    // ---- memory ----

    fn obj(&mut self, st: &State, id: u32) -> X<Rc<Obj>> {
        match st.mem.binary_search_by_key(&id, |x| x.0) {
            Ok(i) => Ok(st.mem[i].1.clone()),
            Err(_) => {
                if (id as usize) < self.gbase.len() && id > 0 {
                    if self.gbase[id as usize].is_none() {
                        let g = &self.m.globals[id as usize - 1];
                        let d = match self.m.global_bytes(g) {
                            Ok(d) => d,
                            Err(e) => return err(e),
                        };
                        self.gbase[id as usize] = Some(Rc::new(Obj {
                            data: d,
                            sym: vec![],
                            ro: g.constant,
                        }));
                    }
                    Ok(self.gbase[id as usize].clone().unwrap())
                } else {
                    err(format!("invalid or dead object {:#x}", id))
                }
            }
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, zero: bool) -> X<u64> {
        if size > 1 << 28 {
            return err("huge allocation");
        }
        let _ = zero;
        let id = st.next_obj;
        st.next_obj += 1;
        st.mem.push((
            id,
            Rc::new(Obj {
                data: vec![0; size as usize],
                sym: vec![],
                ro: false,
            }),
        ));
        Ok((id as u64) << 32)
    }
    fn dealloc(&mut self, st: &mut State, id: u32) -> X<()> {
        match st.mem.binary_search_by_key(&id, |x| x.0) {
            Ok(i) => {
                st.mem.remove(i);
                Ok(())
            }
            Err(_) => err("free of an invalid object"),
        }
    }
    fn split(addr: u64) -> (u32, u64) {
        ((addr >> 32) as u32, addr & 0xffff_ffff)
    }
    fn bytes_at(&mut self, st: &State, addr: u64, n: u64) -> X<Vec<Result<u8, E>>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (id, off) = Self::split(addr);
        let o = self.obj(st, id)?;
        if off + n > o.data.len() as u64 {
            return err(format!("out-of-bounds read of {} at {}+{} (size {})", n, id, off, o.data.len()));
        }
        let mut v = Vec::with_capacity(n as usize);
        for i in off as usize..(off + n) as usize {
            if !o.sym.is_empty() && o.sym[i] != 0 {
                v.push(Err(o.sym[i]));
            } else {
                v.push(Ok(o.data[i]));
            }
        }
        Ok(v)
    }
    fn obj_mut<'s>(&mut self, st: &'s mut State, id: u32) -> X<&'s mut Obj> {
        let i = match st.mem.binary_search_by_key(&id, |x| x.0) {
            Ok(i) => i,
            Err(i) => {
                let o = self.obj(st, id)?; // global: copy into the state
                if o.ro {
                    return err("write to constant memory");
                }
                st.mem.insert(i, (id, o));
                let name = &self.m.globals[id as usize - 1].name;
                if !self.globals_written.contains(name) {
                    self.globals_written.insert(name.clone());
                }
                i
            }
        };
        Ok(Rc::make_mut(&mut st.mem[i].1))
    }
    fn write_bytes(&mut self, st: &mut State, addr: u64, bs: &[Result<u8, E>]) -> X<()> {
        if bs.is_empty() {
            return Ok(());
        }
        let (id, off) = Self::split(addr);
        let o = self.obj_mut(st, id)?;
        if o.ro {
            return err("write to constant memory");
        }
        if off as usize + bs.len() > o.data.len() {
            return err(format!("out-of-bounds write of {} at {}+{} (size {})", bs.len(), id, off, o.data.len()));
        }
        for (k, b) in bs.iter().enumerate() {
            let i = off as usize + k;
            match b {
                Ok(c) => {
                    o.data[i] = *c;
                    if !o.sym.is_empty() {
                        o.sym[i] = 0;
                    }
                }
                Err(e) => {
                    if o.sym.is_empty() {
                        o.sym = vec![0; o.data.len()];
                    }
                    o.sym[i] = *e;
                }
            }
        }
        Ok(())
    }
    fn load_scalar(&mut self, st: &State, addr: u64, bits: u32) -> X<Val> {
        let n = ((bits + 7) / 8) as u64;
        let (id, off) = Self::split(addr);
        // fast path
        let o = match st.mem.binary_search_by_key(&id, |x| x.0) {
            Ok(i) => st.mem[i].1.clone(),
            Err(_) => self.obj(st, id)?,
        };
        if off + n > o.data.len() as u64 {
            return err(format!("out-of-bounds read of {} at {:#x}+{} (size {})", n, id, off, o.data.len()));
        }
        let r = off as usize..(off + n) as usize;
        if o.sym.is_empty() || o.sym[r.clone()].iter().all(|x| *x == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n as usize].copy_from_slice(&o.data[r]);
                let mut x = u64::from_le_bytes(b);
                if bits < 64 {
                    x &= (1u64 << bits) - 1;
                }
                return Ok(Val::I(x));
            }
            if n <= 16 {
                let mut b = [0u8; 16];
                b[..n as usize].copy_from_slice(&o.data[r]);
                return Ok(Val::W(Rc::new(u128::from_le_bytes(b) & mask(bits as u8))));
            }
            return err("wide load");
        }
        if n > 16 {
            return err("wide load");
        }
        let mut e: Option<E> = None;
        for i in r {
            let b = if o.sym[i] != 0 { o.sym[i] } else { self.a.konst(8, o.data[i] as u128) };
            e = Some(match e {
                None => b,
                Some(lo) => self.a.concat(b, lo),
            });
        }
        let mut e = e.unwrap();
        if self.a.w(e) as u32 > bits {
            e = self.a.extract(e, 0, bits as u8);
        }
        Ok(self.v_of(e))
    }
    fn store_scalar(&mut self, st: &mut State, addr: u64, bits: u32, v: &Val) -> X<()> {
        let n = ((bits + 7) / 8) as usize;
        if let Val::I(x) = v {
            if n <= 8 {
                let (id, off) = Self::split(addr);
                let o = self.obj_mut(st, id)?;
                if o.ro {
                    return err("write to constant memory");
                }
                let off = off as usize;
                if off + n > o.data.len() {
                    return err(format!("out-of-bounds write of {} at {:#x}+{} (size {})", n, id, off, o.data.len()));
                }
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    o.sym[off..off + n].iter_mut().for_each(|x| *x = 0);
                }
                return Ok(());
            }
        }
        let mut bs = Vec::with_capacity(n);
        match v {
            Val::I(_) | Val::W(_) => {
                let x = Self::kv(v).unwrap();
                for b in &x.to_le_bytes()[..n] {
                    bs.push(Ok(*b));
                }
            }
            Val::S(e) => {
                let mut e = *e;
                if (bits as usize) < n * 8 {
                    e = self.a.zext(e, (n * 8) as u8);
                }
                for i in 0..n {
                    let b = self.a.extract(e, (i * 8) as u8, 8);
                    bs.push(match self.a.get_const(b) {
                        Some(c) => Ok(c as u8),
                        None => Err(b),
                    });
                }
            }
            Val::A(_) => return err("aggregate scalar store"),
        }
        self.write_bytes(st, addr, &bs)
    }
    fn load(&mut self, st: &State, addr: u64, t: &Ty) -> X<Val> {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F(_) => self.load_scalar(st, addr, t.bits()),
            Ty::Arr(n, _) | Ty::Vec(n, _) => {
                let mut v = vec![];
                for i in 0..*n {
                    let (o, ft) = t.field_off(i as usize);
                    v.push(self.load(st, addr + o, &ft)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() {
                    let (o, ft) = t.field_off(i);
                    v.push(self.load(st, addr + o, &ft)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => err("load type"),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, t: &Ty, v: &Val) -> X<()> {
        match (t, v) {
            (Ty::Int(_) | Ty::Ptr | Ty::F(_), _) => self.store_scalar(st, addr, t.bits(), v),
            (_, Val::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    let (o, ft) = t.field_off(i);
                    self.store(st, addr + o, &ft, x)?;
                }
                Ok(())
            }
            _ => err("store type"),
        }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (sid, so) = Self::split(s);
        let src = self.obj(st, sid)?;
        let (so, n) = (so as usize, n as usize);
        if so + n > src.data.len() {
            return err("out-of-bounds copy source");
        }
        let (did, dof) = Self::split(d);
        let dof = dof as usize;
        let dst = self.obj_mut(st, did)?;
        if dst.ro || dof + n > dst.data.len() {
            return err("out-of-bounds copy destination");
        }
        dst.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        if !src.sym.is_empty() {
            if dst.sym.is_empty() {
                dst.sym = vec![0; dst.data.len()];
            }
            dst.sym[dof..dof + n].copy_from_slice(&src.sym[so..so + n]);
        } else if !dst.sym.is_empty() {
            dst.sym[dof..dof + n].iter_mut().for_each(|x| *x = 0);
        }
        Ok(())
    }

    // ---- control ----

    fn jump(&mut self, st: &mut State, to: u32) -> X<()> {
        let f = st.top.func.clone();
        let b = &f.blocks[to as usize];
        let from = st.top.block;
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = inc.iter().find(|x| x.0 == from);
                match o {
                    Some((_, o)) => vals.push((*d, self.get(st, o))),
                    None => return err("phi without incoming value"),
                }
            }
            for (d, v) in vals {
                st.top.regs[d as usize] = v;
            }
        }
        st.top.block = to;
        st.top.ip = 0;
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> X<Flow> {
        let f = st.top.func.clone();
        let inst = match f.blocks[st.top.block as usize].insts.get(st.top.ip as usize) {
            Some(i) => i,
            None => return err("fell off a block"),
        };
        match inst {
            Inst::Bin(d, op, w, x, y) => {
                let (x, y) = (self.get(st, x), self.get(st, y));
                let v = self.binop(*op, *w, &x, &y)?;
                self.set(st, *d, v);
            }
            Inst::Icmp(d, op, neg, w, x, y) => {
                let (x, y) = (self.get(st, x), self.get(st, y));
                let v = self.icmp(*op, *neg, *w, &x, &y)?;
                self.set(st, *d, v);
            }
            Inst::Cast(d, k, w1, w2, x) => {
                let mut x = self.get(st, x);
                if let (1, true, Val::S(e)) = (*w1, *w2 > 8, &x) {
                    // a flag that becomes part of a position or length: use its value if it is forced
                    let e = self.a.canon(*e);
                    let p = self.slice(st, e);
                    if let Decision::Forced(b) = self.decision(&p, e)? {
                        x = Val::I(b as u64);
                    }
                }
                let v = self.cast(k, *w1, *w2, &x)?;
                self.set(st, *d, v);
            }
            Inst::VBin(d, op, w, x, y) => {
                let (x, y) = (self.get(st, x), self.get(st, y));
                match (&x, &y) {
                    (Val::A(a), Val::A(b)) => {
                        let mut r = vec![];
                        for (p, q) in a.iter().zip(b.iter()) {
                            r.push(self.binop(*op, *w, p, q)?);
                        }
                        self.set(st, *d, Val::A(Rc::new(r)));
                    }
                    _ => return err("vector operand"),
                }
            }
            Inst::VIcmp(d, op, neg, w, x, y) => {
                let (x, y) = (self.get(st, x), self.get(st, y));
                match (&x, &y) {
                    (Val::A(a), Val::A(b)) => {
                        let mut r = vec![];
                        for (p, q) in a.iter().zip(b.iter()) {
                            r.push(self.icmp(*op, *neg, *w, p, q)?);
                        }
                        self.set(st, *d, Val::A(Rc::new(r)));
                    }
                    _ => return err("vector operand"),
                }
            }
            Inst::VCast(d, k, w1, w2, x) => {
                let x = self.get(st, x);
                match &x {
                    Val::A(a) => {
                        let mut r = vec![];
                        for p in a.iter() {
                            r.push(self.cast(k, *w1, *w2, p)?);
                        }
                        self.set(st, *d, Val::A(Rc::new(r)));
                    }
                    _ => return err("vector operand"),
                }
            }
            Inst::BitcastAgg(d, t1, t2, x) => {
                let x = self.get(st, x);
                // vector <-> scalar through little-endian bits
                let flat = match (t1, &x) {
                    (Ty::Vec(_, e), Val::A(vs)) => {
                        let w = e.bits() as u8;
                        let mut acc: Option<E> = None;
                        for v in vs.iter() {
                            let e = self.e_of(v, w);
                            acc = Some(match acc {
                                None => e,
                                Some(lo) => self.a.concat(e, lo),
                            });
                        }
                        acc.unwrap()
                    }
                    (t, v) if t.is_scalar() => self.e_of(v, t.bits() as u8),
                    _ => return err("bitcast"),
                };
                let r = match t2 {
                    Ty::Vec(n, e) => {
                        let w = e.bits() as u8;
                        let mut vs = vec![];
                        for i in 0..*n {
                            let x = self.a.extract(flat, i as u8 * w, w);
                            vs.push(self.v_of(x));
                        }
                        Val::A(Rc::new(vs))
                    }
                    _ => self.v_of(flat),
                };
                self.set(st, *d, r);
            }
            Inst::Select(d, t, c, x, y) => {
                let c = self.get(st, c);
                let (x, y) = (self.get(st, x), self.get(st, y));
                match c {
                    Val::I(k) => self.set(st, *d, if k & 1 == 1 { x } else { y }),
                    Val::S(e) => {
                        if matches!(t, Ty::Int(_)) {
                            let w = t.bits() as u8;
                            if w > 8 {
                                let e = self.a.canon(e);
                                let p = self.slice(st, e);
                                if let Decision::Forced(b) = self.decision(&p, e)? {
                                    self.set(st, *d, if b { x } else { y });
                                    return Ok(Flow::Next);
                                }
                            }
                            let (p, q) = (self.e_of(&x, w), self.e_of(&y, w));
                            let r = self.a.ite(e, p, q);
                            let v = self.v_of(r);
                            self.set(st, *d, v);
                        } else {
                            let (b, other) = self.decide(st, e)?;
                            if let Some(mut o) = other {
                                o.top.regs[*d as usize] = if b { y.clone() } else { x.clone() };
                                o.top.ip += 1;
                                self.work.push(o);
                            }
                            self.set(st, *d, if b { x } else { y });
                        }
                    }
                    _ => return err("select condition"),
                }
            }
            Inst::Load(d, t, p) => {
                let p = self.get(st, p);
                if let Val::S(pe) = p {
                    // symbolic index into constant bytes: table lookup
                    if let Some(v) = self.table_load(st, pe, t)? {
                        self.set(st, *d, v);
                        return Ok(Flow::Next);
                    }
                }
                let a = self.concretize(st, &p, 64)?;
                let v = self.load(st, a, t)?;
                self.set(st, *d, v);
            }
            Inst::Store(t, v, p) => {
                let p = self.get(st, p);
                let a = self.concretize(st, &p, 64)?;
                let v = self.get(st, v);
                self.store(st, a, t, &v)?;
            }
            Inst::Gep(d, base, off, idx) => {
                let b = self.get(st, base);
                if let (Val::I(x), true) = (&b, idx.is_empty()) {
                    self.set(st, *d, Val::I(x.wrapping_add(*off as u64)));
                    return Ok(Flow::Next);
                }
                let mut cur = self.binop(Bop::Add, 64, &b, &Val::I(*off as u64))?;
                for (o, w, scale) in idx {
                    let i = self.get(st, o);
                    let i = if *w < 64 { self.cast(&Cast::SExt, *w, 64, &i)? } else { i };
                    let s = if *scale == 1 { i } else { self.binop(Bop::Mul, 64, &i, &Val::I(*scale as u64))? };
                    cur = self.binop(Bop::Add, 64, &cur, &s)?;
                }
                self.set(st, *d, cur);
            }
            Inst::Alloca(d, sz, n) => {
                let n = self.get(st, n);
                let n = self.concretize(st, &n, 64)?;
                let a = self.alloc(st, sz * n, false)?;
                st.top.allocas.push((a >> 32) as u32);
                self.set(st, *d, Val::I(a));
            }
            Inst::ExtractV(d, x, ix) => {
                let mut v = self.get(st, x);
                for i in ix {
                    v = match &v {
                        Val::A(a) => a[*i as usize].clone(),
                        _ => return err("extractvalue"),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::InsertV(d, x, y, ix) => {
                let v = self.get(st, x);
                let y = self.get(st, y);
                fn ins(v: Val, ix: &[u32], y: Val) -> Option<Val> {
                    if ix.is_empty() {
                        return Some(y);
                    }
                    match v {
                        Val::A(a) => {
                            let mut a2 = (*a).clone();
                            let o = a2[ix[0] as usize].clone();
                            a2[ix[0] as usize] = ins(o, &ix[1..], y)?;
                            Some(Val::A(Rc::new(a2)))
                        }
                        _ => None,
                    }
                }
                match ins(v, ix, y) {
                    Some(r) => self.set(st, *d, r),
                    None => return err("insertvalue"),
                }
            }
            Inst::ExtractE(d, x, i) => {
                let i = self.get(st, i);
                let i = self.concretize(st, &i, 64)?;
                match self.get(st, x) {
                    Val::A(a) => {
                        let v = a[i as usize].clone();
                        self.set(st, *d, v)
                    }
                    _ => return err("extractelement"),
                }
            }
            Inst::InsertE(d, x, y, i) => {
                let i = self.get(st, i);
                let i = self.concretize(st, &i, 64)?;
                let y = self.get(st, y);
                match self.get(st, x) {
                    Val::A(a) => {
                        let mut a2 = (*a).clone();
                        a2[i as usize] = y;
                        self.set(st, *d, Val::A(Rc::new(a2)))
                    }
                    _ => return err("insertelement"),
                }
            }
            Inst::Shuffle(d, x, y, ix) => match (self.get(st, x), self.get(st, y)) {
                (Val::A(a), Val::A(b)) => {
                    let r = ix.iter().map(|i| if (*i as usize) < a.len() { a[*i as usize].clone() } else { b[*i as usize - a.len()].clone() }).collect();
                    self.set(st, *d, Val::A(Rc::new(r)));
                }
                _ => return err("shuffle"),
            },
            Inst::Copy(d, x) => {
                let v = self.get(st, x);
                self.set(st, *d, v);
            }
            Inst::AtomicRmw(d, op, t, p, v) => {
                let p = self.get(st, p);
                let a = self.concretize(st, &p, 64)?;
                let old = self.load(st, a, t)?;
                let v = self.get(st, v);
                let w = t.bits() as u8;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => self.binop(Bop::Add, w, &old, &v)?,
                    "sub" => self.binop(Bop::Sub, w, &old, &v)?,
                    "and" => self.binop(Bop::And, w, &old, &v)?,
                    "or" => self.binop(Bop::Or, w, &old, &v)?,
                    "xor" => self.binop(Bop::Xor, w, &old, &v)?,
                    _ => return err("atomicrmw"),
                };
                self.store(st, a, t, &new)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg(d, t, p, c, n) => {
                let p = self.get(st, p);
                let a = self.concretize(st, &p, 64)?;
                let old = self.load(st, a, t)?;
                let (c, n) = (self.get(st, c), self.get(st, n));
                match (Self::kv(&old), Self::kv(&c)) {
                    (Some(x), Some(y)) => {
                        if x == y {
                            self.store(st, a, t, &n)?;
                        }
                        self.set(st, *d, Val::A(Rc::new(vec![old, Val::I((x == y) as u64)])));
                    }
                    _ => return err("symbolic cmpxchg"),
                }
            }
            Inst::Nop => {}
            Inst::Br(t) => {
                self.jump(st, *t)?;
                return Ok(Flow::Jump);
            }
            Inst::CondBr(c, t, e) => {
                match self.get(st, c) {
                    Val::I(k) => self.jump(st, if k & 1 == 1 { *t } else { *e })?,
                    Val::S(x) => {
                        let (b, other) = self.decide(st, x)?;
                        if let Some(mut o) = other {
                            self.jump(&mut o, if b { *e } else { *t })?;
                            self.work.push(o);
                        }
                        self.jump(st, if b { *t } else { *e })?;
                    }
                    _ => return err("branch condition"),
                }
                return Ok(Flow::Jump);
            }
            Inst::Switch(v, w, cs, def) => {
                match self.get(st, v) {
                    Val::I(k) => {
                        let to = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        self.jump(st, to)?;
                    }
                    Val::S(x) => {
                        // group case values by target; peel one target per decision
                        let mut targets: Vec<u32> = vec![];
                        for c in cs {
                            if !targets.contains(&c.1) && c.1 != *def {
                                targets.push(c.1);
                            }
                        }
                        for t in targets {
                            let mut cond = self.a.konst(1, 0);
                            for c in cs.iter().filter(|c| c.1 == t) {
                                let k = self.a.konst(*w, c.0 as u128);
                                let q = self.a.cmp(Cop::Eq, x, k);
                                cond = self.a.bin(Bop::Or, cond, q);
                            }
                            let (b, other) = self.decide(st, cond)?;
                            if let Some(mut o) = other {
                                if b {
                                    // o continues with the remaining targets: re-executes the switch
                                    self.work.push(o);
                                } else {
                                    self.jump(&mut o, t)?;
                                    self.work.push(o);
                                }
                            }
                            if b {
                                self.jump(st, t)?;
                                return Ok(Flow::Jump);
                            }
                        }
                        self.jump(st, *def)?;
                    }
                    _ => return err("switch operand"),
                }
                return Ok(Flow::Jump);
            }
            Inst::Ret(v) => {
                let v = v.as_ref().map(|o| self.get(st, o));
                if st.below.is_empty() {
                    return Ok(Flow::End(End::Done));
                }
                for id in std::mem::take(&mut st.top.allocas) {
                    // allocas are the newest objects in most cases
                    match st.mem.binary_search_by_key(&id, |x| x.0) {
                        Ok(i) => {
                            st.mem.remove(i);
                        }
                        Err(_) => return err("alloca vanished"),
                    }
                }
                let ret = st.top.ret;
                let caller = st.below.pop().unwrap();
                st.top = match Rc::try_unwrap(caller) {
                    Ok(f) => f,
                    Err(r) => (*r).clone(),
                };
                if let (Some(d), Some(v)) = (ret, v) {
                    st.top.regs[d as usize] = v;
                }
                // caller's ip still points at the call
                return Ok(Flow::Next);
            }
            Inst::Call(d, callee, args, rt) => return self.call(st, *d, callee, args, rt),
            Inst::Unreachable => return err(format!("reached `unreachable` in {}", f.name)),
            Inst::Unsupported(s) => return err(format!("unsupported: {}", s)),
        }
        Ok(Flow::Next)
    }

    /// Load of one byte at base+index where the object is concrete and the index symbolic and small.
    fn table_load(&mut self, st: &mut State, pe: E, t: &Ty) -> X<Option<Val>> {
        if !matches!(t, Ty::Int(8)) {
            return Ok(None);
        }
        let (i, base) = match self.a.nodes[pe as usize] {
            Node::Bin(Bop::Add, x, c) => match self.a.get_const(c) {
                Some(k) => (x, k as u64),
                None => return Ok(None),
            },
            _ => return Ok(None),
        };
        let idx = match self.a.nodes[i as usize] {
            Node::ZExt(x, _) if self.a.w(x) <= 8 => x,
            _ => return Ok(None),
        };
        let (id, off) = Self::split(base);
        let o = match self.obj(st, id) {
            Ok(o) => o,
            Err(_) => return Ok(None),
        };
        let off = off as usize;
        if off > o.data.len() || !o.sym.is_empty() {
            return Ok(None);
        }
        let n = 1usize << self.a.w(idx);
        let avail = o.data.len() - off;
        if avail < n {
            // in-bounds must be implied by the path condition
            let w = self.a.w(idx);
            let k = self.a.konst(w, avail as u128);
            let c = self.a.cmp(Cop::Ult, idx, k);
            let nc = self.a.not(c);
            if self.a.get_const(c) != Some(1) {
                let p = self.slice(st, nc);
                if !matches!(self.decision(&p, nc)?, Decision::Forced(false)) {
                    return Ok(None);
                }
            }
        }
        let tab: Vec<u8> = (0..n).map(|k| o.data.get(off + k).copied().unwrap_or(0)).collect();
        let idx8 = self.a.zext(idx, 8);
        let t = self.a.table(tab);
        let e = self.a.tbl(t, idx8);
        Ok(Some(self.v_of(e)))
    }

    fn call(&mut self, st: &mut State, d: Option<u32>, callee: &Callee, args: &[(Ty, Op)], rt: &Ty) -> X<Flow> {
        let fid = match callee {
            Callee::Direct(f) => *f,
            Callee::Indirect(o) => {
                let v = self.get(st, o);
                let a = self.concretize(st, &v, 64)?;
                let id = a >> 32;
                if id < FUNC_OBJ_BASE || a & 0xffff_ffff != 0 {
                    return err(format!("indirect call to {:#x}", a));
                }
                (id - FUNC_OBJ_BASE) as u32
            }
            Callee::Asm => {
                // empty `asm` barriers (black_box)
                if d.is_some() {
                    return err("inline asm with a result");
                }
                return Ok(Flow::Next);
            }
        };
        match self.specials[fid as usize] {
            1 => {
                let n = self.m.funcs[fid as usize].name.clone();
                return Ok(Flow::End(End::Panic(n)));
            }
            2 => return self.builtin(st, d, fid, args, rt),
            _ => {}
        }
        let mut vals = Vec::with_capacity(args.len());
        for (_, o) in args {
            vals.push(self.get(st, o));
        }
        let f = match self.m.func(fid) {
            Ok(f) => f,
            Err(e) => return err(e),
        };
        self.funcs_run.insert(fid);
        let mut regs = vec![Val::I(0); f.nregs as usize];
        for (p, v) in f.params.iter().zip(vals) {
            regs[*p as usize] = v;
        }
        if st.below.len() > 20000 {
            let mut v = self.violation(st, "hang", 1, None);
            v.stack.truncate(6);
            self.violations.push(v);
            return Ok(Flow::End(End::Infeasible));
        }
        let nf = Frame {
            func: f,
            block: 0,
            ip: 0,
            regs,
            ret: d,
            allocas: vec![],
        };
        let old = std::mem::replace(&mut st.top, nf);
        st.below.push(Rc::new(old));
        Ok(Flow::Jump)
    }

    fn fresh(&mut self, st: &mut State, lo: u64, hi: u64) -> X<E> {
        let i = st.nvars;
        st.nvars += 1;
        if let Some(c) = &self.concrete {
            let v = c.get(i as usize).copied().unwrap_or(lo);
            let p = self.intern(vec![], vec![], vec![]);
            st.parts.push(p);
            return Ok(self.a.konst(8, v as u128));
        }
        let e = self.a.var(8, i);
        let mut cons = vec![];
        if lo > 0 {
            let k = self.a.konst(8, lo as u128);
            let c = self.a.cmp(Cop::Ult, e, k);
            cons.push(self.a.not(c));
        }
        if hi < 255 {
            let k = self.a.konst(8, hi as u128 + 1);
            cons.push(self.a.cmp(Cop::Ult, e, k));
        }
        let mut p = self.intern(vec![i], vec![], vec![(i, lo)]);
        for c in cons {
            p = self.with(&p, c, vec![(i, lo)]);
        }
        st.parts.push(p);
        Ok(e)
    }

    fn builtin(&mut self, st: &mut State, d: Option<u32>, fid: u32, args: &[(Ty, Op)], rt: &Ty) -> X<Flow> {
        let name = self.m.funcs[fid as usize].name.clone();
        let mut av: Vec<Val> = Vec::with_capacity(args.len());
        for (_, o) in args {
            av.push(self.get(st, o));
        }
        macro_rules! conc {
            ($i:expr) => {{
                let v = av[$i].clone();
                let w = args[$i].0.bits() as u8;
                self.concretize(st, &v, w)?
            }};
        }
        macro_rules! ret {
            ($v:expr) => {{
                let v = $v;
                if let Some(d) = d {
                    self.set(st, d, v);
                }
                return Ok(Flow::Next);
            }};
        }
        if let Some(n) = name.strip_prefix("llvm.") {
            if n.starts_with("lifetime.") || n.starts_with("experimental.noalias") || n.starts_with("assume") || n.starts_with("dbg.") || n.starts_with("x86.sse2.pause") || n.starts_with("invariant.") || n.starts_with("prefetch") {
                return Ok(Flow::Next);
            }
            if n.starts_with("memcpy.") || n.starts_with("memmove.") {
                let (a, b, l) = (conc!(0), conc!(1), conc!(2));
                self.memcpy(st, a, b, l)?;
                return Ok(Flow::Next);
            }
            if n.starts_with("memset.") {
                let (a, l) = (conc!(0), conc!(2));
                let b = match &av[1] {
                    Val::I(x) => Ok(*x as u8),
                    Val::S(e) => Err(*e),
                    _ => return err("memset"),
                };
                let bs = vec![b; l as usize];
                self.write_bytes(st, a, &bs)?;
                return Ok(Flow::Next);
            }
            if n == "trap" || n == "debugtrap" || n == "ubsantrap" {
                return Ok(Flow::End(End::Panic("llvm.trap".into())));
            }
            if n.starts_with("expect.") || n.starts_with("ssa.copy") || n.starts_with("threadlocal.address") {
                ret!(av[0].clone());
            }
            if n.starts_with("is.constant") {
                ret!(Val::I(0));
            }
            if n.starts_with("load.relative") {
                let (p, o) = (conc!(0), conc!(1));
                let v = self.load_scalar(st, p.wrapping_add(o), 32)?;
                match v {
                    Val::I(x) => ret!(Val::I(p.wrapping_add(x as i32 as i64 as u64))),
                    _ => return err("load.relative"),
                }
            }
            if n.starts_with("objectsize") {
                ret!(Val::I(u64::MAX));
            }
            let w = match args.first().map(|a| &a.0) {
                Some(t) if t.is_scalar() => t.bits() as u8,
                _ => return err(format!("intrinsic {}", name)),
            };
            let base = n.split('.').collect::<Vec<_>>();
            match (base[0], base.get(1).copied().unwrap_or("")) {
                ("umax", _) | ("umin", _) | ("smax", _) | ("smin", _) => {
                    let op = if base[0].starts_with('u') { Cop::Ult } else { Cop::Slt };
                    let c = self.icmp(op, false, w, &av[0], &av[1])?;
                    let (x, y) = if base[0].ends_with("min") { (0, 1) } else { (1, 0) };
                    match c {
                        Val::I(k) => ret!(if k == 1 { av[x].clone() } else { av[y].clone() }),
                        Val::S(e) => {
                            let (p, q) = (self.e_of(&av[x], w), self.e_of(&av[y], w));
                            let r = self.a.ite(e, p, q);
                            ret!(self.v_of(r))
                        }
                        _ => return err("minmax"),
                    }
                }
                ("ucmp", _) | ("scmp", _) => {
                    let op = if base[0] == "ucmp" { Cop::Ult } else { Cop::Slt };
                    let wr = rt.bits() as u8;
                    let lt = self.icmp(op, false, w, &av[0], &av[1])?;
                    let eq = self.icmp(Cop::Eq, false, w, &av[0], &av[1])?;
                    let (lt, eq) = (self.e_of(&lt, 1), self.e_of(&eq, 1));
                    let (m1, z, p1) = (self.a.konst(wr, mask(wr)), self.a.konst(wr, 0), self.a.konst(wr, 1));
                    let r = self.a.ite(eq, z, p1);
                    let r = self.a.ite(lt, m1, r);
                    ret!(self.v_of(r))
                }
                ("uadd", "with") | ("usub", "with") | ("umul", "with") | ("sadd", "with") | ("ssub", "with") | ("smul", "with") => {
                    if w > 64 {
                        return err("wide overflow op");
                    }
                    let w2 = w * 2;
                    let signed = base[0].starts_with('s');
                    let op = match &base[0][1..] {
                        "add" => Bop::Add,
                        "sub" => Bop::Sub,
                        _ => Bop::Mul,
                    };
                    let k = if signed { Cast::SExt } else { Cast::ZExt };
                    let (x, y) = (self.cast(&k, w, w2, &av[0])?, self.cast(&k, w, w2, &av[1])?);
                    let full = self.binop(op, w2, &x, &y)?;
                    let low = self.cast(&Cast::Trunc, w2, w, &full)?;
                    let back = self.cast(&k, w, w2, &low)?;
                    let ov = self.icmp(Cop::Eq, true, w2, &full, &back)?;
                    ret!(Val::A(Rc::new(vec![low, ov])))
                }
                ("usub", "sat") => {
                    let lt = self.icmp(Cop::Ult, false, w, &av[0], &av[1])?;
                    let s = self.binop(Bop::Sub, w, &av[0], &av[1])?;
                    match lt {
                        Val::I(1) => ret!(Self::vk(w, 0)),
                        Val::I(_) => ret!(s),
                        Val::S(e) => {
                            let z = self.a.konst(w, 0);
                            let s = self.e_of(&s, w);
                            let r = self.a.ite(e, z, s);
                            ret!(self.v_of(r))
                        }
                        _ => return err("usub.sat"),
                    }
                }
                ("uadd", "sat") => {
                    let s = self.binop(Bop::Add, w, &av[0], &av[1])?;
                    let lt = self.icmp(Cop::Ult, false, w, &s, &av[0])?;
                    match lt {
                        Val::I(1) => ret!(Self::vk(w, mask(w))),
                        Val::I(_) => ret!(s),
                        Val::S(e) => {
                            let z = self.a.konst(w, mask(w));
                            let s = self.e_of(&s, w);
                            let r = self.a.ite(e, z, s);
                            ret!(self.v_of(r))
                        }
                        _ => return err("uadd.sat"),
                    }
                }
                ("fshl", _) | ("fshr", _) => {
                    let s = conc!(2) % w as u64;
                    let (hi, lo) = (self.e_of(&av[0], w), self.e_of(&av[1], w));
                    if w > 64 {
                        return err("wide funnel shift");
                    }
                    let cat = self.a.concat(hi, lo);
                    let lo_bit = if base[0] == "fshl" { w as u64 - s } else { s };
                    let r = self.a.extract(cat, lo_bit as u8, w);
                    ret!(self.v_of(r))
                }
                ("ctpop", _) | ("ctlz", _) | ("cttz", _) | ("bswap", _) | ("bitreverse", _) | ("abs", _) => {
                    if let Val::S(e) = &av[0] {
                        let e = *e;
                        match base[0] {
                            "cttz" => {
                                // nested ite from the top bit down
                                let mut r = self.a.konst(w, w as u128);
                                for i in (0..w).rev() {
                                    let b = self.a.extract(e, i, 1);
                                    let k = self.a.konst(w, i as u128);
                                    r = self.a.ite(b, k, r);
                                }
                                ret!(self.v_of(r))
                            }
                            "ctlz" => {
                                let mut r = self.a.konst(w, w as u128);
                                for i in 0..w {
                                    let b = self.a.extract(e, i, 1);
                                    let k = self.a.konst(w, (w - 1 - i) as u128);
                                    r = self.a.ite(b, k, r);
                                }
                                ret!(self.v_of(r))
                            }
                            "ctpop" => {
                                let mut r = self.a.konst(w, 0);
                                for i in 0..w {
                                    let b = self.a.extract(e, i, 1);
                                    let z = self.a.zext(b, w);
                                    r = self.a.bin(Bop::Add, r, z);
                                }
                                ret!(self.v_of(r))
                            }
                            "bswap" => {
                                let n = w / 8;
                                let mut r: Option<E> = None;
                                for i in 0..n {
                                    let b = self.a.extract(e, i * 8, 8);
                                    r = Some(match r {
                                        None => b,
                                        Some(h) => self.a.concat(h, b),
                                    });
                                }
                                ret!(self.v_of(r.unwrap()))
                            }
                            _ => return err(format!("symbolic {}", name)),
                        }
                    }
                    let x = Self::kv(&av[0]).unwrap();
                    let r: u128 = match base[0] {
                        "ctpop" => x.count_ones() as u128,
                        "ctlz" => (x.leading_zeros() - (128 - w as u32)) as u128,
                        "cttz" => (x.trailing_zeros().min(w as u32)) as u128,
                        "bswap" => {
                            let b = x.to_le_bytes();
                            let n = (w / 8) as usize;
                            let mut r = 0u128;
                            for i in 0..n {
                                r = (r << 8) | b[i] as u128;
                            }
                            r
                        }
                        "bitreverse" => x.reverse_bits() >> (128 - w as u32),
                        _ => (sext(x, w).wrapping_abs()) as u128 & mask(w),
                    };
                    ret!(Self::vk(w, r))
                }
                _ => return err(format!("intrinsic {}", name)),
            }
        }
        match name.as_str() {
            "malloc" => {
                let n = conc!(0);
                let a = self.alloc(st, n, false)?;
                ret!(Val::I(a))
            }
            "calloc" => {
                let n = conc!(0) * conc!(1);
                let a = self.alloc(st, n, true)?;
                ret!(Val::I(a))
            }
            "posix_memalign" => {
                let (p, n) = (conc!(0), conc!(2));
                let a = self.alloc(st, n, false)?;
                self.store_scalar(st, p, 64, &Val::I(a))?;
                ret!(Val::I(0))
            }
            "free" => {
                let p = conc!(0);
                if p != 0 {
                    if p & 0xffff_ffff != 0 {
                        return err("free of interior pointer");
                    }
                    self.dealloc(st, (p >> 32) as u32)?;
                }
                return Ok(Flow::Next);
            }
            "realloc" => {
                let (p, n) = (conc!(0), conc!(1));
                let a = self.alloc(st, n, false)?;
                if p != 0 {
                    let id = (p >> 32) as u32;
                    let o = self.obj(st, id)?;
                    let c = (o.data.len() as u64).min(n);
                    self.memcpy(st, a, p, c)?;
                    self.dealloc(st, id)?;
                }
                ret!(Val::I(a))
            }
            "memcpy" | "memmove" => {
                let (a, b, l) = (conc!(0), conc!(1), conc!(2));
                self.memcpy(st, a, b, l)?;
                ret!(Val::I(a))
            }
            "memset" => {
                let (a, l) = (conc!(0), conc!(2));
                let b = match &av[1] {
                    Val::I(x) => Ok(*x as u8),
                    _ => return err("memset"),
                };
                let bs = vec![b; l as usize];
                self.write_bytes(st, a, &bs)?;
                ret!(Val::I(a))
            }
            "memcmp" | "bcmp" => {
                let (p, q, n) = (conc!(0), conc!(1), conc!(2));
                let x = self.bytes_at(st, p, n)?;
                let y = self.bytes_at(st, q, n)?;
                let be = |s: &mut Self, b: &Result<u8, E>| match b {
                    Ok(c) => s.a.konst(8, *c as u128),
                    Err(e) => *e,
                };
                if name == "bcmp" {
                    let mut eq = self.a.konst(1, 1);
                    for (a, b) in x.iter().zip(y.iter()) {
                        let (a, b) = (be(self, a), be(self, b));
                        let c = self.a.cmp(Cop::Eq, a, b);
                        eq = self.a.bin(Bop::And, eq, c);
                    }
                    let (z, o) = (self.a.konst(32, 0), self.a.konst(32, 1));
                    let r = self.a.ite(eq, z, o);
                    ret!(self.v_of(r))
                }
                let mut r = self.a.konst(32, 0);
                for (a, b) in x.iter().zip(y.iter()).rev() {
                    let (a, b) = (be(self, a), be(self, b));
                    let eq = self.a.cmp(Cop::Eq, a, b);
                    let lt = self.a.cmp(Cop::Ult, a, b);
                    let (m1, p1) = (self.a.konst(32, 0xffff_ffff), self.a.konst(32, 1));
                    let ne = self.a.ite(lt, m1, p1);
                    r = self.a.ite(eq, r, ne);
                }
                ret!(self.v_of(r))
            }
            "strlen" => {
                let p = conc!(0);
                let mut n = 0;
                loop {
                    match self.load_scalar(st, p + n, 8)? {
                        Val::I(0) => break,
                        Val::I(_) => n += 1,
                        _ => return err("strlen"),
                    }
                }
                ret!(Val::I(n))
            }
            "getrandom" => {
                // seeds of hash maps; nothing observable may depend on them
                let (p, n) = (conc!(0), conc!(1));
                let bs = vec![Ok(0x5a); n as usize];
                self.write_bytes(st, p, &bs)?;
                ret!(Val::I(n))
            }
            "__cxa_thread_atexit_impl" => ret!(Val::I(0)),
            "abort" => return Ok(Flow::End(End::Panic("abort".into()))),
            // ---- harness interface ----
            "vp_byte" => {
                let (lo, hi) = (conc!(0), conc!(1));
                let e = self.fresh(st, lo, hi)?;
                ret!(self.v_of(e))
            }
            "vp_pick" => {
                // concrete n-way split; every value is explored
                let n = conc!(0);
                if n == 0 || n > 256 {
                    return err("vp_pick range");
                }
                let i = st.nvars;
                let e = self.fresh(st, 0, n - 1)?;
                if let Some(k) = self.a.get_const(e) {
                    ret!(Val::I(k as u64))
                }
                let base = st.clone();
                for k in (1..n).rev() {
                    let mut o = base.clone();
                    self.pin(&mut o, i, e, k);
                    if let Some(d) = d {
                        o.top.regs[d as usize] = Val::I(k);
                    }
                    o.top.ip += 1;
                    self.stats.forks += 1;
                    self.work.push(o);
                }
                self.pin(st, i, e, 0);
                ret!(Val::I(0))
            }
            "vp_shard" => {
                // like vp_pick, but only the values of this process's shard
                let n = conc!(0);
                let i = st.nvars;
                let e = self.fresh(st, 0, n - 1)?;
                if let Some(k) = self.a.get_const(e) {
                    ret!(Val::I(k as u64))
                }
                let mine: Vec<u64> = (0..n).filter(|k| k % self.lim.nshards == self.lim.shard).collect();
                if mine.is_empty() {
                    return Ok(Flow::End(End::Infeasible));
                }
                let base = st.clone();
                for &k in mine[1..].iter().rev() {
                    let mut o = base.clone();
                    self.pin(&mut o, i, e, k);
                    if let Some(d) = d {
                        o.top.regs[d as usize] = Val::I(k);
                    }
                    o.top.ip += 1;
                    self.stats.forks += 1;
                    self.work.push(o);
                }
                self.pin(st, i, e, mine[0]);
                ret!(Val::I(mine[0]))
            }
            "vp_choice" => {
                // (table, n words, word length, out) -> index
                let (t, n, l, out) = (conc!(0), conc!(1), conc!(2), conc!(3));
                if n == 0 || n > 256 {
                    return err("vp_choice size");
                }
                let bs = self.bytes_at(st, t, n * l)?;
                let mut tab = vec![];
                for b in bs {
                    match b {
                        Ok(c) => tab.push(c),
                        Err(_) => return err("symbolic vocabulary"),
                    }
                }
                let e = self.fresh(st, 0, n - 1)?;
                let mut w = vec![];
                for j in 0..l as usize {
                    let col: Vec<u8> = (0..n as usize).map(|k| tab[k * l as usize + j]).collect();
                    let ti = self.a.table(col);
                    let b = self.a.tbl(ti, e);
                    w.push(match self.a.get_const(b) {
                        Some(c) => Ok(c as u8),
                        None => Err(b),
                    });
                }
                self.write_bytes(st, out, &w)?;
                ret!(self.v_of(e))
            }
            "vp_assume" => {
                let c = self.e_of(&av[0].clone(), 1);
                if let Some(k) = self.a.get_const(c) {
                    if k == 1 {
                        return Ok(Flow::Next);
                    }
                    return Ok(Flow::End(End::Infeasible));
                }
                let (b, other) = self.decide(st, c)?;
                match (b, other) {
                    (true, _) => return Ok(Flow::Next),
                    (false, Some(mut o)) => {
                        o.top.ip += 1;
                        *st = o;
                        return Ok(Flow::Jump);
                    }
                    (false, None) => return Ok(Flow::End(End::Infeasible)),
                }
            }
            "vp_check" => {
                let code = conc!(1);
                let c = self.e_of(&av[0].clone(), 1);
                if let Some(k) = self.a.get_const(c) {
                    self.stats.checks_concrete += 1;
                    if k == 1 {
                        return Ok(Flow::Next);
                    }
                    let v = self.violation(st, "check", code, None);
                    self.violations.push(v);
                    return Ok(Flow::End(End::Infeasible));
                }
                self.stats.checks_symbolic += 1;
                let nc = self.a.not(c);
                let p = self.slice(st, nc);
                if let Some(m) = self.query(&p, nc)? {
                    let v = self.violation(st, "check", code, Some(&m));
                    self.violations.push(v);
                    return Ok(Flow::End(End::Infeasible));
                }
                return Ok(Flow::Next);
            }
            "vp_arg" => {
                let a = self.lim.arg;
                ret!(Val::I(a))
            }
            "vp_reach" => {
                let code = conc!(0);
                *self.reached.entry(code).or_default() += 1;
                return Ok(Flow::Next);
            }
            "vp_out" => {
                let v = conc!(0);
                st.outs.push(v);
                return Ok(Flow::Next);
            }
            "vp_text" => {
                let (p, n) = (conc!(0), conc!(1));
                st.text = Some((p, n));
                return Ok(Flow::Next);
            }
            _ => err(format!("call to external function {}", name)),
        }
    }
    fn pin(&mut self, st: &mut State, i: u32, e: E, k: u64) {
        let kk = self.a.konst(8, k as u128);
        let c = self.a.cmp(Cop::Eq, e, kk);
        let p = self.intern(vec![i], vec![], vec![]);
        let p = self.with(&p, c, vec![(i, k)]);
        Self::set_part(st, &p);
    }
}
