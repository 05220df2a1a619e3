//! Minimal binding to libz3's C API and the translation of expressions to it.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, t: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("ENGINE-ERROR z3 error code {}", e);
    std::process::exit(3);
}

pub struct Z3 {
    c: P,
    s: P,
    memo: HashMap<E, P>,
    boolmemo: HashMap<E, P>,
    varsym: HashMap<(u8, u32), P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time_ns: u128,
    pub max_ns: u128,
    pub dump: Option<std::io::BufWriter<std::fs::File>>,
    pub dumped: u64,
}

pub fn version() -> String {
    unsafe { CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            let _ = Z3_mk_context as *const ();
            Z3_set_error_handler(c, Some(on_error));
            let s = Z3_mk_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            // a scope from the start selects the incremental core
            Z3_solver_push(c, s);
            Z3 {
                c,
                s,
                memo: HashMap::new(),
                boolmemo: HashMap::new(),
                varsym: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                time_ns: 0,
                max_ns: 0,
                dump: None,
                dumped: 0,
            }
        }
    }
    unsafe fn keep(&self, a: P) -> P {
        Z3_inc_ref(self.c, a);
        a
    }
    unsafe fn num(&self, w: u8, v: u128) -> P {
        let s = CString::new(v.to_string()).unwrap();
        let sort = self.keep(Z3_mk_bv_sort(self.c, w as c_uint));
        self.keep(Z3_mk_numeral(self.c, s.as_ptr(), sort))
    }
    /// width-1 expressions as Bool terms
    unsafe fn b(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.boolmemo.get(&e) {
            return p;
        }
        let c = self.c;
        if let Some((tab, v)) = a.as_set(e) {
            // membership in a set of byte values, as a union of intervals
            let x = self.v(8, v);
            let one = self.num(1, 1);
            let tru = self.keep(Z3_mk_eq(c, one, one));
            let mut r = self.keep(Z3_mk_not(c, tru));
            let mut k = 0;
            while k < 256 {
                if tab[k] == 0 {
                    k += 1;
                    continue;
                }
                let lo = k;
                while k < 256 && tab[k] == 1 {
                    k += 1;
                }
                let (l, h) = (self.num(8, lo as u128), self.num(8, (k - 1) as u128));
                let (p, q) = (self.keep(Z3_mk_bvule(c, l, x)), self.keep(Z3_mk_bvule(c, x, h)));
                let other = r;
                let inner = self.keep(Z3_mk_ite(c, q, tru, other));
                r = self.keep(Z3_mk_ite(c, p, inner, other));
            }
            self.boolmemo.insert(e, r);
            return r;
        }
        let r = match &a.nodes[e as usize] {
            Node::Cmp(op, x, y) => {
                if *op == Cop::Eq && a.w(*x) == 1 {
                    let (p, q) = (self.b(a, *x), self.b(a, *y));
                    Z3_mk_eq(c, p, q)
                } else {
                    let (p, q) = (self.t(a, *x), self.t(a, *y));
                    match op {
                        Cop::Eq => Z3_mk_eq(c, p, q),
                        Cop::Ult => Z3_mk_bvult(c, p, q),
                        Cop::Ule => Z3_mk_bvule(c, p, q),
                        Cop::Slt => Z3_mk_bvslt(c, p, q),
                        Cop::Sle => Z3_mk_bvsle(c, p, q),
                    }
                }
            }
            Node::Not(x) => {
                let p = self.b(a, *x);
                Z3_mk_not(c, p)
            }
            Node::Ite(x, y, z) => {
                let (p, q, r) = (self.b(a, *x), self.b(a, *y), self.b(a, *z));
                Z3_mk_ite(c, p, q, r)
            }
            Node::Bin(op @ (Bop::And | Bop::Or | Bop::Xor), x, y) => {
                let (p, q) = (self.b(a, *x), self.b(a, *y));
                // and: ite p q false; or: ite p true q; xor: not (p = q)
                let one = self.num(1, 1);
                let tru = self.keep(Z3_mk_eq(c, one, one));
                match op {
                    Bop::And => {
                        let fls = self.keep(Z3_mk_not(c, tru));
                        Z3_mk_ite(c, p, q, fls)
                    }
                    Bop::Or => Z3_mk_ite(c, p, tru, q),
                    _ => {
                        let eq = self.keep(Z3_mk_eq(c, p, q));
                        Z3_mk_not(c, eq)
                    }
                }
            }
            _ => {
                let p = self.t(a, e);
                let one = self.num(1, 1);
                Z3_mk_eq(c, p, one)
            }
        };
        let r = self.keep(r);
        self.boolmemo.insert(e, r);
        r
    }
    /// expressions as BitVec terms
    unsafe fn t(&mut self, a: &Arena, e: E) -> P {
        if let Some(&p) = self.memo.get(&e) {
            return p;
        }
        let c = self.c;
        let w = a.w(e);
        let r = match &a.nodes[e as usize] {
            Node::Const(w, v) => self.num(*w, *v),
            Node::Var(w, i) => self.v(*w, *i),
            Node::Cmp(..) | Node::Not(_) => {
                let p = self.b(a, e);
                let (one, zero) = (self.num(1, 1), self.num(1, 0));
                Z3_mk_ite(c, p, one, zero)
            }
            Node::Bin(op, x, y) => {
                let (p, q) = (self.t(a, *x), self.t(a, *y));
                match op {
                    Bop::Add => Z3_mk_bvadd(c, p, q),
                    Bop::Sub => Z3_mk_bvsub(c, p, q),
                    Bop::Mul => Z3_mk_bvmul(c, p, q),
                    Bop::UDiv => Z3_mk_bvudiv(c, p, q),
                    Bop::SDiv => Z3_mk_bvsdiv(c, p, q),
                    Bop::URem => Z3_mk_bvurem(c, p, q),
                    Bop::SRem => Z3_mk_bvsrem(c, p, q),
                    Bop::And => Z3_mk_bvand(c, p, q),
                    Bop::Or => Z3_mk_bvor(c, p, q),
                    Bop::Xor => Z3_mk_bvxor(c, p, q),
                    Bop::Shl => Z3_mk_bvshl(c, p, q),
                    Bop::LShr => Z3_mk_bvlshr(c, p, q),
                    Bop::AShr => Z3_mk_bvashr(c, p, q),
                }
            }
            Node::Ite(x, y, z) => {
                let (p, q, r) = (self.b(a, *x), self.t(a, *y), self.t(a, *z));
                Z3_mk_ite(c, p, q, r)
            }
            Node::Extract(x, lo, w) => {
                let p = self.t(a, *x);
                Z3_mk_extract(c, (*lo + *w - 1) as c_uint, *lo as c_uint, p)
            }
            Node::Concat(x, y) => {
                let (p, q) = (self.t(a, *x), self.t(a, *y));
                Z3_mk_concat(c, p, q)
            }
            Node::ZExt(x, w) => {
                let p = self.t(a, *x);
                Z3_mk_zero_ext(c, (*w - a.w(*x)) as c_uint, p)
            }
            Node::SExt(x, w) => {
                let p = self.t(a, *x);
                Z3_mk_sign_ext(c, (*w - a.w(*x)) as c_uint, p)
            }
            Node::Tbl(t, i) => {
                let p = self.t(a, *i);
                let tab = a.tables[*t as usize].clone();
                // most common value is the default
                let mut cnt: HashMap<u8, usize> = HashMap::new();
                for x in tab.iter() {
                    *cnt.entry(*x).or_default() += 1;
                }
                let d = *cnt.iter().max_by_key(|(v, n)| (**n, **v)).unwrap().0;
                let mut r = self.num(8, d as u128);
                let wi = a.w(*i);
                for (k, x) in tab.iter().enumerate() {
                    if *x != d {
                        let (kk, xx) = (self.num(wi, k as u128), self.num(8, *x as u128));
                        let eq = self.keep(Z3_mk_eq(c, p, kk));
                        r = self.keep(Z3_mk_ite(c, eq, xx, r));
                    }
                }
                r
            }
        };
        let _ = w;
        let r = self.keep(r);
        self.memo.insert(e, r);
        r
    }
    unsafe fn v(&mut self, w: u8, i: u32) -> P {
        let c = self.c;
        if let Some(&p) = self.varsym.get(&(w, i)) {
            return p;
        }
        let _ = Z3_mk_int_symbol as *const ();
        let _ = Z3_mk_bool_sort as *const ();
        let n = CString::new(format!("v{}_{}", i, w)).unwrap();
        let p = Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bv_sort(c, w as c_uint));
        let p = self.keep(p);
        self.varsym.insert((w, i), p);
        p
    }
    /// Satisfiability of a conjunction; on sat, values of `vars`.
    /// `Err` when the solver gives up.
    pub fn check(&mut self, a: &Arena, cons: &[E], vars: &[(u8, u32)]) -> Result<Option<Vec<(u32, u64)>>, String> {
        unsafe {
            let t0 = std::time::Instant::now();
            let c = self.c;
            Z3_solver_push(c, self.s);
            for e in cons {
                let p = self.b(a, *e);
                Z3_solver_assert(c, self.s, p);
            }
            let r = Z3_solver_check(c, self.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut vs = vec![];
                    for (w, i) in vars {
                        let t = self.v(*w, *i);
                        let mut o: P = std::ptr::null_mut();
                        let mut u = 0u64;
                        if !Z3_model_eval(c, m, t, true, &mut o) || !Z3_get_numeral_uint64(c, o, &mut u) {
                            return Err("model evaluation failed".into());
                        }
                        vs.push((*i, u));
                    }
                    Z3_model_dec_ref(c, m);
                    self.sat += 1;
                    Ok(Some(vs))
                }
                -1 => {
                    self.unsat += 1;
                    Ok(None)
                }
                _ => Err("solver returned unknown".into()),
            };
            if let Some(d) = &mut self.dump {
                use std::io::Write;
                let txt = CStr::from_ptr(Z3_solver_to_string(c, self.s)).to_string_lossy().into_owned();
                let _ = writeln!(d, "(push 1)\n{}(echo \"expect {}\")\n(check-sat)\n(pop 1)", txt, if r == 1 { "sat" } else { "unsat" });
                self.dumped += 1;
            }
            Z3_solver_pop(c, self.s, 1);
            self.queries += 1;
            let dt = t0.elapsed().as_nanos();
            self.time_ns += dt;
            self.max_ns = self.max_ns.max(dt);
            out
        }
    }
}
