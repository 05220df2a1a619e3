//! Hash-consed bit-vector expressions (width 1..=128).
type HashMap<K, V> = std::collections::HashMap<K, V, crate::exec::FxB>;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bop {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cop {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u8, u128),
    Var(u8, u32),
    Bin(Bop, E, E),
    Cmp(Cop, E, E),
    Not(E), // width-1 only
    Ite(E, E, E),
    Extract(E, u8, u8), // (e, lo, width)
    Concat(E, E),       // (high, low)
    ZExt(E, u8),
    SExt(E, u8),
    Tbl(u32, E), // table id, index expr (8 bit) -> 8 bit
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub width: Vec<u8>,
    map: HashMap<Node, E>,
    pub tables: Vec<Rc<Vec<u8>>>,
    tmap: HashMap<Rc<Vec<u8>>, u32>,
    vars: HashMap<E, Rc<Vec<u32>>>,
    canon: HashMap<E, E>,
    pub var_width: Vec<u8>,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

/// Concrete semantics of a binary operator; None on division by zero.
pub fn bin_const(op: Bop, w: u8, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Bop::Add => a.wrapping_add(b) & m,
        Bop::Sub => a.wrapping_sub(b) & m,
        Bop::Mul => a.wrapping_mul(b) & m,
        Bop::UDiv => {
            if b == 0 {
                return None;
            }
            a / b
        }
        Bop::URem => {
            if b == 0 {
                return None;
            }
            a % b
        }
        Bop::SDiv => {
            if b == 0 {
                return None;
            }
            sext(a, w).wrapping_div(sext(b, w)) as u128 & m
        }
        Bop::SRem => {
            if b == 0 {
                return None;
            }
            sext(a, w).wrapping_rem(sext(b, w)) as u128 & m
        }
        Bop::And => a & b,
        Bop::Or => a | b,
        Bop::Xor => a ^ b,
        // An over-wide shift is poison in LLVM; SMT-LIB gives 0 / sign fill.
        Bop::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Bop::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Bop::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128 & m
        }
    })
}

pub fn cmp_const(op: Cop, w: u8, a: u128, b: u128) -> bool {
    match op {
        Cop::Eq => a == b,
        Cop::Ult => a < b,
        Cop::Ule => a <= b,
        Cop::Slt => sext(a, w) < sext(b, w),
        Cop::Sle => sext(a, w) <= sext(b, w),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            width: vec![],
            map: HashMap::default(),
            tables: vec![],
            tmap: HashMap::default(),
            vars: HashMap::default(),
            canon: HashMap::default(),
            var_width: vec![],
        };
        // id 0 is reserved ("no expression")
        a.nodes.push(Node::Const(1, 0));
        a.width.push(1);
        a
    }
    fn mk(&mut self, n: Node, w: u8) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.nodes.len() as E;
        self.nodes.push(n.clone());
        self.width.push(w);
        self.map.insert(n, id);
        id
    }
    pub fn w(&self, e: E) -> u8 {
        self.width[e as usize]
    }
    pub fn konst(&mut self, w: u8, v: u128) -> E {
        self.mk(Node::Const(w, v & mask(w)), w)
    }
    pub fn get_const(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize] {
            Node::Const(_, v) => Some(v),
            _ => None,
        }
    }
    /// Variables are identified by their creation index along a path, so that
    /// sibling paths share expressions.
    pub fn var(&mut self, w: u8, idx: u32) -> E {
        while self.var_width.len() <= idx as usize {
            self.var_width.push(0);
        }
        if self.var_width[idx as usize] == 0 {
            self.var_width[idx as usize] = w;
        }
        self.mk(Node::Var(w, idx), w)
    }
    pub fn table(&mut self, t: Vec<u8>) -> u32 {
        let t = Rc::new(t);
        if let Some(&i) = self.tmap.get(&t) {
            return i;
        }
        let i = self.tables.len() as u32;
        self.tables.push(t.clone());
        self.tmap.insert(t, i);
        i
    }
    pub fn tbl(&mut self, t: u32, idx: E) -> E {
        if let Some(v) = self.get_const(idx) {
            let x = self.tables[t as usize].get(v as usize).copied().unwrap_or(0);
            return self.konst(8, x as u128);
        }
        let tab = &self.tables[t as usize];
        if tab.iter().all(|x| *x == tab[0]) {
            let x = tab[0];
            return self.konst(8, x as u128);
        }
        self.mk(Node::Tbl(t, idx), 8)
    }
    pub fn not(&mut self, a: E) -> E {
        if let Some(v) = self.get_const(a) {
            return self.konst(1, (v ^ 1) & 1);
        }
        if let Node::Not(x) = self.nodes[a as usize] {
            return x;
        }
        self.mk(Node::Not(a), 1)
    }
    pub fn bin(&mut self, op: Bop, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.get_const(a), self.get_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(v) = bin_const(op, w, x, y) {
                return self.konst(w, v);
            }
        }
        // canonical order for commutative operators: constant to the right
        let commut = matches!(op, Bop::Add | Bop::Mul | Bop::And | Bop::Or | Bop::Xor);
        if commut && (ca.is_some() || (cb.is_none() && a > b)) {
            return self.bin_raw(op, b, a, w);
        }
        self.bin_raw(op, a, b, w)
    }
    fn bin_raw(&mut self, op: Bop, a: E, b: E, w: u8) -> E {
        let cb = self.get_const(b);
        let m = mask(w);
        if let Some(y) = cb {
            match op {
                Bop::Add | Bop::Sub | Bop::Or | Bop::Xor | Bop::Shl | Bop::LShr | Bop::AShr if y == 0 => return a,
                Bop::And if y == 0 => return b,
                Bop::And if y == m => return a,
                Bop::Or if y == m => return b,
                Bop::Mul if y == 1 => return a,
                Bop::Mul if y == 0 => return b,
                Bop::UDiv if y == 1 => return a,
                Bop::Xor if w == 1 && y == 1 => return self.not(a),
                Bop::Add if w == 1 && y == 1 => return self.not(a),
                Bop::Sub => {
                    // normalise x - c to x + (-c)
                    let nc = self.konst(w, (0u128).wrapping_sub(y) & m);
                    return self.bin(Bop::Add, a, nc);
                }
                Bop::Add => {
                    if let Node::Bin(Bop::Add, x, c) = self.nodes[a as usize] {
                        if let Some(cv) = self.get_const(c) {
                            let nc = self.konst(w, cv.wrapping_add(y) & m);
                            return self.bin(Bop::Add, x, nc);
                        }
                    }
                }
                Bop::And => {
                    // (zext x) & c, where c covers x
                    if let Node::ZExt(x, _) = self.nodes[a as usize] {
                        let wx = self.w(x);
                        if y & mask(wx) == mask(wx) {
                            return a;
                        }
                    }
                }
                _ => {}
            }
        }
        if a == b {
            match op {
                Bop::And | Bop::Or => return a,
                Bop::Xor | Bop::Sub => return self.konst(w, 0),
                _ => {}
            }
        }
        self.mk(Node::Bin(op, a, b), w)
    }
    pub fn cmp(&mut self, op: Cop, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?} {:?}", self.nodes[a as usize], self.nodes[b as usize]);
        let (ca, cb) = (self.get_const(a), self.get_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(1, cmp_const(op, w, x, y) as u128);
        }
        if a == b {
            return self.konst(1, matches!(op, Cop::Eq | Cop::Ule | Cop::Sle) as u128);
        }
        if op == Cop::Eq {
            if ca.is_some() || (cb.is_none() && a > b) {
                return self.cmp_eq(b, a);
            }
            return self.cmp_eq(a, b);
        }
        if let Some(y) = cb {
            match self.nodes[a as usize] {
                Node::ZExt(x, _) if matches!(op, Cop::Ult | Cop::Ule) => {
                    let wx = self.w(x);
                    if y > mask(wx) {
                        return self.konst(1, 1);
                    }
                    let c = self.konst(wx, y);
                    return self.cmp(op, x, c);
                }
                _ => {}
            }
            if op == Cop::Ult && y == 0 {
                return self.konst(1, 0);
            }
            if op == Cop::Ule && y == mask(w) {
                return self.konst(1, 1);
            }
            if op == Cop::Ule {
                let c = self.konst(w, y + 1);
                return self.cmp(Cop::Ult, a, c);
            }
        }
        if let Some(x) = ca {
            if let Node::ZExt(y, _) = self.nodes[b as usize] {
                if matches!(op, Cop::Ult | Cop::Ule) {
                    let wy = self.w(y);
                    if x > mask(wy) {
                        return self.konst(1, 0);
                    }
                    let c = self.konst(wy, x);
                    return self.cmp(op, c, y);
                }
            }
            if op == Cop::Ult && x == mask(w) {
                return self.konst(1, 0);
            }
            // c < x  ==  !(x <= c) == !(x < c+1)
            if op == Cop::Ult {
                let c = self.konst(w, x + 1);
                let r = self.cmp(Cop::Ult, b, c);
                return self.not(r);
            }
            if op == Cop::Ule {
                let r = self.cmp(Cop::Ult, b, a);
                return self.not(r);
            }
        }
        self.mk(Node::Cmp(op, a, b), 1)
    }
    fn cmp_eq(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.get_const(b) {
            if w == 1 {
                return if y == 1 { a } else { self.not(a) };
            }
            match self.nodes[a as usize] {
                Node::ZExt(x, _) => {
                    let wx = self.w(x);
                    if y > mask(wx) {
                        return self.konst(1, 0);
                    }
                    let c = self.konst(wx, y);
                    return self.cmp(Cop::Eq, x, c);
                }
                Node::Ite(c, t, f) => {
                    if let (Some(tv), Some(fv)) = (self.get_const(t), self.get_const(f)) {
                        return match (tv == y, fv == y) {
                            (true, true) => self.konst(1, 1),
                            (true, false) => c,
                            (false, true) => self.not(c),
                            (false, false) => self.konst(1, 0),
                        };
                    }
                }
                Node::Bin(Bop::Add, x, c) => {
                    if let Some(cv) = self.get_const(c) {
                        let nc = self.konst(w, y.wrapping_sub(cv) & mask(w));
                        return self.cmp(Cop::Eq, x, nc);
                    }
                }
                Node::Concat(h, l) => {
                    let wl = self.w(l);
                    let wh = self.w(h);
                    let cl = self.konst(wl, y & mask(wl));
                    let ch = self.konst(wh, (y >> wl) & mask(wh));
                    let e1 = self.cmp(Cop::Eq, h, ch);
                    let e2 = self.cmp(Cop::Eq, l, cl);
                    return self.bin(Bop::And, e1, e2);
                }
                _ => {}
            }
        } else if let (Node::ZExt(x, _), Node::ZExt(y, _)) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone()) {
            if self.w(x) == self.w(y) {
                return self.cmp(Cop::Eq, x, y);
            }
        }
        self.mk(Node::Cmp(Cop::Eq, a, b), 1)
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(v) = self.get_const(c) {
            return if v == 1 { t } else { f };
        }
        if t == f {
            return t;
        }
        if let Node::Not(x) = self.nodes[c as usize] {
            return self.ite(x, f, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.get_const(t), self.get_const(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Bop::Or, c, f),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Bop::And, n, f);
                }
                (None, Some(0)) => return self.bin(Bop::And, c, t),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Bop::Or, n, t);
                }
                _ => {}
            }
        }
        self.mk(Node::Ite(c, t, f), w)
    }
    pub fn extract(&mut self, e: E, lo: u8, w: u8) -> E {
        let we = self.w(e);
        if lo == 0 && w == we {
            return e;
        }
        if let Some(v) = self.get_const(e) {
            return self.konst(w, (v >> lo) & mask(w));
        }
        match self.nodes[e as usize].clone() {
            Node::Extract(x, l2, _) => return self.extract(x, l2 + lo, w),
            Node::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl {
                    return self.extract(h, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(l, lo, w);
                }
            }
            Node::ZExt(x, _) => {
                let wx = self.w(x);
                if lo >= wx {
                    return self.konst(w, 0);
                }
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
                if lo == 0 {
                    return self.zext(x, w);
                }
            }
            Node::SExt(x, _) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.extract(x, lo, w);
                }
            }
            Node::Ite(c, t, f) => {
                if self.get_const(t).is_some() || self.get_const(f).is_some() {
                    let t2 = self.extract(t, lo, w);
                    let f2 = self.extract(f, lo, w);
                    return self.ite(c, t2, f2);
                }
            }
            Node::Bin(op, a, b) if lo == 0 && matches!(op, Bop::And | Bop::Or | Bop::Xor | Bop::Add | Bop::Sub) => {
                let a2 = self.extract(a, lo, w);
                let b2 = self.extract(b, lo, w);
                return self.bin(op, a2, b2);
            }
            _ => {}
        }
        self.mk(Node::Extract(e, lo, w), w)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let w = self.w(h) + self.w(l);
        if let (Some(x), Some(y)) = (self.get_const(h), self.get_const(l)) {
            let wl = self.w(l);
            return self.konst(w, (x << wl) | y);
        }
        if self.get_const(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (Node::Extract(x, lo1, w1), Node::Extract(y, lo2, w2)) = (self.nodes[h as usize].clone(), self.nodes[l as usize].clone()) {
            if x == y && lo1 == lo2 + w2 {
                return self.extract(x, lo2, w1 + w2);
            }
        }
        // concat(extract(x, k..), x') where low part is exactly x's low bits folded away
        if let Node::Extract(x, lo1, w1) = self.nodes[h as usize].clone() {
            let wl = self.w(l);
            if lo1 == wl {
                let low = self.extract(x, 0, wl);
                if low == l {
                    return self.extract(x, 0, wl + w1);
                }
            }
        }
        self.mk(Node::Concat(h, l), w)
    }
    pub fn zext(&mut self, e: E, w: u8) -> E {
        let we = self.w(e);
        if w == we {
            return e;
        }
        if let Some(v) = self.get_const(e) {
            return self.konst(w, v);
        }
        match self.nodes[e as usize].clone() {
            Node::ZExt(x, _) => return self.mk(Node::ZExt(x, w), w),
            Node::Ite(c, t, f) if self.get_const(t).is_some() && self.get_const(f).is_some() => {
                let t2 = self.zext(t, w);
                let f2 = self.zext(f, w);
                return self.ite(c, t2, f2);
            }
            _ => {}
        }
        self.mk(Node::ZExt(e, w), w)
    }
    pub fn sext(&mut self, e: E, w: u8) -> E {
        let we = self.w(e);
        if w == we {
            return e;
        }
        if let Some(v) = self.get_const(e) {
            return self.konst(w, sext(v, we) as u128);
        }
        self.mk(Node::SExt(e, w), w)
    }
    pub fn vars_of(&mut self, e: E) -> Rc<Vec<u32>> {
        if let Some(v) = self.vars.get(&e) {
            return v.clone();
        }
        let mut out: Vec<u32> = vec![];
        match self.nodes[e as usize].clone() {
            Node::Const(..) => {}
            Node::Var(_, i) => out.push(i),
            Node::Bin(_, a, b) | Node::Cmp(_, a, b) | Node::Concat(a, b) => {
                out.extend_from_slice(&self.vars_of(a));
                out.extend_from_slice(&self.vars_of(b));
            }
            Node::Not(a) | Node::Extract(a, _, _) | Node::ZExt(a, _) | Node::SExt(a, _) | Node::Tbl(_, a) => {
                out.extend_from_slice(&self.vars_of(a));
            }
            Node::Ite(a, b, c) => {
                out.extend_from_slice(&self.vars_of(a));
                out.extend_from_slice(&self.vars_of(b));
                out.extend_from_slice(&self.vars_of(c));
            }
        }
        out.sort_unstable();
        out.dedup();
        let r = Rc::new(out);
        self.vars.insert(e, r.clone());
        r
    }
    /// Evaluate under an assignment (missing variables are 0).
    /// Equivalent form of a condition on a single byte: membership in an explicit set.
    pub fn canon(&mut self, e: E) -> E {
        if let Some(&c) = self.canon.get(&e) {
            return c;
        }
        let vs = self.vars_of(e);
        let c = if vs.len() == 1 && !self.is_set(e) {
            let mut tab = vec![0u8; 256];
            for (k, t) in tab.iter_mut().enumerate() {
                *t = self.eval(e, &|_| k as u128) as u8 & 1;
            }
            self.set(tab, vs[0])
        } else {
            e
        };
        self.canon.insert(e, c);
        c
    }
    fn set(&mut self, tab: Vec<u8>, v: u32) -> E {
        let t = self.table(tab);
        let v = self.var(8, v);
        let x = self.tbl(t, v);
        self.extract(x, 0, 1)
    }
    /// The set of a canonical condition.
    pub fn as_set(&self, e: E) -> Option<(&[u8], u32)> {
        if let Node::Extract(x, 0, 1) = self.nodes[e as usize] {
            if let Node::Tbl(t, i) = self.nodes[x as usize] {
                if let Node::Var(8, v) = self.nodes[i as usize] {
                    let tab = &self.tables[t as usize];
                    if tab.len() == 256 && tab.iter().all(|b| *b < 2) {
                        return Some((tab, v));
                    }
                }
            }
        }
        None
    }
    pub fn set_table(&self, e: E) -> Option<u32> {
        self.as_set(e)?;
        match self.nodes[e as usize] {
            Node::Extract(x, _, _) => match self.nodes[x as usize] {
                Node::Tbl(t, _) => Some(t),
                _ => None,
            },
            _ => None,
        }
    }
    fn is_set(&self, e: E) -> bool {
        self.as_set(e).is_some()
    }
    /// Conjunction of canonical conditions on the same byte.
    pub fn set_and(&mut self, a: E, b: E) -> Option<E> {
        let (tab, v) = {
            let (x, v) = self.as_set(a)?;
            let (y, w) = self.as_set(b)?;
            if v != w {
                return None;
            }
            (x.iter().zip(y.iter()).map(|(p, q)| p & q).collect::<Vec<u8>>(), v)
        };
        Some(self.set(tab, v))
    }

    pub fn eval(&self, e: E, m: &dyn Fn(u32) -> u128) -> u128 {
        let mut memo: HashMap<E, u128> = HashMap::default();
        self.eval_m(e, m, &mut memo)
    }
    pub fn eval_m(&self, e: E, m: &dyn Fn(u32) -> u128, memo: &mut HashMap<E, u128>) -> u128 {
        if let Node::Const(_, v) = self.nodes[e as usize] {
            return v;
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let v = match &self.nodes[e as usize] {
            Node::Const(_, v) => *v,
            Node::Var(w, i) => m(*i) & mask(*w),
            Node::Bin(op, a, b) => {
                let w = self.w(*a);
                let (x, y) = (self.eval_m(*a, m, memo), self.eval_m(*b, m, memo));
                match bin_const(*op, w, x, y) {
                    Some(v) => v,
                    // SMT-LIB division by zero
                    None => match op {
                        Bop::UDiv => mask(w),
                        Bop::URem | Bop::SRem => x,
                        _ => {
                            if sext(x, w) < 0 {
                                1
                            } else {
                                mask(w)
                            }
                        }
                    },
                }
            }
            Node::Cmp(op, a, b) => {
                let w = self.w(*a);
                cmp_const(*op, w, self.eval_m(*a, m, memo), self.eval_m(*b, m, memo)) as u128
            }
            Node::Not(a) => self.eval_m(*a, m, memo) ^ 1,
            Node::Ite(c, t, f) => {
                if self.eval_m(*c, m, memo) == 1 {
                    self.eval_m(*t, m, memo)
                } else {
                    self.eval_m(*f, m, memo)
                }
            }
            Node::Extract(a, lo, w) => (self.eval_m(*a, m, memo) >> lo) & mask(*w),
            Node::Concat(h, l) => (self.eval_m(*h, m, memo) << self.w(*l)) | self.eval_m(*l, m, memo),
            Node::ZExt(a, _) => self.eval_m(*a, m, memo),
            Node::SExt(a, w) => sext(self.eval_m(*a, m, memo), self.w(*a)) as u128 & mask(*w),
            Node::Tbl(t, i) => {
                let k = self.eval_m(*i, m, memo) as usize;
                self.tables[*t as usize].get(k).copied().unwrap_or(0) as u128
            }
        };
        memo.insert(e, v);
        v
    }
}
impl Arena {
    pub fn show(&self, e: E) -> String {
        match &self.nodes[e as usize] {
            Node::Const(w, v) => format!("{}:{}", v, w),
            Node::Var(_, i) => format!("v{}", i),
            Node::Bin(op, a, b) => format!("({:?} {} {})", op, self.show(*a), self.show(*b)),
            Node::Cmp(op, a, b) => format!("({:?} {} {})", op, self.show(*a), self.show(*b)),
            Node::Concat(a, b) => format!("({} . {})", self.show(*a), self.show(*b)),
            Node::Not(a) => format!("!{}", self.show(*a)),
            Node::Extract(a, l, w) => format!("{}[{}+{}]", self.show(*a), l, w),
            Node::ZExt(a, w) => format!("zx{}({})", w, self.show(*a)),
            Node::SExt(a, w) => format!("sx{}({})", w, self.show(*a)),
            Node::Tbl(t, a) => format!("T{}({})", t, self.show(*a)),
            Node::Ite(a, b, c) => format!("(ite {} {} {})", self.show(*a), self.show(*b), self.show(*c)),
        }
    }
}
