//! Textual LLVM IR: types, constants, functions (bodies parsed on first use).
use crate::expr::{Bop, Cop};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F(u32),
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Label,
    Meta,
}

fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::F(w) => *w,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::F(_))
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64 + 7) / 8).next_power_of_two().min(16),
            Ty::Ptr => 8,
            Ty::F(w) => (*w / 8) as u64,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two(),
            Ty::Struct(fs, p) => {
                if *p {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// bytes written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => align_up((*w as u64 + 7) / 8, self.align()),
            Ty::Ptr => 8,
            Ty::F(w) => (*w / 8) as u64,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(fs, p) => {
                let mut o = 0;
                for f in fs.iter() {
                    if !*p {
                        o = align_up(o, f.align());
                    }
                    o += f.size();
                }
                align_up(o, self.align())
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(fs, p) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*p {
                        o = align_up(o, f.align());
                    }
                    if k == i {
                        return (o, f.clone());
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field_off of {:?}", self),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    S(u32),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub enum Op {
    R(u32),
    K(Val),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32), // function index
    Indirect(Op),
    Asm,
}

#[derive(Clone, Debug)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    Bit,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(u32, Bop, u8, Op, Op),
    VBin(u32, Bop, u8, Op, Op),
    Icmp(u32, Cop, bool, u8, Op, Op), // bool: negate
    VIcmp(u32, Cop, bool, u8, Op, Op),
    Cast(u32, Cast, u8, u8, Op),
    VCast(u32, Cast, u8, u8, Op),
    BitcastAgg(u32, Ty, Ty, Op),
    Select(u32, Ty, Op, Op, Op),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, u8, i64)>), // base, const offset, (index, bits, scale)
    Alloca(u32, u64, Op),
    Call(Option<u32>, Callee, Vec<(Ty, Op)>, Ty),
    ExtractV(u32, Op, Vec<u32>),
    InsertV(u32, Op, Op, Vec<u32>),
    ExtractE(u32, Op, Op),
    InsertE(u32, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<i64>),
    AtomicRmw(u32, String, Ty, Op, Op),
    CmpXchg(u32, Ty, Op, Op, Op),
    Copy(u32, Op),
    Nop,
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, u8, Vec<(u64, u32)>, u32),
    Ret(Option<Op>),
    Unreachable,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub insts: Vec<Inst>,
}

pub struct Func {
    pub id: u32,
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub body: Option<(usize, usize)>, // line range [define line, closing brace)
    pub addr: u64,
}

pub struct GlobalDef {
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub init: Option<(Ty, usize)>, // type and line
    pub name: String,
}

pub struct Module {
    pub text: String,
    pub lines: Vec<(usize, usize)>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    pub globals: Vec<GlobalDef>,
    pub gmap: HashMap<String, u64>, // symbol -> address (globals and functions)
    pub named: HashMap<String, Ty>,
    pub parsed: HashMap<u32, Rc<Func>>,
    pub next_obj: u32,
    aliases: HashMap<String, String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    W(String), // bare word
    L(String), // %local
    G(String), // @global
    N(i128),
    Hex(u64),
    Str(Vec<u8>),
    Meta,
    C(char),
    Dots,
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                o.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let isid = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let name;
                if b[i + 1] == b'"' {
                    let st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = String::from_utf8_lossy(&unescape(&b[st..j])).into_owned();
                    i = j + 1;
                } else {
                    let st = i + 1;
                    let mut j = st;
                    while j < b.len() && isid(b[j]) {
                        j += 1;
                    }
                    name = s[st..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                i = j;
                out.push(Tok::Meta);
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && isid(b[j]) {
                    j += 1;
                }
                i = j;
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(unescape(&b[st..j])));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                out.push(Tok::Str(unescape(&b[st..j])));
                i = j + 1;
            }
            b'.' if s[i..].starts_with("...") => {
                out.push(Tok::Dots);
                i += 3;
            }
            b'-' | b'0'..=b'9' => {
                let st = i;
                if s[i..].starts_with("0x") {
                    let mut j = i + 2;
                    while j < b.len() && b[j].is_ascii_alphanumeric() {
                        j += 1;
                    }
                    out.push(Tok::Hex(u64::from_str_radix(s[i + 2..j].trim_start_matches(|c: char| !c.is_ascii_hexdigit()), 16).unwrap_or(0)));
                    i = j;
                    continue;
                }
                let mut j = i + 1;
                while j < b.len() && b[j].is_ascii_digit() {
                    j += 1;
                }
                if j < b.len() && (b[j] == b'.') {
                    // float literal
                    let mut k = j + 1;
                    while k < b.len() && (b[k].is_ascii_alphanumeric() || b[k] == b'+' || b[k] == b'-') {
                        k += 1;
                    }
                    let f: f64 = s[st..k].parse().unwrap_or(0.0);
                    out.push(Tok::Hex(f.to_bits()));
                    i = k;
                    continue;
                }
                match s[st..j].parse::<i128>() {
                    Ok(v) => out.push(Tok::N(v)),
                    Err(_) => out.push(Tok::N(s[st..j].parse::<u128>().unwrap_or(0) as i128)),
                }
                i = j;
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_' || b[j] == b'.') {
                    j += 1;
                }
                out.push(Tok::W(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::C(c as char));
                i += 1;
            }
        }
    }
    out
}

struct Ps<'m> {
    t: Vec<Tok>,
    p: usize,
    m: &'m Module,
}

type R<T> = Result<T, String>;

impl<'m> Ps<'m> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.p)
    }
    fn next(&mut self) -> R<Tok> {
        let r = self.t.get(self.p).cloned().ok_or_else(|| "eol".to_string());
        self.p += 1;
        r
    }
    fn is(&self, c: char) -> bool {
        matches!(self.peek(), Some(Tok::C(x)) if *x == c)
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {} in {:?}", c, self.p, self.t))
        }
    }
    fn isw(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    fn eatw(&mut self, w: &str) -> bool {
        if self.isw(w) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        // at '('
        let mut d = 0;
        loop {
            match self.next()? {
                Tok::C('(') => d += 1,
                Tok::C(')') => {
                    d -= 1;
                    if d == 0 {
                        return Ok(());
                    }
                }
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::W(w)) => {
                matches!(w.as_str(), "ptr" | "void" | "float" | "double" | "half" | "label" | "metadata" | "x86_fp80" | "fp128")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::C('{')) | Some(Tok::C('[')) | Some(Tok::C('<')) => true,
            Some(Tok::L(n)) => self.m.named.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = self.next()?;
        Ok(match t {
            Tok::W(w) => match w.as_str() {
                "ptr" => {
                    if self.isw("addrspace") {
                        self.p += 1;
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "half" => Ty::F(16),
                "float" => Ty::F(32),
                "double" => Ty::F(64),
                "x86_fp80" | "fp128" => Ty::F(128),
                "label" => Ty::Label,
                "metadata" => Ty::Meta,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
                _ => return Err(format!("type {}", w)),
            },
            Tok::C('[') => {
                let n = self.num()?;
                self.next()?; // x
                let t = self.ty()?;
                self.want(']')?;
                Ty::Arr(n as u64, Rc::new(t))
            }
            Tok::C('{') => Ty::Struct(Rc::new(self.tys('}')?), false),
            Tok::C('<') => {
                if self.eat('{') {
                    let f = self.tys('}')?;
                    self.want('>')?;
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.num()?;
                    self.next()?;
                    let t = self.ty()?;
                    self.want('>')?;
                    Ty::Vec(n as u64, Rc::new(t))
                }
            }
            Tok::L(n) => self.m.named.get(&n).cloned().ok_or(format!("named type {}", n))?,
            t => return Err(format!("type from {:?}", t)),
        })
    }
    fn tys(&mut self, close: char) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(close) {
                return Ok(v);
            }
            self.want(',')?;
        }
    }
    fn num(&mut self) -> R<i128> {
        match self.next()? {
            Tok::N(n) => Ok(n),
            t => Err(format!("number, got {:?}", t)),
        }
    }
    /// Skip parameter/return attributes up to a value or type.
    fn attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    if self.at_type()
                        || matches!(
                            w.as_str(),
                            "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "ptrtoaddr" | "trunc" | "sub" | "add" | "xor" | "bitcast" | "none" | "splat" | "blockaddress" | "asm" | "dso_local_equivalent" | "no_cfi" | "c"
                        )
                    {
                        return Ok(());
                    }
                    let al = w == "align";
                    self.p += 1;
                    if self.is('(') {
                        self.skip_parens()?;
                    } else if al {
                        if let Some(Tok::N(_)) = self.peek() {
                            self.p += 1;
                        }
                    }
                }
                Some(Tok::Str(_)) => {
                    self.p += 1;
                    if self.eat('=') {
                        self.p += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn kint(w: u32, v: i128) -> Val {
        if w <= 64 {
            let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
            Val::I(v as u64 & m)
        } else {
            Val::W(Rc::new(v as u128 & crate::expr::mask(w as u8)))
        }
    }
    fn zero(t: &Ty) -> Val {
        match t {
            Ty::Int(w) => Self::kint(*w, 0),
            Ty::Ptr => Val::I(0),
            Ty::F(w) => Self::kint(*w, 0),
            Ty::Arr(n, e) | Ty::Vec(n, e) => Val::A(Rc::new((0..*n).map(|_| Self::zero(e)).collect())),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(Self::zero).collect())),
            _ => Val::I(0),
        }
    }
    fn konst(&mut self, t: &Ty) -> R<Val> {
        match self.value(t, None)? {
            Op::K(v) => Ok(v),
            _ => Err("constant expected".into()),
        }
    }
    fn kexpr_operand(&mut self) -> R<(Ty, Val)> {
        let t = self.ty()?;
        if !matches!(self.peek(), Some(Tok::Str(_))) {
            self.attrs()?;
        }
        let v = self.konst(&t)?;
        Ok((t, v))
    }
    fn k64(v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            _ => Err("const int".into()),
        }
    }
    fn value(&mut self, t: &Ty, regs: Option<&mut Regs>) -> R<Op> {
        let tok = self.next()?;
        Ok(match tok {
            Tok::L(n) => match regs {
                Some(r) => Op::R(r.get(&n)),
                None => return Err("local in constant".into()),
            },
            Tok::G(n) => {
                let a = *self.m.gmap.get(&n).ok_or_else(|| format!("unknown global {}", n))?;
                Op::K(Val::I(a))
            }
            Tok::N(n) => match t {
                Ty::Int(w) => Op::K(Self::kint(*w, n)),
                _ => return Err(format!("number for {:?}", t)),
            },
            Tok::Hex(n) => match t {
                Ty::F(32) => Op::K(Val::I((f64::from_bits(n) as f32).to_bits() as u64)),
                Ty::F(w) => Op::K(Self::kint(*w, n as i128)),
                _ => return Err("hex".into()),
            },
            Tok::Str(s) => Op::K(Val::A(Rc::new(s.iter().map(|b| Val::I(*b as u64)).collect()))),
            Tok::W(w) => match w.as_str() {
                "null" | "none" => Op::K(Self::zero(t)),
                "true" => Op::K(Val::I(1)),
                "false" => Op::K(Val::I(0)),
                "undef" | "poison" | "zeroinitializer" => Op::K(Self::zero(t)),
                "splat" => {
                    self.want('(')?;
                    let (_, v) = self.kexpr_operand()?;
                    self.want(')')?;
                    match t {
                        Ty::Vec(n, _) | Ty::Arr(n, _) => Op::K(Val::A(Rc::new((0..*n).map(|_| v.clone()).collect()))),
                        _ => return Err("splat".into()),
                    }
                }
                "getelementptr" => {
                    while let Some(Tok::W(_)) = self.peek() {
                        self.p += 1;
                        if self.isw("inrange") {
                            continue;
                        }
                    }
                    // optional inrange(...)
                    self.want('(')?;
                    let t0 = self.ty()?;
                    self.want(',')?;
                    let (_, base) = self.kexpr_operand()?;
                    let mut cur = t0;
                    let mut off: i64 = 0;
                    let mut first = true;
                    while self.eat(',') {
                        let (it, iv) = self.kexpr_operand()?;
                        let i = crate::expr::sext(Self::k64(&iv)? as u128, it.bits() as u8) as i64;
                        if first {
                            off += i * cur.size() as i64;
                            first = false;
                        } else {
                            let (o, c) = match &cur {
                                Ty::Arr(_, e) => (i * e.size() as i64, (**e).clone()),
                                _ => {
                                    let (o, c) = cur.field_off(i as usize);
                                    (o as i64, c)
                                }
                            };
                            off += o;
                            cur = c;
                        }
                    }
                    self.want(')')?;
                    Op::K(Val::I(Self::k64(&base)?.wrapping_add(off as u64)))
                }
                "inttoptr" | "ptrtoint" | "ptrtoaddr" | "bitcast" | "trunc" => {
                    while let Some(Tok::W(_)) = self.peek() {
                        self.p += 1;
                    }
                    self.want('(')?;
                    let (_, v) = self.kexpr_operand()?;
                    if !self.eatw("to") {
                        return Err("cast expr".into());
                    }
                    let t2 = self.ty()?;
                    self.want(')')?;
                    Op::K(Self::kint(t2.bits(), Self::k64(&v)? as i128))
                }
                "sub" | "add" | "xor" => {
                    while let Some(Tok::W(_)) = self.peek() {
                        self.p += 1;
                    }
                    self.want('(')?;
                    let (t1, a) = self.kexpr_operand()?;
                    self.want(',')?;
                    let (_, b) = self.kexpr_operand()?;
                    self.want(')')?;
                    let (a, b) = (Self::k64(&a)?, Self::k64(&b)?);
                    let r = match w.as_str() {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        _ => a ^ b,
                    };
                    Op::K(Self::kint(t1.bits(), r as i128))
                }
                _ => return Err(format!("value word {}", w)),
            },
            Tok::C('[') => Op::K(self.agg(']')?),
            Tok::C('{') => Op::K(self.agg('}')?),
            Tok::C('<') => {
                if self.eat('{') {
                    let v = self.agg('}')?;
                    self.want('>')?;
                    Op::K(v)
                } else {
                    Op::K(self.agg('>')?)
                }
            }
            t => return Err(format!("value {:?}", t)),
        })
    }
    fn agg(&mut self, close: char) -> R<Val> {
        let mut v = vec![];
        if self.eat(close) {
            return Ok(Val::A(Rc::new(v)));
        }
        loop {
            let (_, x) = self.kexpr_operand()?;
            v.push(x);
            if self.eat(close) {
                return Ok(Val::A(Rc::new(v)));
            }
            self.want(',')?;
        }
    }
}

pub struct Regs {
    map: HashMap<String, u32>,
    n: u32,
}
impl Regs {
    fn get(&mut self, n: &str) -> u32 {
        if let Some(&i) = self.map.get(n) {
            return i;
        }
        let i = self.n;
        self.n += 1;
        self.map.insert(n.to_string(), i);
        i
    }
}

pub const FUNC_OBJ_BASE: u64 = 0x4000_0000; // object ids >= this are functions

impl Module {
    pub fn load(path: &str) -> Result<Module, String> {
        let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        let mut lines = vec![];
        let mut st = 0;
        for (i, b) in text.bytes().enumerate() {
            if b == b'\n' {
                lines.push((st, i));
                st = i + 1;
            }
        }
        if st < text.len() {
            lines.push((st, text.len()));
        }
        let mut m = Module {
            text,
            lines,
            funcs: vec![],
            fmap: HashMap::new(),
            globals: vec![],
            gmap: HashMap::new(),
            named: HashMap::new(),
            parsed: HashMap::new(),
            next_obj: 1,
            aliases: HashMap::new(),
        };
        m.scan()?;
        Ok(m)
    }
    pub fn line(&self, i: usize) -> &str {
        let (a, b) = self.lines[i];
        &self.text[a..b]
    }
    fn sym_at(s: &str, at: usize) -> String {
        // s[at] == '@'
        let b = s.as_bytes();
        if b[at + 1] == b'"' {
            let e = s[at + 2..].find('"').unwrap();
            String::from_utf8_lossy(&unescape(&b[at + 2..at + 2 + e])).into_owned()
        } else {
            let mut j = at + 1;
            while j < b.len() && (b[j].is_ascii_alphanumeric() || matches!(b[j], b'_' | b'.' | b'$' | b'-')) {
                j += 1;
            }
            s[at + 1..j].to_string()
        }
    }
    fn scan(&mut self) -> Result<(), String> {
        // named types first
        let mut pending = vec![];
        for i in 0..self.lines.len() {
            let l = self.line(i);
            if l.starts_with('%') && l.contains(" = type ") {
                pending.push(i);
            }
        }
        for _ in 0..pending.len() + 1 {
            let mut rest = vec![];
            for &i in &pending {
                let toks = lex(self.line(i));
                let name = match &toks[0] {
                    Tok::L(n) => n.clone(),
                    _ => continue,
                };
                let t = {
                    let mut p = Ps { t: toks, p: 3, m: self };
                    p.ty()
                };
                match t {
                    Ok(t) => {
                        self.named.insert(name, t);
                    }
                    Err(_) => rest.push(i),
                }
            }
            if rest.is_empty() {
                break;
            }
            pending = rest;
        }
        // symbols
        let mut i = 0;
        let mut glob_lines = vec![];
        while i < self.lines.len() {
            let l = self.line(i);
            if l.starts_with("define ") || l.starts_with("declare ") {
                let def = l.starts_with("define ");
                let at = l.find('@').ok_or("define without name")?;
                let name = Self::sym_at(l, at);
                let mut body = None;
                if def {
                    let s = i;
                    while self.line(i) != "}" {
                        i += 1;
                    }
                    body = Some((s, i));
                }
                let id = self.funcs.len() as u32;
                let addr = (FUNC_OBJ_BASE + id as u64) << 32;
                self.fmap.insert(name.clone(), id);
                self.gmap.insert(name.clone(), addr);
                self.funcs.push(FuncDecl { name, body, addr });
            } else if l.starts_with('@') {
                glob_lines.push(i);
            }
            i += 1;
        }
        let mut gl = vec![];
        for &i in &glob_lines {
            let l = self.line(i);
            let name = Self::sym_at(l, 0);
            if l.contains(" alias ") && !l.contains(" constant ") && !l.contains(" global ") {
                let at = l.rfind('@').unwrap();
                let target = Self::sym_at(l, at);
                self.aliases.insert(name, target);
                continue;
            }
            let toks = lex(l);
            // find 'constant' or 'global'
            let k = toks.iter().position(|t| matches!(t, Tok::W(w) if w == "constant" || w == "global"));
            let k = match k {
                Some(k) => k,
                None => continue,
            };
            let constant = matches!(&toks[k], Tok::W(w) if w == "constant");
            let ext = toks[..k].iter().any(|t| matches!(t, Tok::W(w) if w == "external" || w == "extern_weak"));
            let ty = {
                let mut p = Ps { t: toks, p: k + 1, m: self };
                p.ty()?
            };
            let id = self.next_obj;
            self.next_obj += 1;
            let addr = (id as u64) << 32;
            self.gmap.insert(name.clone(), addr);
            gl.push(GlobalDef {
                addr,
                size: ty.size(),
                constant,
                init: if ext { None } else { Some((ty, i)) },
                name,
            });
        }
        let al: Vec<(String, String)> = self.aliases.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        for _ in 0..4 {
            for (a, b) in &al {
                if let Some(&x) = self.gmap.get(b) {
                    self.gmap.insert(a.clone(), x);
                    if let Some(&f) = self.fmap.get(b) {
                        self.fmap.insert(a.clone(), f);
                    }
                }
            }
        }
        self.globals = gl;
        Ok(())
    }
    /// Initial bytes of a global (zero if external).
    pub fn global_bytes(&self, g: &GlobalDef) -> Result<Vec<u8>, String> {
        let mut out = vec![0u8; g.size as usize];
        if let Some((ty, line)) = &g.init {
            let toks = lex(self.line(*line));
            let k = toks.iter().position(|t| matches!(t, Tok::W(w) if w == "constant" || w == "global")).unwrap();
            let mut p = Ps { t: toks, p: k + 1, m: self };
            p.ty()?;
            let v = p.konst(ty).map_err(|e| format!("global {}: {}", g.name, e))?;
            write_const(ty, &v, &mut out)?;
        }
        Ok(out)
    }
    pub fn func(&mut self, id: u32) -> Result<Rc<Func>, String> {
        if let Some(f) = self.parsed.get(&id) {
            return Ok(f.clone());
        }
        let f = Rc::new(self.parse_func(id)?);
        self.parsed.insert(id, f.clone());
        Ok(f)
    }
    fn parse_func(&self, id: u32) -> Result<Func, String> {
        let d = &self.funcs[id as usize];
        let (s, e) = d.body.ok_or_else(|| format!("no body for {}", d.name))?;
        let mut regs = Regs { map: HashMap::new(), n: 0 };
        let mut params = vec![];
        let mut lastname: Option<String> = None;
        let mut nunnamed = 0u32;
        {
            let toks = lex(self.line(s));
            let at = toks.iter().position(|t| matches!(t, Tok::G(n) if *n == d.name)).ok_or("define name")?;
            let mut p = Ps { t: toks, p: at + 1, m: self };
            p.want('(')?;
            if !p.eat(')') {
                loop {
                    if let Some(Tok::Dots) = p.peek() {
                        p.p += 1;
                        p.want(')')?;
                        break;
                    }
                    let _t = p.ty()?;
                    p.attrs()?;
                    if let Some(Tok::L(n)) = p.peek().cloned() {
                        p.p += 1;
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            nunnamed = nunnamed.max(n.parse::<u32>().unwrap() + 1);
                        }
                        params.push(regs.get(&n));
                        lastname = Some(n);
                    } else {
                        params.push(regs.get(&format!("{}", nunnamed)));
                        nunnamed += 1;
                    }
                    if p.eat(')') {
                        break;
                    }
                    p.want(',')?;
                }
            }
        }
        let _ = lastname;
        // gather logical lines per block
        let mut blocks: Vec<(String, Vec<String>)> = vec![];
        let mut i = s + 1;
        while i < e {
            let l = self.line(i);
            let t = l.trim_end();
            if t.is_empty() || t.trim_start().starts_with(';') {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let name = if l.starts_with('"') {
                    let e = l[1..].find('"').unwrap();
                    String::from_utf8_lossy(&unescape(l[1..1 + e].as_bytes())).into_owned()
                } else {
                    l[..l.find(':').ok_or("label")?].to_string()
                };
                blocks.push((name, vec![]));
                i += 1;
                continue;
            }
            if blocks.is_empty() {
                blocks.push((format!("{}", nunnamed), vec![]));
            }
            let tr = t.trim_start();
            if tr.starts_with("#dbg_") {
                i += 1;
                continue;
            }
            let mut full = tr.to_string();
            if tr.starts_with("switch ") {
                while !self.line(i).trim_start().starts_with(']') && !full.contains(']') {
                    i += 1;
                    full.push(' ');
                    full.push_str(self.line(i).trim());
                }
            } else if tr.starts_with("invoke ") || tr.contains(" = invoke ") {
                i += 1;
                full.push(' ');
                full.push_str(self.line(i).trim());
            } else if tr.contains(" = landingpad ") {
                while i + 1 < e && self.line(i + 1).starts_with("          ") {
                    i += 1;
                }
            }
            blocks.last_mut().unwrap().1.push(full);
            i += 1;
        }
        let bmap: HashMap<String, u32> = blocks.iter().enumerate().map(|(i, b)| (b.0.clone(), i as u32)).collect();
        let mut out = vec![];
        for (bname, ls) in &blocks {
            let mut b = Block { phis: vec![], insts: vec![] };
            for l in ls {
                let mut p = Ps { t: lex(l), p: 0, m: self };
                match self.inst(&mut p, &mut regs, &bmap, &mut b) {
                    Ok(()) => {}
                    Err(err) => b.insts.push(Inst::Unsupported(format!("{}: {} in {} block {}", err, l, d.name, bname))),
                }
            }
            out.push(b);
        }
        Ok(Func {
            id,
            name: d.name.clone(),
            nregs: regs.n,
            params,
            blocks: out,
        })
    }
    fn inst(&self, p: &mut Ps, regs: &mut Regs, bmap: &HashMap<String, u32>, b: &mut Block) -> R<()> {
        let mut dst = None;
        if let Some(Tok::L(n)) = p.peek().cloned() {
            p.p += 1;
            p.want('=')?;
            dst = Some(regs.get(&n));
        }
        let mut op = match p.next()? {
            Tok::W(w) => w,
            t => return Err(format!("opcode {:?}", t)),
        };
        if matches!(op.as_str(), "tail" | "musttail" | "notail") {
            p.next()?;
            op = "call".into();
        }
        let label = |p: &mut Ps| -> R<u32> {
            if !p.eatw("label") {
                return Err("label".into());
            }
            match p.next()? {
                Tok::L(n) => bmap.get(&n).copied().ok_or(format!("block {}", n)),
                t => Err(format!("label {:?}", t)),
            }
        };
        macro_rules! d {
            () => {
                dst.ok_or("no destination")?
            };
        }
        match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(p.peek(), Some(Tok::W(w)) if matches!(w.as_str(), "nuw"|"nsw"|"exact"|"disjoint")) {
                    p.p += 1;
                }
                let t = p.ty()?;
                let x = p.value(&t, Some(regs))?;
                p.want(',')?;
                let y = p.value(&t, Some(regs))?;
                let o = match op.as_str() {
                    "add" => Bop::Add,
                    "sub" => Bop::Sub,
                    "mul" => Bop::Mul,
                    "udiv" => Bop::UDiv,
                    "sdiv" => Bop::SDiv,
                    "urem" => Bop::URem,
                    "srem" => Bop::SRem,
                    "and" => Bop::And,
                    "or" => Bop::Or,
                    "xor" => Bop::Xor,
                    "shl" => Bop::Shl,
                    "lshr" => Bop::LShr,
                    _ => Bop::AShr,
                };
                if let Ty::Vec(_, e) = &t {
                    b.insts.push(Inst::VBin(d!(), o, e.bits() as u8, x, y));
                } else {
                    if t.bits() > 128 {
                        return Err("wide int".into());
                    }
                    b.insts.push(Inst::Bin(d!(), o, t.bits() as u8, x, y));
                }
            }
            "icmp" => {
                p.eatw("samesign");
                let pred = match p.next()? {
                    Tok::W(w) => w,
                    _ => return Err("pred".into()),
                };
                let t = p.ty()?;
                let mut x = p.value(&t, Some(regs))?;
                p.want(',')?;
                let mut y = p.value(&t, Some(regs))?;
                let (o, neg, swap) = match pred.as_str() {
                    "eq" => (Cop::Eq, false, false),
                    "ne" => (Cop::Eq, true, false),
                    "ult" => (Cop::Ult, false, false),
                    "ule" => (Cop::Ule, false, false),
                    "ugt" => (Cop::Ult, false, true),
                    "uge" => (Cop::Ule, false, true),
                    "slt" => (Cop::Slt, false, false),
                    "sle" => (Cop::Sle, false, false),
                    "sgt" => (Cop::Slt, false, true),
                    "sge" => (Cop::Sle, false, true),
                    _ => return Err("pred".into()),
                };
                if swap {
                    std::mem::swap(&mut x, &mut y);
                }
                if let Ty::Vec(_, e) = &t {
                    b.insts.push(Inst::VIcmp(d!(), o, neg, e.bits() as u8, x, y));
                } else {
                    b.insts.push(Inst::Icmp(d!(), o, neg, t.bits() as u8, x, y));
                }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "ptrtoaddr" | "inttoptr" | "bitcast" | "addrspacecast" => {
                while matches!(p.peek(), Some(Tok::W(w)) if matches!(w.as_str(), "nuw"|"nsw"|"nneg")) {
                    p.p += 1;
                }
                let t = p.ty()?;
                let x = p.value(&t, Some(regs))?;
                if !p.eatw("to") {
                    return Err("to".into());
                }
                let t2 = p.ty()?;
                let k = match op.as_str() {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    _ => Cast::Bit,
                };
                match (&t, &t2) {
                    (Ty::Vec(_, e), Ty::Vec(_, e2)) if !matches!(k, Cast::Bit) => b.insts.push(Inst::VCast(d!(), k, e.bits() as u8, e2.bits() as u8, x)),
                    (a, c) if a.is_scalar() && c.is_scalar() => {
                        let (wa, wc) = (a.bits(), c.bits());
                        if wa > 128 || wc > 128 {
                            return Err("wide int".into());
                        }
                        let k = match k {
                            Cast::Bit if wa > wc => Cast::Trunc,
                            Cast::Bit if wa < wc => Cast::ZExt,
                            k => k,
                        };
                        b.insts.push(Inst::Cast(d!(), k, wa as u8, wc as u8, x))
                    }
                    _ => b.insts.push(Inst::BitcastAgg(d!(), t, t2, x)),
                }
            }
            "freeze" => {
                let t = p.ty()?;
                let x = p.value(&t, Some(regs))?;
                b.insts.push(Inst::Copy(d!(), x));
            }
            "select" => {
                let tc = p.ty()?;
                let c = p.value(&tc, Some(regs))?;
                p.want(',')?;
                let t = p.ty()?;
                let x = p.value(&t, Some(regs))?;
                p.want(',')?;
                let t2 = p.ty()?;
                let y = p.value(&t2, Some(regs))?;
                if matches!(tc, Ty::Vec(..)) {
                    return Err("vector select".into());
                }
                b.insts.push(Inst::Select(d!(), t, c, x, y));
            }
            "load" => {
                p.eatw("atomic");
                p.eatw("volatile");
                let t = p.ty()?;
                p.want(',')?;
                let pt = p.ty()?;
                let x = p.value(&pt, Some(regs))?;
                b.insts.push(Inst::Load(d!(), t, x));
            }
            "store" => {
                p.eatw("atomic");
                p.eatw("volatile");
                let t = p.ty()?;
                let v = p.value(&t, Some(regs))?;
                p.want(',')?;
                let pt = p.ty()?;
                let x = p.value(&pt, Some(regs))?;
                b.insts.push(Inst::Store(t, v, x));
            }
            "getelementptr" => {
                while let Some(Tok::W(w)) = p.peek() {
                    if matches!(w.as_str(), "inbounds" | "nuw" | "nusw") {
                        p.p += 1;
                    } else {
                        break;
                    }
                }
                let t = p.ty()?;
                p.want(',')?;
                let pt = p.ty()?;
                if matches!(pt, Ty::Vec(..)) {
                    return Err("vector gep".into());
                }
                let base = p.value(&pt, Some(regs))?;
                let mut cur = t;
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut first = true;
                while p.eat(',') {
                    if let Some(Tok::Meta) = p.peek() {
                        break;
                    }
                    let it = p.ty()?;
                    let iv = p.value(&it, Some(regs))?;
                    let scale;
                    let nxt;
                    if first {
                        first = false;
                        scale = cur.size() as i64;
                        nxt = cur.clone();
                    } else {
                        match &cur {
                            Ty::Arr(_, e) => {
                                scale = e.size() as i64;
                                nxt = (**e).clone();
                            }
                            Ty::Struct(..) => {
                                let k = match &iv {
                                    Op::K(Val::I(k)) => *k as usize,
                                    _ => return Err("struct gep".into()),
                                };
                                let (o, f) = cur.field_off(k);
                                off += o as i64;
                                cur = f;
                                continue;
                            }
                            _ => return Err("gep type".into()),
                        }
                    }
                    match &iv {
                        Op::K(Val::I(k)) => off += crate::expr::sext(*k as u128, it.bits() as u8) as i64 * scale,
                        _ => dynv.push((iv, it.bits() as u8, scale)),
                    }
                    cur = nxt;
                }
                b.insts.push(Inst::Gep(d!(), base, off, dynv));
            }
            "alloca" => {
                let t = p.ty()?;
                let mut n = Op::K(Val::I(1));
                if p.eat(',') {
                    if p.at_type() {
                        let it = p.ty()?;
                        n = p.value(&it, Some(regs))?;
                    }
                }
                b.insts.push(Inst::Alloca(d!(), t.size(), n));
            }
            "call" | "invoke" => {
                p.attrs()?; // calling convention and return attributes
                let rt = p.ty()?;
                if p.is('(') {
                    p.skip_parens()?; // varargs function type
                }
                let callee = match p.peek().cloned() {
                    Some(Tok::G(n)) => {
                        p.p += 1;
                        match self.fmap.get(&n) {
                            Some(f) => Callee::Direct(*f),
                            None => return Err(format!("call to unknown {}", n)),
                        }
                    }
                    Some(Tok::W(w)) if w == "asm" => {
                        while !p.is('(') {
                            p.next()?;
                        }
                        Callee::Asm
                    }
                    _ => Callee::Indirect(p.value(&Ty::Ptr, Some(regs))?),
                };
                p.want('(')?;
                let mut args = vec![];
                if !p.eat(')') {
                    loop {
                        let t = p.ty()?;
                        if t == Ty::Meta {
                            // skip metadata operand
                            let mut d = 0;
                            while d > 0 || !(p.is(',') || p.is(')')) {
                                match p.next()? {
                                    Tok::C('(') => d += 1,
                                    Tok::C(')') => d -= 1,
                                    _ => {}
                                }
                            }
                        } else {
                            p.attrs()?;
                            let v = p.value(&t, Some(regs))?;
                            args.push((t, v));
                        }
                        if p.eat(')') {
                            break;
                        }
                        p.want(',')?;
                    }
                }
                let dd = if rt == Ty::Void { None } else { dst };
                b.insts.push(Inst::Call(dd, callee, args, rt));
                if op == "invoke" {
                    while !p.isw("to") {
                        p.next()?;
                    }
                    p.next()?;
                    let l = label(p)?;
                    b.insts.push(Inst::Br(l));
                }
            }
            "phi" => {
                let t = p.ty()?;
                let mut inc = vec![];
                loop {
                    p.want('[')?;
                    let v = p.value(&t, Some(regs))?;
                    p.want(',')?;
                    match p.next()? {
                        Tok::L(n) => inc.push((*bmap.get(&n).ok_or("phi block")?, v)),
                        _ => return Err("phi".into()),
                    }
                    p.want(']')?;
                    if !p.eat(',') {
                        break;
                    }
                    if !p.is('[') {
                        break;
                    }
                }
                b.phis.push((d!(), inc));
            }
            "extractvalue" => {
                let t = p.ty()?;
                let x = p.value(&t, Some(regs))?;
                let mut ix = vec![];
                while p.eat(',') {
                    match p.peek() {
                        Some(Tok::N(_)) => ix.push(p.num()? as u32),
                        _ => break,
                    }
                }
                b.insts.push(Inst::ExtractV(d!(), x, ix));
            }
            "insertvalue" => {
                let t = p.ty()?;
                let x = p.value(&t, Some(regs))?;
                p.want(',')?;
                let t2 = p.ty()?;
                let y = p.value(&t2, Some(regs))?;
                let mut ix = vec![];
                while p.eat(',') {
                    match p.peek() {
                        Some(Tok::N(_)) => ix.push(p.num()? as u32),
                        _ => break,
                    }
                }
                b.insts.push(Inst::InsertV(d!(), x, y, ix));
            }
            "extractelement" => {
                let t = p.ty()?;
                let x = p.value(&t, Some(regs))?;
                p.want(',')?;
                let t2 = p.ty()?;
                let y = p.value(&t2, Some(regs))?;
                b.insts.push(Inst::ExtractE(d!(), x, y));
            }
            "insertelement" => {
                let t = p.ty()?;
                let x = p.value(&t, Some(regs))?;
                p.want(',')?;
                let t2 = p.ty()?;
                let y = p.value(&t2, Some(regs))?;
                p.want(',')?;
                let t3 = p.ty()?;
                let z = p.value(&t3, Some(regs))?;
                b.insts.push(Inst::InsertE(d!(), x, y, z));
            }
            "shufflevector" => {
                let t = p.ty()?;
                let x = p.value(&t, Some(regs))?;
                p.want(',')?;
                let t2 = p.ty()?;
                let y = p.value(&t2, Some(regs))?;
                p.want(',')?;
                let t3 = p.ty()?;
                let z = p.konst(&t3)?;
                let ix = match z {
                    Val::A(v) => v
                        .iter()
                        .map(|x| match x {
                            Val::I(k) => *k as i64,
                            _ => 0,
                        })
                        .collect(),
                    _ => return Err("shuffle mask".into()),
                };
                b.insts.push(Inst::Shuffle(d!(), x, y, ix));
            }
            "atomicrmw" => {
                p.eatw("volatile");
                let o = match p.next()? {
                    Tok::W(w) => w,
                    _ => return Err("rmw".into()),
                };
                let pt = p.ty()?;
                let a = p.value(&pt, Some(regs))?;
                p.want(',')?;
                let t = p.ty()?;
                let v = p.value(&t, Some(regs))?;
                b.insts.push(Inst::AtomicRmw(d!(), o, t, a, v));
            }
            "cmpxchg" => {
                p.eatw("weak");
                p.eatw("volatile");
                let pt = p.ty()?;
                let a = p.value(&pt, Some(regs))?;
                p.want(',')?;
                let t = p.ty()?;
                let v = p.value(&t, Some(regs))?;
                p.want(',')?;
                let t2 = p.ty()?;
                let n = p.value(&t2, Some(regs))?;
                b.insts.push(Inst::CmpXchg(d!(), t, a, v, n));
            }
            "fence" => b.insts.push(Inst::Nop),
            "br" => {
                if p.isw("label") {
                    let l = label(p)?;
                    b.insts.push(Inst::Br(l));
                } else {
                    let t = p.ty()?;
                    let c = p.value(&t, Some(regs))?;
                    p.want(',')?;
                    let l1 = label(p)?;
                    p.want(',')?;
                    let l2 = label(p)?;
                    b.insts.push(Inst::CondBr(c, l1, l2));
                }
            }
            "switch" => {
                let t = p.ty()?;
                let v = p.value(&t, Some(regs))?;
                p.want(',')?;
                let def = label(p)?;
                p.want('[')?;
                let mut cs = vec![];
                while !p.eat(']') {
                    let ct = p.ty()?;
                    let k = p.konst(&ct)?;
                    let k = match k {
                        Val::I(k) => k,
                        _ => return Err("wide switch".into()),
                    };
                    p.want(',')?;
                    cs.push((k, label(p)?));
                }
                b.insts.push(Inst::Switch(v, t.bits() as u8, cs, def));
            }
            "ret" => {
                let t = p.ty()?;
                if t == Ty::Void {
                    b.insts.push(Inst::Ret(None));
                } else {
                    let v = p.value(&t, Some(regs))?;
                    b.insts.push(Inst::Ret(Some(v)));
                }
            }
            "unreachable" => b.insts.push(Inst::Unreachable),
            _ => return Err(format!("opcode {}", op)),
        }
        Ok(())
    }
}

fn write_const(t: &Ty, v: &Val, out: &mut [u8]) -> Result<(), String> {
    match (t, v) {
        (Ty::Int(_) | Ty::Ptr | Ty::F(_), Val::I(x)) => {
            let n = t.store_size() as usize;
            let b = x.to_le_bytes();
            for i in 0..n.min(8) {
                out[i] = b[i];
            }
        }
        (_, Val::W(x)) => {
            let n = t.store_size() as usize;
            let b = x.to_le_bytes();
            out[..n.min(16)].copy_from_slice(&b[..n.min(16)]);
        }
        (Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..), Val::A(vs)) => {
            for (i, x) in vs.iter().enumerate() {
                let (o, ft) = t.field_off(i);
                let sz = ft.size() as usize;
                write_const(&ft, x, &mut out[o as usize..o as usize + sz])?;
            }
        }
        _ => return Err(format!("const {:?}", t)),
    }
    Ok(())
}
