//! The reference: the documented grammar as data, and a small interpreter for
//! it that works on bytes and records what it recognised on a tape.
//!
//! Alternatives are ordered: the first documented form that matches wins.
//! A word is accepted as an identifier even if it is also a keyword.

pub type Tape = Vec<u32>;

pub enum G {
    /// punctuation
    P(&'static str),
    /// keyword: must not be followed by a word character
    K(&'static str),
    Id,
    Dec,
    Hex,
    Oct,
    Str,
    Float,
    /// `true` / `false`
    Bool,
    Seq(&'static [G]),
    Opt(&'static G),
    Many(&'static G),
    /// items, separator, at least one item, trailing separator allowed
    List(&'static G, &'static G, bool, bool),
    /// ordered choice, and the alternative a generator prefers
    Alt(usize, &'static [G]),
    R(&'static G),
    /// flag? mid tail?   where tail is only allowed after flag
    Cond(&'static G, &'static G, &'static G),
}
use G::*;

pub fn word(c: u8) -> bool {
    (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || (c >= b'0' && c <= b'9') || c == b'_' || c == b'-'
}
fn alpha(c: u8) -> bool {
    (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z')
}
fn digit(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}
fn hexdigit(c: u8) -> bool {
    digit(c) || (c >= b'a' && c <= b'f') || (c >= b'A' && c <= b'F')
}
fn space(c: u8) -> bool {
    c == b' ' || c == b'\n' || c == b'\t' || c == b'\r'
}

pub struct Ref<'s> {
    pub s: &'s [u8],
    pub t: Tape,
}

impl<'s> Ref<'s> {
    pub fn new(s: &'s [u8]) -> Ref<'s> {
        Ref { s, t: Vec::with_capacity(512) }
    }
    fn at(&self, i: usize) -> Option<u8> {
        if i < self.s.len() {
            Some(self.s[i])
        } else {
            None
        }
    }
    /// Position after the whitespace and comments at `i`.
    pub fn trivia(&self, mut i: usize) -> usize {
        let n = self.s.len();
        loop {
            if i >= n {
                return i;
            }
            let c = self.s[i];
            if space(c) {
                i += 1;
                continue;
            }
            if c == b'/' && i + 1 < n {
                let d = self.s[i + 1];
                if d == b'/' {
                    i += 2;
                    while i < n && self.s[i] != b'\n' {
                        i += 1;
                    }
                    if i < n {
                        i += 1;
                    }
                    continue;
                }
                if d == b'*' {
                    let mut j = i + 2;
                    let mut closed = false;
                    while j + 1 < n {
                        if self.s[j] == b'*' && self.s[j + 1] == b'/' {
                            closed = true;
                            break;
                        }
                        j += 1;
                    }
                    if closed {
                        i = j + 2;
                        continue;
                    }
                }
            }
            return i;
        }
    }
    fn lit(&self, i: usize, w: &str) -> Option<usize> {
        let w = w.as_bytes();
        if i + w.len() > self.s.len() {
            return None;
        }
        let mut k = 0;
        while k < w.len() {
            if self.s[i + k] != w[k] {
                return None;
            }
            k += 1;
        }
        Some(i + k)
    }
    fn span(&self, mut i: usize, f: fn(u8) -> bool) -> usize {
        while i < self.s.len() && f(self.s[i]) {
            i += 1;
        }
        i
    }
    fn is(&self, i: usize, c: u8) -> bool {
        self.at(i) == Some(c)
    }
    /// Exponent at `i`: position after it, or `i` if there is none.
    fn exp(&self, i: usize) -> usize {
        if self.is(i, b'e') || self.is(i, b'E') {
            let mut j = i + 1;
            if self.is(j, b'+') || self.is(j, b'-') {
                j += 1;
            }
            let k = self.span(j, digit);
            if k > j {
                return k;
            }
        }
        i
    }
    /// Lexeme at `i`: (start and end of the recorded slice, end of the lexeme)
    fn lexeme(&self, g: &G, i: usize) -> Option<(usize, usize, usize)> {
        match g {
            Id => {
                let mut b = i;
                if self.is(b, b'_') {
                    b += 1;
                }
                match self.at(b) {
                    Some(c) if alpha(c) => {
                        let e = self.span(b + 1, word);
                        Some((b, e, e))
                    }
                    _ => None,
                }
            }
            Str => {
                if !self.is(i, b'"') {
                    return None;
                }
                let mut e = i + 1;
                while e < self.s.len() && self.s[e] != b'"' {
                    e += 1;
                }
                if e >= self.s.len() {
                    return None;
                }
                Some((i + 1, e, e + 1))
            }
            _ => {
                let mut b = i;
                if self.is(b, b'-') {
                    b += 1;
                }
                match g {
                    Dec => {
                        let e = self.span(b, digit);
                        if e > b && self.s[b] != b'0' {
                            return Some((i, e, e));
                        }
                    }
                    Hex => {
                        if self.is(b, b'0') && (self.is(b + 1, b'x') || self.is(b + 1, b'X')) {
                            let e = self.span(b + 2, hexdigit);
                            if e > b + 2 {
                                return Some((i, e, e));
                            }
                        }
                    }
                    Oct => {
                        if self.is(b, b'0') {
                            let e = self.span(b + 1, |c| c >= b'0' && c <= b'7');
                            return Some((i, e, e));
                        }
                    }
                    Float => {
                        let d1 = self.span(b, digit);
                        if self.is(d1, b'.') {
                            let d2 = self.span(d1 + 1, digit);
                            if d1 > b || d2 > d1 + 1 {
                                let e = self.exp(d2);
                                return Some((i, e, e));
                            }
                        } else if d1 > b {
                            let e = self.exp(d1);
                            if e > d1 {
                                return Some((i, e, e));
                            }
                        }
                    }
                    _ => {}
                }
                None
            }
        }
    }
    fn keyword(&self, i: usize, w: &str) -> Option<usize> {
        let e = self.lit(i, w)?;
        match self.at(e) {
            Some(c) if word(c) => None,
            _ => Some(e),
        }
    }
    pub fn p(&mut self, g: &'static G, i: usize) -> Option<usize> {
        match g {
            P(w) => {
                let j = self.trivia(i);
                let e = self.lit(j, w)?;
                Some(self.trivia(e))
            }
            K(w) => {
                let j = self.trivia(i);
                let e = self.keyword(j, w)?;
                Some(self.trivia(e))
            }
            Bool => {
                let j = self.trivia(i);
                if let Some(e) = self.keyword(j, "true") {
                    self.t.push(1);
                    return Some(self.trivia(e));
                }
                let e = self.keyword(j, "false")?;
                self.t.push(0);
                Some(self.trivia(e))
            }
            Id | Dec | Hex | Oct | Str | Float => {
                let j = self.trivia(i);
                let (a, b, e) = self.lexeme(g, j)?;
                self.t.push(SLICE | a as u32);
                self.t.push((b - a) as u32);
                Some(self.trivia(e))
            }
            Seq(gs) => {
                let mut j = i;
                for x in gs.iter() {
                    j = self.p(x, j)?;
                }
                Some(j)
            }
            Opt(x) => {
                let m = self.t.len();
                self.t.push(1);
                if let Some(j) = self.p(x, i) {
                    return Some(j);
                }
                self.t.truncate(m);
                self.t.push(0);
                Some(i)
            }
            Many(x) => {
                let mut j = i;
                loop {
                    let m = self.t.len();
                    self.t.push(1);
                    match self.p(x, j) {
                        Some(k) => j = k,
                        None => {
                            self.t.truncate(m);
                            self.t.push(0);
                            return Some(j);
                        }
                    }
                }
            }
            List(x, sep, nonempty, trailing) => {
                let mut j = i; // after the last item
                let mut k = i; // where the next item is looked for
                let mut first = true;
                loop {
                    let m = self.t.len();
                    self.t.push(1);
                    match self.p(x, k) {
                        Some(e) => j = e,
                        None => {
                            self.t.truncate(m);
                            self.t.push(0);
                            if first {
                                return if *nonempty { None } else { Some(i) };
                            }
                            return Some(if *trailing { k } else { j });
                        }
                    }
                    first = false;
                    match self.p(sep, j) {
                        Some(e) => k = e,
                        None => {
                            self.t.push(0);
                            return Some(j);
                        }
                    }
                }
            }
            Alt(_, gs) => {
                let m = self.t.len();
                let mut n = 0;
                for x in gs.iter() {
                    self.t.push(n);
                    if let Some(j) = self.p(x, i) {
                        return Some(j);
                    }
                    self.t.truncate(m);
                    n += 1;
                }
                None
            }
            R(x) => self.p(x, i),
            Cond(flag, mid, tail) => {
                let m = self.t.len();
                let j = self.p(flag, i);
                self.t.truncate(m);
                match j {
                    Some(j) => {
                        self.t.push(1);
                        let k = self.p(mid, j)?;
                        let m = self.t.len();
                        self.t.push(1);
                        if let Some(e) = self.p(tail, k) {
                            return Some(e);
                        }
                        self.t.truncate(m);
                        self.t.push(0);
                        Some(k)
                    }
                    None => {
                        self.t.push(0);
                        let k = self.p(mid, i)?;
                        self.t.push(0);
                        Some(k)
                    }
                }
            }
        }
    }
}

/// Marks a tape entry as the offset of a slice of the input.
pub const SLICE: u32 = 0x4000_0000;

macro_rules! seq { ($($e:expr),* $(,)?) => { Seq(&[$($e),*]) } }
macro_rules! alt { ($d:expr; $($e:expr),* $(,)?) => { Alt($d, &[$($e),*]) } }
macro_rules! opt { ($e:expr) => { Opt(&$e) } }

// ---- literals ----
pub static INTEGER: G = alt!(0; Dec, Hex, Oct);
pub static FLOAT: G = alt!(0; Float, K("-Infinity"), K("Infinity"), K("NaN"));
pub static EMPTY_ARRAY: G = seq!(P("["), P("]"));
pub static EMPTY_DICT: G = seq!(P("{"), P("}"));
pub static DEFAULT_VALUE: G = alt!(5; Bool, R(&EMPTY_ARRAY), R(&EMPTY_DICT), R(&FLOAT), R(&INTEGER), K("null"), Str);
pub static CONST_VALUE: G = alt!(3; Bool, R(&FLOAT), R(&INTEGER), K("null"));
pub static DEFAULT: G = seq!(P("="), R(&DEFAULT_VALUE));

// ---- attributes and arguments ----
pub static ARGS: G = List(&R(&ARGUMENT), &P(","), false, false);
pub static PAREN_ARGS: G = seq!(P("("), R(&ARGS), P(")"));
pub static IDENTS: G = List(&Id, &P(","), false, false);
pub static ID_OR_STR: G = alt!(0; Id, Str);
pub static A_ARGS: G = seq!(Id, R(&PAREN_ARGS));
pub static A_NAMED: G = seq!(Id, P("="), Id, R(&PAREN_ARGS));
pub static PAREN_IDENTS: G = seq!(P("("), R(&IDENTS), P(")"));
pub static A_IDENTS: G = seq!(Id, P("="), R(&PAREN_IDENTS));
pub static A_IDENT: G = seq!(Id, P("="), R(&ID_OR_STR));
pub static A_WILD: G = seq!(Id, P("="), P("*"));
pub static A_NONE: G = Id;
pub static EXT_ATTR: G = alt!(5; R(&A_ARGS), R(&A_NAMED), R(&A_IDENTS), R(&A_IDENT), R(&A_WILD), R(&A_NONE));
pub static IDENT: G = Id;
pub static STRING: G = Str;
pub static DEC: G = Dec;
pub static HEX: G = Hex;
pub static OCT: G = Oct;
pub static FLOAT_VALUE: G = Float;
pub static BOOL: G = Bool;
pub static EXT_ATTRS: G = seq!(P("["), List(&R(&EXT_ATTR), &P(","), false, false), P("]"));
pub static OPT_ATTRS: G = opt!(R(&EXT_ATTRS));
pub static SINGLE_ARG: G = seq!(R(&OPT_ATTRS), Cond(&K("optional"), &seq!(R(&ATTR_TYPE), Id), &R(&DEFAULT)));
pub static VARIADIC_ARG: G = seq!(R(&OPT_ATTRS), R(&TYPE), P("..."), Id);
pub static ARGUMENT: G = alt!(0; R(&SINGLE_ARG), R(&VARIADIC_ARG));

// ---- types ----
macro_rules! nullable { ($e:expr) => { seq!($e, opt!(P("?"))) } }
pub static T_LONGLONG: G = seq!(opt!(K("unsigned")), K("long"), K("long"));
pub static T_LONG: G = seq!(opt!(K("unsigned")), K("long"));
pub static T_SHORT: G = seq!(opt!(K("unsigned")), K("short"));
pub static INTEGER_TYPE: G = alt!(1; R(&T_LONGLONG), R(&T_LONG), R(&T_SHORT));
pub static T_FLOAT: G = seq!(opt!(K("unrestricted")), K("float"));
pub static T_DOUBLE: G = seq!(opt!(K("unrestricted")), K("double"));
pub static FLOAT_TYPE: G = alt!(0; R(&T_FLOAT), R(&T_DOUBLE));
pub static UNION: G = seq!(P("("), List(&R(&UNION_MEMBER), &K("or"), false, false), P(")"));
pub static NULL_UNION: G = nullable!(R(&UNION));
pub static SEQUENCE: G = seq!(K("sequence"), P("<"), R(&TYPE), P(">"));
pub static FROZEN: G = seq!(K("FrozenArray"), P("<"), R(&TYPE), P(">"));
pub static PROMISE: G = seq!(K("Promise"), P("<"), R(&RETURN_TYPE), P(">"));
pub static RECORD: G = seq!(K("record"), P("<"), R(&RECORD_KEY), P(","), R(&TYPE), P(">"));
pub static RECORD_KEY: G = alt!(1; K("ByteString"), K("DOMString"), K("USVString"), R(&NON_ANY));
pub static UNION_MEMBER: G = alt!(0; seq!(R(&OPT_ATTRS), R(&NON_ANY)), R(&NULL_UNION));
pub static NON_ANY: G = alt!(28;
    R(&PROMISE),
    nullable!(R(&INTEGER_TYPE)),
    nullable!(R(&FLOAT_TYPE)),
    nullable!(K("boolean")),
    nullable!(K("byte")),
    nullable!(K("octet")),
    nullable!(K("ByteString")),
    nullable!(K("DOMString")),
    nullable!(K("USVString")),
    nullable!(R(&SEQUENCE)),
    nullable!(K("object")),
    nullable!(K("symbol")),
    nullable!(K("Error")),
    nullable!(K("ArrayBuffer")),
    nullable!(K("DataView")),
    nullable!(K("Int8Array")),
    nullable!(K("Int16Array")),
    nullable!(K("Int32Array")),
    nullable!(K("Uint8Array")),
    nullable!(K("Uint16Array")),
    nullable!(K("Uint32Array")),
    nullable!(K("Uint8ClampedArray")),
    nullable!(K("Float32Array")),
    nullable!(K("Float64Array")),
    nullable!(K("ArrayBufferView")),
    nullable!(K("BufferSource")),
    nullable!(R(&FROZEN)),
    nullable!(R(&RECORD)),
    nullable!(Id),
);
pub static SINGLE_TYPE: G = alt!(1; K("any"), R(&NON_ANY));
pub static TYPE: G = alt!(0; R(&SINGLE_TYPE), R(&NULL_UNION));
pub static NULL_INTEGER: G = nullable!(R(&INTEGER_TYPE));
pub static NULL_IDENT: G = nullable!(Id);
pub static CONST_TYPE: G = alt!(5;
    nullable!(R(&INTEGER_TYPE)),
    nullable!(R(&FLOAT_TYPE)),
    nullable!(K("boolean")),
    nullable!(K("byte")),
    nullable!(K("octet")),
    nullable!(Id),
);
pub static RETURN_TYPE: G = alt!(1; K("undefined"), R(&TYPE));
pub static ATTR_TYPE: G = seq!(R(&OPT_ATTRS), R(&TYPE));
pub static ATTR_NON_ANY: G = seq!(R(&OPT_ATTRS), R(&NON_ANY));

// ---- members ----
pub static CONST: G = seq!(R(&OPT_ATTRS), K("const"), R(&CONST_TYPE), Id, P("="), R(&CONST_VALUE), P(";"));
pub static STRINGIFIER: G = seq!(R(&OPT_ATTRS), K("stringifier"), P(";"));
pub static GEN1: G = seq!(P("<"), R(&ATTR_TYPE), P(">"));
pub static GEN2: G = seq!(P("<"), R(&ATTR_TYPE), P(","), R(&ATTR_TYPE), P(">"));
pub static ATTR_MOD: G = alt!(0; K("stringifier"), K("inherit"), K("static"));
pub static OP_MOD: G = alt!(1; K("stringifier"), K("static"));
pub static I_ATTRIBUTE: G = seq!(
    R(&OPT_ATTRS),
    opt!(R(&ATTR_MOD)),
    opt!(K("readonly")),
    K("attribute"),
    R(&ATTR_TYPE),
    Id,
    P(";"),
);
pub static I_CONSTRUCTOR: G = seq!(R(&OPT_ATTRS), K("constructor"), R(&PAREN_ARGS), P(";"));
pub static SPECIAL: G = alt!(0; K("getter"), K("setter"), K("deleter"), K("legacycaller"));
pub static I_OPERATION: G = seq!(
    R(&OPT_ATTRS),
    opt!(R(&OP_MOD)),
    opt!(R(&SPECIAL)),
    R(&RETURN_TYPE),
    opt!(Id),
    R(&PAREN_ARGS),
    P(";"),
);
pub static ITER1: G = seq!(R(&OPT_ATTRS), K("iterable"), R(&GEN1), P(";"));
pub static ITER2: G = seq!(R(&OPT_ATTRS), K("iterable"), R(&GEN2), P(";"));
pub static I_ITERABLE: G = alt!(0; R(&ITER1), R(&ITER2));
pub static ASYNC1: G = seq!(R(&OPT_ATTRS), K("async"), K("iterable"), R(&GEN1), opt!(R(&PAREN_ARGS)), P(";"));
pub static ASYNC2: G = seq!(R(&OPT_ATTRS), K("async"), K("iterable"), R(&GEN2), opt!(R(&PAREN_ARGS)), P(";"));
pub static I_ASYNC: G = alt!(0; R(&ASYNC1), R(&ASYNC2));
pub static I_MAPLIKE: G = seq!(R(&OPT_ATTRS), opt!(K("readonly")), K("maplike"), R(&GEN2), P(";"));
pub static I_SETLIKE: G = seq!(R(&OPT_ATTRS), opt!(K("readonly")), K("setlike"), R(&GEN1), P(";"));
pub static I_MEMBER: G = alt!(8;
    R(&CONST),
    R(&I_ATTRIBUTE),
    R(&I_CONSTRUCTOR),
    R(&I_OPERATION),
    R(&I_ITERABLE),
    R(&I_ASYNC),
    R(&I_MAPLIKE),
    R(&I_SETLIKE),
    R(&STRINGIFIER),
);
pub static I_MEMBERS: G = Many(&R(&I_MEMBER));
pub static M_OPERATION: G = seq!(R(&OPT_ATTRS), opt!(K("stringifier")), R(&RETURN_TYPE), opt!(Id), R(&PAREN_ARGS), P(";"));
pub static M_ATTRIBUTE: G = seq!(R(&OPT_ATTRS), opt!(K("stringifier")), opt!(K("readonly")), K("attribute"), R(&ATTR_TYPE), Id, P(";"));
pub static M_MEMBER: G = alt!(3; R(&CONST), R(&M_OPERATION), R(&M_ATTRIBUTE), R(&STRINGIFIER));
pub static M_MEMBERS: G = Many(&R(&M_MEMBER));
pub static N_OPERATION: G = seq!(R(&OPT_ATTRS), R(&RETURN_TYPE), opt!(Id), R(&PAREN_ARGS), P(";"));
pub static N_ATTRIBUTE: G = seq!(R(&OPT_ATTRS), K("readonly"), K("attribute"), R(&ATTR_TYPE), Id, P(";"));
pub static N_MEMBER: G = alt!(2; R(&CONST), R(&N_OPERATION), R(&N_ATTRIBUTE));
pub static N_MEMBERS: G = Many(&R(&N_MEMBER));
pub static D_MEMBER: G = seq!(R(&OPT_ATTRS), opt!(K("required")), R(&TYPE), Id, opt!(R(&DEFAULT)), P(";"));
pub static D_MEMBERS: G = Many(&R(&D_MEMBER));

// ---- definitions ----
pub static INHERITANCE: G = seq!(P(":"), Id);
pub static I_BODY: G = seq!(P("{"), R(&I_MEMBERS), P("}"), P(";"));
pub static M_BODY: G = seq!(P("{"), R(&M_MEMBERS), P("}"), P(";"));
pub static N_BODY: G = seq!(P("{"), R(&N_MEMBERS), P("}"), P(";"));
pub static D_BODY: G = seq!(P("{"), R(&D_MEMBERS), P("}"), P(";"));
pub static ENUM_VALUES: G = List(&Str, &P(","), true, true);
pub static CALLBACK: G = seq!(R(&OPT_ATTRS), K("callback"), Id, P("="), R(&RETURN_TYPE), R(&PAREN_ARGS), P(";"));
pub static CALLBACK_INTERFACE: G = seq!(R(&OPT_ATTRS), K("callback"), K("interface"), Id, opt!(R(&INHERITANCE)), R(&I_BODY));
pub static INTERFACE: G = seq!(R(&OPT_ATTRS), K("interface"), Id, opt!(R(&INHERITANCE)), R(&I_BODY));
pub static MIXIN: G = seq!(R(&OPT_ATTRS), K("interface"), K("mixin"), Id, R(&M_BODY));
pub static NAMESPACE: G = seq!(R(&OPT_ATTRS), K("namespace"), Id, R(&N_BODY));
pub static DICTIONARY: G = seq!(R(&OPT_ATTRS), K("dictionary"), Id, opt!(R(&INHERITANCE)), R(&D_BODY));
pub static P_INTERFACE: G = seq!(R(&OPT_ATTRS), K("partial"), K("interface"), Id, R(&I_BODY));
pub static P_MIXIN: G = seq!(R(&OPT_ATTRS), K("partial"), K("interface"), K("mixin"), Id, R(&M_BODY));
pub static P_DICTIONARY: G = seq!(R(&OPT_ATTRS), K("partial"), K("dictionary"), Id, R(&D_BODY));
pub static P_NAMESPACE: G = seq!(R(&OPT_ATTRS), K("partial"), K("namespace"), Id, R(&N_BODY));
pub static ENUM: G = seq!(R(&OPT_ATTRS), K("enum"), Id, P("{"), R(&ENUM_VALUES), P("}"), P(";"));
pub static TYPEDEF: G = seq!(R(&OPT_ATTRS), K("typedef"), R(&ATTR_TYPE), Id, P(";"));
pub static INCLUDES: G = seq!(R(&OPT_ATTRS), Id, K("includes"), Id, P(";"));
pub static IMPLEMENTS: G = seq!(R(&OPT_ATTRS), Id, K("implements"), Id, P(";"));
pub static DEFINITION: G = alt!(12;
    R(&CALLBACK),
    R(&CALLBACK_INTERFACE),
    R(&INTERFACE),
    R(&MIXIN),
    R(&NAMESPACE),
    R(&DICTIONARY),
    R(&P_INTERFACE),
    R(&P_MIXIN),
    R(&P_DICTIONARY),
    R(&P_NAMESPACE),
    R(&ENUM),
    R(&TYPEDEF),
    R(&INCLUDES),
    R(&IMPLEMENTS),
);
pub static DEFINITIONS: G = Many(&R(&DEFINITION));

// ---- containers, as a user of the parsing trait may combine them ----
pub static C_PAREN: G = seq!(P("("), Id, P(")"));
pub static C_BRACKET: G = seq!(P("["), Id, P("]"));
pub static C_BRACE: G = seq!(P("{"), Id, P("}"));
pub static C_ANGLE: G = seq!(P("<"), Id, P(">"));
pub static C_BRACE_INTS: G = seq!(P("{"), Many(&R(&INTEGER)), P("}"));
pub static C_COMMA: G = List(&Id, &P(","), false, false);
pub static C_COMMA1: G = List(&Id, &P(","), true, true);
pub static C_OR: G = List(&Str, &K("or"), false, false);
pub static C_OR1: G = List(&R(&INTEGER), &K("or"), true, true);
pub static C_SEMI1: G = List(&R(&CONST_VALUE), &P(";"), true, true);
pub static C_MANY: G = Many(&Str);
pub static C_OPT: G = opt!(Id);
pub static C_PAIR: G = seq!(Id, Str);
pub static C_TRIPLE: G = seq!(Str, P(","), R(&INTEGER));
pub static C_ANGLE2: G = seq!(P("<"), Id, P(","), Id, P(">"));
pub static C_NESTED: G = seq!(P("("), List(&seq!(P("["), List(&R(&INTEGER), &P(","), false, false), P("]")), &P(";"), false, false), P(")"));
pub static C_I_BODY: G = seq!(P("{"), R(&I_MEMBERS), P("}"));
pub static C_M_BODY: G = seq!(P("{"), R(&M_MEMBERS), P("}"));
pub static C_N_BODY: G = seq!(P("{"), R(&N_MEMBERS), P("}"));
pub static C_D_BODY: G = seq!(P("{"), R(&D_MEMBERS), P("}"));
pub static C_ENUM_BODY: G = seq!(P("{"), R(&ENUM_VALUES), P("}"));
