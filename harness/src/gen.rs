//! Inputs: bounded deviations from the simplest derivation of a grammar rule,
//! sequences of symbolic words, and symbolic bytes.
use crate::peg::{word, G};
use crate::vp;

/// How many deviations of each kind a path may contain.
#[derive(Clone, Copy)]
pub struct Fuel {
    /// grammar: a non-default alternative, an optional part, another list length
    pub g: u32,
    /// trivia: something other than the least separation between two tokens
    pub t: u32,
    /// lexemes: another form of identifier, number or string
    pub l: u32,
    /// damage: a token dropped, doubled, replaced, preceded by another one, or the input cut
    pub m: u32,
}
pub const fn fuel(g: u32, t: u32, l: u32, m: u32) -> Fuel {
    Fuel { g, t, l, m }
}

pub static KEYWORDS: &[&str] = &[
    "or", "optional", "async", "attribute", "callback", "const", "deleter", "dictionary", "enum", "getter", "includes",
    "inherit", "interface", "iterable", "maplike", "namespace", "partial", "required", "setlike", "setter", "static",
    "stringifier", "typedef", "unrestricted", "symbol", "ByteString", "DOMString", "FrozenArray", "Infinity", "NaN",
    "USVString", "any", "boolean", "byte", "double", "false", "float", "long", "null", "object", "octet", "sequence",
    "short", "true", "unsigned", "undefined", "record", "ArrayBuffer", "DataView", "Int8Array", "Int16Array",
    "Int32Array", "Uint8Array", "Uint16Array", "Uint32Array", "Uint8ClampedArray", "Float32Array", "Float64Array",
    "ArrayBufferView", "BufferSource", "Promise", "Error", "readonly", "mixin", "implements", "legacycaller",
    "constructor",
];
/// Words that contain, extend or are cut from keywords.
pub static NEAR: &[&str] = &[
    "or1", "optionals", "async-", "attribute_", "callbacks", "constx", "interfaces", "interfac", "Interface", "anyx",
    "longlong", "long_", "long-long", "shorts", "floats", "unsigned1", "undefineds", "sequences", "Promise-", "records",
    "static0", "stringifier_", "mixins", "partialx", "required-", "readonlyx", "nulls", "trueish", "false0", "NaNs",
    "Infinity_", "iterables", "includes-x", "o", "optiona", "lon", "enums",
];
/// What a damaged token is replaced with.
pub static DAMAGE: &[&str] = &[
    ";", ",", "(", ")", "{", "}", "[", "]", "<", ">", "=", ":", "?", "*", "...", ".", "-", "or", "x", "1", "\"s\"", "long",
    "optional", "required", "readonly", "static", "const", "interface", "partial", "undefined", "any", "?;", "/", "\"",
    "_", "\u{e9}", "@", "attribute", "mixin", "inherit", "null", "async", "sequence", "1.5", "-1", "0x1", "true",
];

/// Further tokens and clauses that may be inserted where they do not belong. Grouped by length.
pub static PHRASES: &[&[&str]] = &[
    &["()", "{}", "[]", "<>", ", ,", "; ;", "::", "??", "= 1", ": B", ", B", "= B", "= *", "- 1", "1 2", "| B", "? ?", "**", "=="],
    &["= []", "= {}", "= \"\"", ", \"b\"", "(A a)", "<A>", "<A,B>", "[A]", "[A=b]", "or B", "A a,", ", A a", "A, B", ": B,C", "A : B", "= (A,B)", "= null", "= 1.5", "= true", "(1)"],
    &["in", "of", "void", "extends", "raises", "getter", "setter", "deleter", "callback", "dictionary", "enum", "namespace", "typedef", "includes", "implements", "stringifier", "iterable", "maplike", "setlike", "constructor", "legacycaller", "abstract"],
    &["unsigned", "unrestricted", "short", "float", "double", "boolean", "byte", "octet", "object", "symbol", "DOMString", "Promise", "record", "FrozenArray", "Infinity", "-Infinity", "NaN", "false", "Error", "implements B", "includes B"],
    &["long long", "unsigned long", "optional A a", "readonly attribute", "static readonly", "async iterable", "callback interface", "interface mixin", "partial interface", "const long a = 1;", "attribute A a;", "A a();", "raises(A)", "optional optional", "A... a"],
];

pub struct Gen {
    pub b: Vec<u8>,
    pub f: Fuel,
    last_word: bool,
    cut: bool,
    /// the grammar decisions are recorded, or taken from a record
    pub rec: Option<Vec<usize>>,
    pub replay: Option<(Vec<usize>, usize)>,
    /// a comment between all tokens
    pub airy: bool,
}

impl Gen {
    pub fn new(f: Fuel) -> Gen {
        Gen {
            b: Vec::with_capacity(256),
            f,
            last_word: false,
            cut: false,
            rec: None,
            replay: None,
            airy: false,
        }
    }
    fn dev_g(&mut self, n: usize) -> usize {
        if let Some((r, i)) = &mut self.replay {
            *i += 1;
            return r[*i - 1];
        }
        let k = self.dev_g0(n);
        if let Some(r) = &mut self.rec {
            r.push(k);
        }
        k
    }
    fn dev_g0(&mut self, n: usize) -> usize {
        if self.f.g == 0 {
            return 0;
        }
        let k = vp::pick(n);
        if k > 0 {
            self.f.g -= 1;
        }
        k
    }
    fn dev_t(&mut self, n: usize) -> usize {
        if self.f.t == 0 {
            return 0;
        }
        let k = vp::pick(n);
        if k > 0 {
            self.f.t -= 1;
        }
        k
    }
    fn dev_l(&mut self, n: usize) -> usize {
        if self.f.l == 0 {
            return 0;
        }
        let k = vp::pick(n);
        if k > 0 {
            self.f.l -= 1;
        }
        k
    }
    pub fn lit(&mut self, s: &str) {
        self.b.extend_from_slice(s.as_bytes());
    }
    pub fn sym(&mut self, lo: u8, hi: u8) {
        self.b.push(vp::byte(lo, hi));
    }
    /// A long run that starts with `a`, goes on with `b`, and ends in a symbolic letter.
    fn long(&mut self, a: u8, b: u8, n: usize) {
        self.b.push(a);
        for _ in 2..n {
            self.b.push(b);
        }
        self.sym(b'a', b'f');
    }
    /// Any scalar value encoded in two bytes.
    pub fn uni2(&mut self) {
        self.sym(0xc2, 0xdf);
        self.sym(0x80, 0xbf);
    }
    /// Any scalar value encoded in three bytes.
    pub fn uni3(&mut self) {
        let at = self.b.len();
        self.sym(0xe0, 0xef);
        self.sym(0x80, 0xbf);
        self.sym(0x80, 0xbf);
        let (a, b) = (self.b[at], self.b[at + 1]);
        vp::assume(!(((a == 0xe0) & (b < 0xa0)) | ((a == 0xed) & (b > 0x9f))));
    }
    /// Any scalar value encoded in four bytes.
    pub fn uni4(&mut self) {
        let at = self.b.len();
        self.sym(0xf0, 0xf4);
        self.sym(0x80, 0xbf);
        self.sym(0x80, 0xbf);
        self.sym(0x80, 0xbf);
        let (a, b) = (self.b[at], self.b[at + 1]);
        vp::assume(!(((a == 0xf0) & (b < 0x90)) | ((a == 0xf4) & (b > 0x8f))));
    }
    /// The separation before the next token.
    pub fn gap(&mut self, first_word: bool) {
        if self.airy {
            self.lit(" /* ; */\n");
            return;
        }
        const N: usize = 24;
        match self.dev_t(N) {
            0 => {
                if self.last_word && first_word {
                    self.lit(" ");
                }
            }
            1 => vp::choice(&[" ", "\t", "\n", "\r"], &mut self.b),
            2 => {
                // one whitespace character and nothing else
                let at = self.b.len();
                vp::choice(&["\t", "\n", "\r"], &mut self.b);
                self.b.truncate(at + 1);
            }
            3 => {
                self.lit("//");
                self.sym(0x20, 0x7e);
                self.lit("\n");
            }
            4 => {
                self.lit("/*");
                self.sym(0, 0x7f);
                self.lit("*/");
            }
            5 => self.lit("/**/"),
            6 => self.lit("//\n"),
            7 => self.lit("// /* \" \r\n"),
            8 => self.lit("/* // \" \n * / */"),
            9 => {
                self.lit("//");
                self.uni2();
                self.lit("\n");
            }
            10 => {
                self.lit("/*");
                self.uni3();
                self.lit("*/");
            }
            11 => self.lit("\n\n\t/* a */ /* b */// c\n// d\n \r\n"),
            12 => self.lit("/***/"),
            13 => self.lit("//\r"),
            14 => self.lit("/*"),
            15 => self.lit("/"),
            16 => self.lit("/*/"),
            17 => self.sym(0x0b, 0x0c),
            18 => self.uni2(),
            19 => self.lit("//"),
            // nothing at all
            20 => {}
            // separations and comments of other languages
            21 => vp::choice(
                &[
                    "#x\n", "<!--x-->", "--x\n", "(*x*)", "%x\n", "\\\n", "\u{feff}", "\u{3000}", "\u{200b}", "{-x-}", "'x\n", ";;x\n", "\0",
                    "*/", "&nbsp;", "\\", "|", "!", "@x", "\u{2028}", "\u{85}", "\u{1a}",
                ],
                &mut self.b,
            ),
            // three characters out of those that trivia are made of
            22 => {
                for _ in 0..3 {
                    let at = self.b.len();
                    vp::choice(&[" ", "\n", "/", "*", "\r", "\t", "x"], &mut self.b);
                    self.b.truncate(at + 1);
                }
            }
            _ => {
                self.lit("/*");
                self.sym(b'*', b'/');
                self.sym(b'*', b'/');
                self.lit("*/");
            }
        }
    }
    fn put(&mut self, s: &str) {
        let b = s.as_bytes();
        self.gap(word(b[0]));
        self.lit(s);
        self.last_word = word(b[b.len() - 1]);
    }
    /// Damage before a token: true if the token itself must not be written.
    fn damage(&mut self) -> bool {
        if self.cut {
            return true;
        }
        if self.f.m == 0 {
            return false;
        }
        let k = vp::pick(12);
        if k == 0 {
            return false;
        }
        self.f.m -= 1;
        match k {
            // the token is missing
            1 => return true,
            // the input ends here
            2 => {
                self.cut = true;
                return true;
            }
            // another token instead of it, or before it
            3 | 4 => {
                self.lit(" ");
                vp::choice(DAMAGE, &mut self.b);
                self.last_word = false;
                return k == 3;
            }
            // a stray character before it, after a separation or not
            5 => {
                self.sym(0, 0x7f);
                self.last_word = false;
            }
            6 => {
                self.lit(" ");
                self.sym(0x21, 0x7e);
                self.last_word = false;
            }
            // two stray characters instead of it
            7 => {
                self.lit(" ");
                self.sym(0x21, 0x7e);
                self.sym(0x21, 0x7e);
                self.lit(" ");
                self.last_word = false;
                return true;
            }
            // characters outside ASCII
            8 => {
                self.uni2();
                self.last_word = false;
            }
            // a clause before it, or a clause instead of it
            10 | 11 => {
                self.lit(" ");
                let v = PHRASES[vp::pick(PHRASES.len())];
                vp::choice(v, &mut self.b);
                self.last_word = false;
                return k == 11;
            }
            _ => {
                self.uni3();
                self.last_word = false;
                return true;
            }
        }
        false
    }
    fn tok(&mut self, s: &str) {
        if !self.damage() {
            self.put(s);
        }
    }
    pub fn ident(&mut self) {
        if self.damage() {
            return;
        }
        const N: usize = 24;
        let k = self.dev_l(N);
        let first_word = k != 16;
        self.gap(first_word);
        self.last_word = true;
        match k {
            0 => {
                self.sym(b'Q', b'T');
                self.sym(b'a', b'z');
            }
            1 => {
                self.lit("_");
                self.sym(b'a', b'z');
            }
            2 => self.sym(b'a', b'z'),
            3 => {
                self.sym(b'G', b'H');
                self.sym(b'0', b'9');
            }
            4 => {
                self.sym(b'J', b'M');
                self.lit("-");
            }
            5 => {
                self.sym(b'A', b'Z');
                self.lit("_");
                self.sym(b'A', b'Z');
            }
            6 => {
                vp::choice(KEYWORDS, &mut self.b);
                self.last_word = false;
            }
            7 => {
                vp::choice(NEAR, &mut self.b);
                self.last_word = false;
            }
            8 => {
                self.lit("_");
                vp::choice(KEYWORDS, &mut self.b);
                self.last_word = false;
            }
            9 => {
                self.sym(b'V', b'Z');
                self.sym(b'a', b'z');
                self.long(b'W', b'k', 28);
            }
            10 => self.lit("_q-_9"),
            11 => self.lit("__a"),
            12 => self.lit("_"),
            13 => self.lit("_1"),
            14 => self.sym(b'0', b'9'),
            15 => self.lit("-a"),
            16 => self.uni2(),
            17 => {
                self.sym(b'Q', b'T');
                self.uni2();
            }
            18 => self.lit("or"),
            20 => self.long(b'Q', b'q', 70),
            21 => self.long(b'a', b'9', 140),
            22 => self.long(b'B', b'-', 270),
            23 => {
                self.sym(b'a', b'd');
                self.sym(b'_', b'z');
                self.sym(b'-', b'9');
            }
            _ => self.lit("long"),
        }
    }
    fn string(&mut self) {
        if self.damage() {
            return;
        }
        let k = self.dev_l(11);
        self.gap(false);
        self.last_word = false;
        self.lit("\"");
        match k {
            0 => self.sym(b'a', b'z'),
            1 => {}
            2 => {
                self.sym(0, 0x21);
                self.sym(0x23, 0x7f);
            }
            3 => {
                self.sym(0x23, 0x7f);
                self.sym(0x23, 0x7f);
            }
            4 => self.uni2(),
            5 => self.uni3(),
            6 => self.uni4(),
            7 => self.lit("/* \\ // ' \n*/"),
            8 => self.long(b' ', b'.', 150),
            9 => self.long(b'[', b'}', 300),
            _ => {
                self.sym(0x23, 0x7e);
                self.long(b' ', b'\'', 38);
                self.sym(0x23, 0x7e);
            }
        }
        self.lit("\"");
    }
    fn number(&mut self, g: &G) {
        if self.damage() {
            return;
        }
        let k = match g {
            G::Float => self.dev_l(14),
            _ => self.dev_l(8),
        };
        self.gap(!matches!((g, k), (G::Float, 3)));
        self.last_word = true;
        match g {
            G::Dec => match k {
                0 => self.sym(b'1', b'9'),
                1 => {
                    self.lit("-");
                    self.sym(b'1', b'9');
                }
                2 => {
                    self.sym(b'1', b'9');
                    self.sym(b'0', b'9');
                }
                3 => {
                    self.lit("-");
                    self.sym(b'1', b'9');
                    self.lit("12345678901234567890");
                    self.sym(b'0', b'9');
                }
                4 => {
                    self.sym(b'1', b'9');
                    self.sym(b'0', b'9');
                    self.sym(b'0', b'9');
                }
                5 => self.lit("--1"),
                6 => self.lit("+1"),
                _ => self.lit("1a"),
            },
            G::Hex => match k {
                0 => {
                    self.lit("0x");
                    self.sym(b'0', b'9');
                }
                1 => {
                    self.lit("-0X");
                    self.sym(b'A', b'F');
                }
                2 => {
                    self.lit("0x");
                    self.sym(b'a', b'f');
                    self.sym(b'0', b'9');
                    self.sym(b'A', b'F');
                }
                3 => {
                    self.lit("0X0");
                    self.sym(b'a', b'f');
                    self.lit("0123456789abcdefABCDEF");
                    self.sym(b'A', b'F');
                }
                4 => self.lit("0x"),
                5 => {
                    self.lit("0x");
                    self.sym(b'g', b'z');
                }
                6 => {
                    self.lit("-0x");
                    self.sym(b'1', b'9');
                    self.sym(b'a', b'f');
                }
                _ => self.lit("00x1"),
            },
            G::Oct => match k {
                0 => self.lit("0"),
                1 => self.lit("-0"),
                2 => {
                    self.lit("0");
                    self.sym(b'0', b'7');
                }
                3 => {
                    self.lit("-0");
                    self.sym(b'0', b'7');
                    self.lit("012345670123456701234567");
                    self.sym(b'0', b'7');
                }
                4 => {
                    self.lit("0");
                    self.sym(b'8', b'9');
                }
                5 => {
                    self.lit("0");
                    self.sym(b'0', b'7');
                    self.sym(b'0', b'7');
                }
                6 => self.lit("-"),
                _ => self.lit("07_"),
            },
            _ => match k {
                0 => {
                    self.sym(b'0', b'9');
                    self.lit(".");
                    self.sym(b'0', b'9');
                }
                1 => {
                    self.lit("-");
                    self.sym(b'0', b'9');
                    self.lit(".");
                    self.last_word = false;
                }
                2 => {
                    self.sym(b'0', b'9');
                    self.lit("e");
                    self.sym(b'0', b'9');
                }
                3 => {
                    self.lit(".");
                    self.sym(b'0', b'9');
                }
                4 => {
                    self.lit("-");
                    self.sym(b'0', b'9');
                    self.lit("E+");
                    self.sym(b'0', b'9');
                    self.sym(b'0', b'9');
                }
                5 => {
                    self.sym(b'0', b'9');
                    self.sym(b'0', b'9');
                    self.lit(".");
                    self.sym(b'0', b'9');
                    self.lit("e-");
                    self.sym(b'0', b'9');
                }
                6 => {
                    self.lit("-.");
                    self.sym(b'0', b'9');
                    self.lit("E");
                    self.sym(b'0', b'9');
                }
                7 => {
                    self.sym(b'0', b'9');
                    self.lit(".e");
                    self.sym(b'0', b'9');
                }
                8 => {
                    self.sym(b'0', b'9');
                    self.lit("1234567890123456789.0987654321098765432109");
                    self.sym(b'0', b'9');
                    self.lit("e00123456789012345678901");
                    self.sym(b'0', b'9');
                }
                9 => self.lit("-"),
                10 => self.lit("."),
                11 => self.lit("1e"),
                12 => self.lit("1.5e+"),
                _ => self.lit("1.2.3"),
            },
        }
    }
    pub fn rule(&mut self, g: &'static G) {
        match g {
            G::P(w) | G::K(w) => self.tok(w),
            G::Id => self.ident(),
            G::Str => self.string(),
            G::Dec | G::Hex | G::Oct | G::Float => self.number(g),
            G::Bool => {
                let k = self.dev_l(2);
                self.tok(if k == 0 { "true" } else { "false" });
            }
            G::Seq(gs) => {
                for x in gs.iter() {
                    self.rule(x);
                }
            }
            G::Opt(x) => {
                if self.dev_g(2) == 1 {
                    self.rule(x);
                }
            }
            G::Many(x) => {
                for _ in 0..self.dev_g(4) {
                    self.rule(x);
                }
            }
            G::List(x, sep, _, _) => {
                // one item; none, two, three items; a trailing, leading or doubled separator
                let k = self.dev_g(7);
                if k == 5 {
                    self.rule(sep);
                }
                let n = match k {
                    1 => 0,
                    2 | 6 => 2,
                    3 => 3,
                    _ => 1,
                };
                for i in 0..n {
                    if i > 0 {
                        self.rule(sep);
                        if k == 6 {
                            self.rule(sep);
                        }
                    }
                    self.rule(x);
                }
                if k == 4 {
                    self.rule(sep);
                }
            }
            G::Alt(d, gs) => {
                let k = self.dev_g(gs.len());
                let i = if k == 0 {
                    *d
                } else if k <= *d {
                    k - 1
                } else {
                    k
                };
                self.rule(&gs[i]);
            }
            G::R(x) => self.rule(x),
            G::Cond(flag, mid, tail) => {
                let k = self.dev_g(4);
                if k == 1 || k == 2 {
                    self.rule(flag);
                }
                self.rule(mid);
                if k >= 2 {
                    self.rule(tail);
                }
            }
        }
    }
    /// End of input: what follows the last token, and the text.
    pub fn end(mut self) -> &'static str {
        if !self.cut {
            self.gap(false);
        }
        text_of(self.b)
    }
}

pub fn text_of(b: Vec<u8>) -> &'static str {
    let b: &'static [u8] = Box::leak(b.into_boxed_slice());
    vp::text(b);
    // the generators only write complete UTF-8 sequences
    unsafe { std::str::from_utf8_unchecked(b) }
}
