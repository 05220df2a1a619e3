//! The runs of the symbolic executor: which inputs are explored, and what is
//! decided about each of them. Every job names the properties it serves.
use crate::core::*;
use crate::gen::*;
use crate::peg::{self, G};
use crate::vp;
use weedle::argument::*;
use weedle::attribute::*;
use weedle::common::*;
use weedle::dictionary::*;
use weedle::interface::*;
use weedle::literal::*;
use weedle::mixin::*;
use weedle::namespace::*;
use weedle::term;
use weedle::types::*;
use weedle::*;

pub struct Job {
    pub name: &'static str,
    /// 0: quick and thorough, 1: thorough only, 2: quick only (a deeper job replaces it)
    pub tier: u8,
    /// processes the paths are divided among
    pub shards: u32,
    /// witnesses that must be reached (bits of the `R_` codes)
    pub reach: u32,
    pub props: &'static str,
    pub what: &'static str,
    pub run: fn(),
}

/// A type of the public parsing trait and the rule that documents it.
pub struct Nt {
    pub g: &'static G,
    pub full: fn(&'static str),
    pub accept: fn(&'static str),
    pub total: fn(&'static str),
    pub pair: fn(&'static str, &'static str),
}
macro_rules! nt {
    ($t:ty, $g:ident) => {
        Nt {
            g: &peg::$g,
            full: |s| diff::<$t>(&peg::$g, s),
            accept: |s| accept::<$t>(&peg::$g, s),
            total: |s| total::<$t>(s),
            pair: |s, t| pair::<$t>(s, t),
        }
    };
}
pub static DOC: Nt = Nt { g: &peg::DEFINITIONS, full: whole, accept: accept_whole, total: total_whole, pair: |s, t| pair::<Definitions<'static>>(s, t) };
static DEF: Nt = nt!(Definition<'static>, DEFINITION);
static IMEM: Nt = nt!(InterfaceMember<'static>, I_MEMBER);
static MMEM: Nt = nt!(MixinMember<'static>, M_MEMBER);
static NMEM: Nt = nt!(NamespaceMember<'static>, N_MEMBER);
static DMEM: Nt = nt!(DictionaryMember<'static>, D_MEMBER);
static TYP: Nt = nt!(Type<'static>, TYPE);
static ARG: Nt = nt!(Argument<'static>, ARGUMENT);
static ATTRS: Nt = nt!(ExtendedAttributeList<'static>, EXT_ATTRS);
static DVAL: Nt = nt!(DefaultValue<'static>, DEFAULT_VALUE);

type Id = Identifier<'static>;
type St = StringLit<'static>;
type Int = IntegerLit<'static>;

static T_DEFS: &[Nt] = &[
    nt!(CallbackDefinition<'static>, CALLBACK),
    nt!(CallbackInterfaceDefinition<'static>, CALLBACK_INTERFACE),
    nt!(InterfaceDefinition<'static>, INTERFACE),
    nt!(InterfaceMixinDefinition<'static>, MIXIN),
    nt!(NamespaceDefinition<'static>, NAMESPACE),
    nt!(DictionaryDefinition<'static>, DICTIONARY),
    nt!(PartialInterfaceDefinition<'static>, P_INTERFACE),
    nt!(PartialInterfaceMixinDefinition<'static>, P_MIXIN),
    nt!(PartialDictionaryDefinition<'static>, P_DICTIONARY),
    nt!(PartialNamespaceDefinition<'static>, P_NAMESPACE),
    nt!(EnumDefinition<'static>, ENUM),
    nt!(TypedefDefinition<'static>, TYPEDEF),
    nt!(IncludesStatementDefinition<'static>, INCLUDES),
    nt!(ImplementsDefinition<'static>, IMPLEMENTS),
    nt!(Inheritance<'static>, INHERITANCE),
    nt!(Definition<'static>, DEFINITION),
    nt!(Definitions<'static>, DEFINITIONS),
];
static T_MEMBERS: &[Nt] = &[
    nt!(ConstMember<'static>, CONST),
    nt!(AttributeInterfaceMember<'static>, I_ATTRIBUTE),
    nt!(ConstructorInterfaceMember<'static>, I_CONSTRUCTOR),
    nt!(OperationInterfaceMember<'static>, I_OPERATION),
    nt!(IterableInterfaceMember<'static>, I_ITERABLE),
    nt!(SingleTypedIterable<'static>, ITER1),
    nt!(DoubleTypedIterable<'static>, ITER2),
    nt!(AsyncIterableInterfaceMember<'static>, I_ASYNC),
    nt!(SingleTypedAsyncIterable<'static>, ASYNC1),
    nt!(DoubleTypedAsyncIterable<'static>, ASYNC2),
    nt!(MaplikeInterfaceMember<'static>, I_MAPLIKE),
    nt!(SetlikeInterfaceMember<'static>, I_SETLIKE),
    nt!(StringifierMember<'static>, STRINGIFIER),
    nt!(Special, SPECIAL),
    nt!(StringifierOrInheritOrStatic, ATTR_MOD),
    nt!(StringifierOrStatic, OP_MOD),
    nt!(OperationMixinMember<'static>, M_OPERATION),
    nt!(AttributeMixinMember<'static>, M_ATTRIBUTE),
    nt!(ConstNamespaceMember<'static>, CONST),
    nt!(OperationNamespaceMember<'static>, N_OPERATION),
    nt!(AttributeNamespaceMember<'static>, N_ATTRIBUTE),
    nt!(InterfaceMember<'static>, I_MEMBER),
    nt!(MixinMember<'static>, M_MEMBER),
    nt!(NamespaceMember<'static>, N_MEMBER),
    nt!(DictionaryMember<'static>, D_MEMBER),
];
static T_TYPES: &[Nt] = &[
    nt!(Type<'static>, TYPE),
    nt!(SingleType<'static>, SINGLE_TYPE),
    nt!(NonAnyType<'static>, NON_ANY),
    nt!(SequenceType<'static>, SEQUENCE),
    nt!(FrozenArrayType<'static>, FROZEN),
    nt!(PromiseType<'static>, PROMISE),
    nt!(RecordType<'static>, RECORD),
    nt!(RecordKeyType<'static>, RECORD_KEY),
    nt!(UnionType<'static>, UNION),
    nt!(UnionMemberType<'static>, UNION_MEMBER),
    nt!(IntegerType, INTEGER_TYPE),
    nt!(LongLongType, T_LONGLONG),
    nt!(LongType, T_LONG),
    nt!(ShortType, T_SHORT),
    nt!(FloatingPointType, FLOAT_TYPE),
    nt!(FloatType, T_FLOAT),
    nt!(DoubleType, T_DOUBLE),
    nt!(ConstType<'static>, CONST_TYPE),
    nt!(ReturnType<'static>, RETURN_TYPE),
    nt!(AttributedType<'static>, ATTR_TYPE),
    nt!(AttributedNonAnyType<'static>, ATTR_NON_ANY),
    nt!(MayBeNull<IntegerType>, NULL_INTEGER),
    nt!(MayBeNull<Id>, NULL_IDENT),
    nt!(MayBeNull<UnionType<'static>>, NULL_UNION),
];
static T_ATTRS: &[Nt] = &[
    nt!(ExtendedAttribute<'static>, EXT_ATTR),
    nt!(ExtendedAttributeArgList<'static>, A_ARGS),
    nt!(ExtendedAttributeNamedArgList<'static>, A_NAMED),
    nt!(ExtendedAttributeIdentList<'static>, A_IDENTS),
    nt!(ExtendedAttributeIdent<'static>, A_IDENT),
    nt!(ExtendedAttributeWildCard<'static>, A_WILD),
    nt!(ExtendedAttributeNoArgs<'static>, A_NONE),
    nt!(IdentifierOrString<'static>, ID_OR_STR),
    nt!(ExtendedAttributeList<'static>, EXT_ATTRS),
];
static T_ARGS: &[Nt] = &[
    nt!(Argument<'static>, ARGUMENT),
    nt!(SingleArgument<'static>, SINGLE_ARG),
    nt!(VariadicArgument<'static>, VARIADIC_ARG),
    nt!(Parenthesized<ArgumentList<'static>>, PAREN_ARGS),
    nt!(weedle::common::Default<'static>, DEFAULT),
];
static T_LITS: &[Nt] = &[
    nt!(IntegerLit<'static>, INTEGER),
    nt!(DecLit<'static>, DEC),
    nt!(HexLit<'static>, HEX),
    nt!(OctLit<'static>, OCT),
    nt!(FloatLit<'static>, FLOAT),
    nt!(FloatValueLit<'static>, FLOAT_VALUE),
    nt!(StringLit<'static>, STRING),
    nt!(BooleanLit, BOOL),
    nt!(DefaultValue<'static>, DEFAULT_VALUE),
    nt!(ConstValue<'static>, CONST_VALUE),
    nt!(EmptyArrayLit, EMPTY_ARRAY),
    nt!(EmptyDictionaryLit, EMPTY_DICT),
];
static T_IDENT: &[Nt] = &[nt!(Identifier<'static>, IDENT)];
static T_CONTAINERS: &[Nt] = &[
    nt!(Parenthesized<Id>, C_PAREN),
    nt!(Bracketed<Id>, C_BRACKET),
    nt!(Braced<Id>, C_BRACE),
    nt!(Generics<Id>, C_ANGLE),
    nt!(Braced<Vec<Int>>, C_BRACE_INTS),
    nt!(Punctuated<Id, term!(,)>, C_COMMA),
    nt!(PunctuatedNonEmpty<Id, term!(,)>, C_COMMA1),
    nt!(Punctuated<St, term!(or)>, C_OR),
    nt!(PunctuatedNonEmpty<Int, term!(or)>, C_OR1),
    nt!(PunctuatedNonEmpty<ConstValue<'static>, term!(;)>, C_SEMI1),
    nt!(Vec<St>, C_MANY),
    nt!(Option<Id>, C_OPT),
    nt!(Box<Id>, IDENT),
    nt!((Id, St), C_PAIR),
    nt!((St, term!(,), Int), C_TRIPLE),
    nt!(Generics<(Id, term!(,), Id)>, C_ANGLE2),
    nt!(Parenthesized<Punctuated<Bracketed<Punctuated<Int, term!(,)>>, term!(;)>>, C_NESTED),
    nt!(Braced<InterfaceMembers<'static>>, C_I_BODY),
    nt!(Braced<MixinMembers<'static>>, C_M_BODY),
    nt!(Braced<NamespaceMembers<'static>>, C_N_BODY),
    nt!(Braced<DictionaryMembers<'static>>, C_D_BODY),
    nt!(Braced<EnumValueList<'static>>, C_ENUM_BODY),
    nt!(Parenthesized<ArgumentList<'static>>, PAREN_ARGS),
    nt!(Parenthesized<IdentifierList<'static>>, PAREN_IDENTS),
    nt!(ExtendedAttributeList<'static>, EXT_ATTRS),
    nt!(UnionType<'static>, UNION),
];

// ---------------------------------------------------------------- terminals

pub struct Term {
    pub g: &'static G,
    pub full: fn(&'static str),
}
macro_rules! pterm { ($t:ty, $w:expr) => {{ static W: G = G::P($w); Term { g: &W, full: |s| tdiff::<$t>(&W, s) } }} }
macro_rules! kterm { ($t:ty, $w:expr) => {{ static W: G = G::K($w); Term { g: &W, full: |s| tdiff::<$t>(&W, s) } }} }
macro_rules! names { ($($t:tt $w:expr;)*) => { &[$(kterm!(term!($t), $w)),*] } }
static PUNCT: &[Term] = &[
    pterm!(term!(OpenParen), "("),
    pterm!(term!(CloseParen), ")"),
    pterm!(term!(OpenBracket), "["),
    pterm!(term!(CloseBracket), "]"),
    pterm!(term!(OpenBrace), "{"),
    pterm!(term!(CloseBrace), "}"),
    pterm!(term!(,), ","),
    pterm!(term!(-), "-"),
    pterm!(term!(.), "."),
    pterm!(term!(...), "..."),
    pterm!(term!(:), ":"),
    pterm!(term!(;), ";"),
    pterm!(term!(<), "<"),
    pterm!(term!(=), "="),
    pterm!(term!(>), ">"),
    pterm!(term!(?), "?"),
    pterm!(term!(*), "*"),
];
static NAMES: &[Term] = names! {
    or "or"; optional "optional"; async "async"; attribute "attribute"; callback "callback"; const "const";
    deleter "deleter"; dictionary "dictionary"; enum "enum"; getter "getter"; includes "includes"; inherit "inherit";
    interface "interface"; iterable "iterable"; maplike "maplike"; namespace "namespace"; partial "partial";
    required "required"; setlike "setlike"; setter "setter"; static "static"; stringifier "stringifier";
    typedef "typedef"; unrestricted "unrestricted"; symbol "symbol"; ByteString "ByteString"; DOMString "DOMString";
    FrozenArray "FrozenArray"; Infinity "Infinity"; NaN "NaN"; USVString "USVString"; any "any"; boolean "boolean";
    byte "byte"; double "double"; false "false"; float "float"; long "long"; null "null"; object "object"; octet "octet";
    sequence "sequence"; short "short"; true "true"; unsigned "unsigned"; undefined "undefined"; record "record";
    ArrayBuffer "ArrayBuffer"; DataView "DataView"; Int8Array "Int8Array"; Int16Array "Int16Array";
    Int32Array "Int32Array"; Uint8Array "Uint8Array"; Uint16Array "Uint16Array"; Uint32Array "Uint32Array";
    Uint8ClampedArray "Uint8ClampedArray"; Float32Array "Float32Array"; Float64Array "Float64Array";
    ArrayBufferView "ArrayBufferView"; BufferSource "BufferSource"; Promise "Promise"; Error "Error";
    readonly "readonly"; mixin "mixin"; implements "implements"; legacycaller "legacycaller";
    constructor "constructor";
};
static NAMES2: &[Term] = &[kterm!(term!(-Infinity), "-Infinity")];

fn term_word(t: &Term) -> &'static str {
    match t.g {
        G::P(w) | G::K(w) => w,
        _ => "",
    }
}
/// Every text of the length of the terminal and two more characters.
fn term_free(ts: &'static [Term]) {
    let t = &ts[vp::pick(ts.len())];
    let w = term_word(t).len();
    let mut g = Gen::new(NO);
    let c = vp::byte(0, 0x7f);
    vp::assume(c != b' ' && c != b'\n' && c != b'\t' && c != b'\r' && c != b'/');
    g.b.push(c);
    for _ in 1..w + vp::pick(3) {
        g.sym(0, 0x7f);
    }
    (t.full)(text_of(g.b));
}
/// The terminal with other text before it, with one character changed, cut short, or with other text after it.
fn term_edges(ts: &'static [Term]) {
    let t = &ts[vp::pick(ts.len())];
    let mut g = Gen::new(NO);
    let w = term_word(t);
    match vp::pick(4) {
        0 => {
            match vp::pick(6) {
                0 => {
                    g.f.t = 1;
                    g.gap(false);
                    g.f.t = 0;
                }
                1 => g.sym(0, 0x7f),
                2 => g.uni2(),
                3 => {
                    g.sym(0, 0x7f);
                    g.sym(0, 0x7f);
                }
                4 => g.lit("//\n /**/\t\r"),
                _ => g.uni3(),
            }
            g.lit(w);
            if vp::pick(2) == 1 {
                g.sym(0, 0x7f);
            }
        }
        1 => {
            let i = vp::pick(w.len());
            g.lit(&w[..i]);
            if vp::pick(8) == 0 {
                g.uni2();
            } else {
                g.sym(0, 0x7f);
            }
            g.lit(&w[i + 1..]);
            if vp::pick(2) == 1 {
                g.sym(0, 0x7f);
            }
        }
        2 => {
            g.lit(&w[..vp::pick(w.len())]);
            if vp::pick(2) == 1 {
                g.sym(0, 0x7f);
            }
        }
        _ => {
            g.lit(w);
            match vp::pick(9) {
                0 => {}
                1 => g.sym(0, 0x7f),
                2 => {
                    g.sym(0, 0x7f);
                    g.sym(0, 0x7f);
                }
                3 => g.uni2(),
                4 => g.uni3(),
                5 => g.uni4(),
                6 => {
                    g.lit("/*");
                    g.sym(0, 0x7f);
                    g.lit("*/");
                    g.sym(0, 0x7f);
                }
                7 => {
                    g.lit("//");
                    g.sym(0, 0x7f);
                    g.sym(0, 0x7f);
                }
                _ => {
                    g.sym(b'-', b'_');
                    g.lit(w);
                }
            }
        }
    }
    (t.full)(text_of(g.b));
}

// ---------------------------------------------------------------- inputs

const NO: Fuel = fuel(0, 0, 0, 0);

fn derive(nt: &Nt, f: Fuel) {
    let mut g = Gen::new(f);
    g.rule(nt.g);
    (nt.full)(g.end());
}
fn derive_total(nt: &Nt, f: Fuel) {
    let mut g = Gen::new(f);
    g.rule(nt.g);
    (nt.total)(g.end());
}
fn derive_accept(nt: &Nt, f: Fuel) {
    let mut g = Gen::new(f);
    g.rule(nt.g);
    (nt.accept)(g.end());
}
/// Every type of a table.
fn each(ts: &'static [Nt], f: Fuel) {
    derive(&ts[vp::pick(ts.len())], f);
}
fn each_total(ts: &'static [Nt], f: Fuel) {
    derive_total(&ts[vp::pick(ts.len())], f);
}
fn each_accept(ts: &'static [Nt], f: Fuel) {
    derive_accept(&ts[vp::pick(ts.len())], f);
}
/// The alternatives of one rule, each with the whole fuel.
fn kinds(nt: &'static Nt, f: Fuel, run: fn(&'static str)) {
    let gs = match nt.g {
        G::Alt(_, gs) => gs,
        _ => return,
    };
    let mut g = Gen::new(f);
    // the kind, and the kind of that where it has several, are no deviations
    let mut r = &gs[vp::pick(gs.len())];
    while let G::R(x) = r {
        r = x;
    }
    if let G::Alt(_, hs) = r {
        r = &hs[vp::pick(hs.len())];
    }
    g.rule(r);
    run(g.end());
}
/// A rule inside a document.
fn inside(pre: &str, r: &'static G, post: &str, f: Fuel, run: fn(&'static str)) {
    let mut g = Gen::new(f);
    g.lit(pre);
    g.rule(r);
    g.lit(post);
    run(g.end());
}
static FOREIGN: &[&str] = &["\u{feff}", "\u{200b}", "\u{a0}", "::", "//", "...", "$", "\\", "'", "`", "\0", "\u{1a}", "??", ";;", "#", "@", "!", "&", "|", "++", "--", "**", "=="];
/// A derivation of each type, followed by other text.
fn tailed(ts: &'static [Nt], f: Fuel) {
    let nt = &ts[vp::pick(ts.len())];
    let mut g = Gen::new(f);
    if vp::pick(2) == 1 {
        g.lit("\t// c\r\n/* d */ ");
    }
    g.rule(nt.g);
    match vp::pick(11) {
        0 => {
            g.lit(" ");
            vp::choice(DAMAGE, &mut g.b);
        }
        1 => {
            g.sym(0, 0x7f);
        }
        2 => {
            g.sym(0, 0x7f);
            g.sym(0, 0x7f);
        }
        3 => g.uni2(),
        4 => g.uni4(),
        5 => {
            g.lit("/**/ ");
            vp::choice(KEYWORDS, &mut g.b);
        }
        6 => g.lit("// x"),
        7 => g.lit(" \n/* } ;"),
        8 => g.uni3(),
        9 => vp::choice(FOREIGN, &mut g.b),
        _ => {}
    }
    (nt.full)(text_of(g.b));
}

/// Places in documents: text before and after.
static PLACES: &[(&str, &str)] = &[
    ("", "enum E{\"a\"};"),
    ("enum E{\"a\"};", ""),
    ("enum E{\"a\"};", "A includes B;"),
    ("enum", " E{\"a\"};"),
    ("enum E", "{\"a\"};"),
    ("enum E{", "\"a\"};"),
    ("enum E{\"", "a\"};"),
    ("enum E{\"a\"", "};"),
    ("enum E{\"a\",", "};"),
    ("enum E{\"a\"}", ";"),
    ("enum E{\"a\"}", ""),
    ("interface ", "A{};"),
    ("interface A", "{};"),
    ("interface A:", "B{};"),
    ("interface A{", "};"),
    ("interface A{", "undefined f();};"),
    ("interface A{}", "};"),
    ("interface A{attribute", " long a;};"),
    ("interface A{attribute long", " a;};"),
    ("interface A{attribute long a", ";};"),
    ("interface A{const long a=", ";};"),
    ("interface A{const long a=1", ";};"),
    ("interface A{const ", " a=1;};"),
    ("interface A{undefined", "();};"),
    ("interface A{undefined f", "();};"),
    ("interface A{undefined f(", ");};"),
    ("interface A{undefined f(long", " a);};"),
    ("interface A{undefined f(optional", " long a);};"),
    ("interface A{undefined f(optional long a", ");};"),
    ("interface A{undefined f(optional long a=", ");};"),
    ("interface A{undefined f(long a", ");};"),
    ("interface A{undefined f()", ";};"),
    ("interface A{static", " undefined f();};"),
    ("interface A{iterable<", ">;};"),
    ("interface A{iterable", "<A>;};"),
    ("interface A{async ", "iterable<A>;};"),
    ("interface A{async iterable<A>", ";};"),
    ("interface A{readonly", " maplike<A,B>;};"),
    ("interface A{maplike<A", ",B>;};"),
    ("interface A{setlike<A", ">;};"),
    ("interface A{constructor", "();};"),
    ("interface A{stringifier", ";};"),
    ("typedef", " long T;"),
    ("typedef ", " T;"),
    ("typedef long", " T;"),
    ("typedef long ", "long T;"),
    ("typedef unsigned", " short T;"),
    ("typedef unrestricted", " float T;"),
    ("typedef(A", " or B)T;"),
    ("typedef(A or", " B)T;"),
    ("typedef(", "A or B)T;"),
    ("typedef(A or B", ")T;"),
    ("typedef(A or B)", "T;"),
    ("typedef sequence", "<A>T;"),
    ("typedef sequence<", ">T;"),
    ("typedef record<DOMString", ",A>T;"),
    ("typedef Promise<", ">T;"),
    ("typedef A", "? T;"),
    ("typedef A?", " T;"),
    ("[", "]enum E{\"a\"};"),
    ("[A", "]enum E{\"a\"};"),
    ("[A,", "B]enum E{\"a\"};"),
    ("[A=", "]enum E{\"a\"};"),
    ("[A=B", "]enum E{\"a\"};"),
    ("[A=(", ")]enum E{\"a\"};"),
    ("[A=(b", ",c)]enum E{\"a\"};"),
    ("[A(", ")]enum E{\"a\"};"),
    ("[A=\"", "\"]enum E{\"a\"};"),
    ("[A]", "enum E{\"a\"};"),
    ("callback", " c=A();"),
    ("callback c", "=A();"),
    ("callback c=", "();"),
    ("callback c=A(", ");"),
    ("callback ", "interface A{};"),
    ("dictionary D{", "};"),
    ("dictionary D{", "long a;};"),
    ("dictionary D{required", " long a;};"),
    ("dictionary D{long a", ";};"),
    ("dictionary D{long a=", ";};"),
    ("dictionary D{double a=1", ";};"),
    ("dictionary D:", "E{};"),
    ("namespace N{", "};"),
    ("namespace N{readonly", " attribute A b;};"),
    ("interface mixin", " M{};"),
    ("interface mixin M{", "};"),
    ("partial", " interface A{};"),
    ("partial ", " A{};"),
    ("A", " includes B;"),
    ("A ", " B;"),
    ("A includes ", ";"),
    ("/*", "*/enum E{\"a\"};"),
    ("//", "\nenum E{\"a\"};"),
    ("enum E{\"a\"};//", ""),
    ("enum E{\"a\"};/*", "*/"),
];
/// Any ASCII characters at one of the places.
fn stray(lo: usize, hi: usize, run: fn(&'static str)) {
    let (pre, post) = PLACES[vp::pick(PLACES.len())];
    let mut g = Gen::new(NO);
    g.lit(pre);
    for _ in 0..lo + vp::pick(hi - lo + 1) {
        g.sym(0, 0x7f);
    }
    g.lit(post);
    run(text_of(g.b));
}
/// Any character of two, three or four bytes at one of the places, alone or beside ASCII ones.
fn stray_uni(run: fn(&'static str)) {
    let (pre, post) = PLACES[vp::pick(PLACES.len())];
    let mut g = Gen::new(NO);
    g.lit(pre);
    match vp::pick(6) {
        0 => g.uni2(),
        1 => g.uni3(),
        2 => g.uni4(),
        3 => {
            g.uni2();
            g.sym(0, 0x7f);
        }
        4 => {
            g.sym(0, 0x7f);
            g.uni2();
        }
        // byte order mark, and the space characters that are none here
        _ => {
            vp::choice(&["\u{feff}", "\u{a0}", "\u{2028}", "\u{85}", "\u{3000}"], &mut g.b);
        }
    }
    g.lit(post);
    run(text_of(g.b));
}
/// A document cut off after any number of characters.
fn truncated(run: fn(&'static str)) {
    let d = DOCS[vp::pick(DOCS.len())];
    let mut g = Gen::new(NO);
    let n = vp::pick(d.len() + 1);
    g.lit(&d[..n]);
    match vp::pick(3) {
        0 => {}
        1 => g.sym(0, 0x7f),
        _ => g.uni2(),
    }
    run(text_of(g.b));
}
static DOCS: &[&str] = &[
    "[A,B=c]interface X:Y{const long a=-1.5e2;static readonly attribute sequence<(A or B)?>q;};",
    "dictionary D:E{required long a;[X]DOMString? s=\"x\";};A includes B;",
    "partial namespace N{undefined f(optional long a=0x1,any...b);};enum E{\"a\",\"b\",};",
    "callback interface C{stringifier;iterable<A,B>;constructor(any x);};typedef Promise<undefined>P;",
    "interface mixin M{readonly attribute record<DOMString,long long>r;};callback c=A(B x);",
];
/// Text made of words of a vocabulary, between fixed text.
fn words(pre: &str, vocab: &'static [&'static str], lo: usize, hi: usize, post: &str, run: fn(&'static str)) {
    let mut g = Gen::new(NO);
    g.lit(pre);
    for _ in 0..lo + vp::pick(hi - lo + 1) {
        g.lit(" ");
        vp::choice(vocab, &mut g.b);
    }
    g.lit(post);
    run(text_of(g.b));
}
static V_DEF: &[&str] = &[
    "callback", "interface", "mixin", "namespace", "dictionary", "partial", "enum", "typedef", "includes", "implements",
    "A", ":", "=", "{", "}", ";", "(", ")", "[", "]", "\"s\"", "undefined", "long", "{}", "();", "[A]", "{};", ",",
];
static V_MEMBER: &[&str] = &[
    "const", "attribute", "readonly", "static", "inherit", "stringifier", "constructor", "getter", "setter", "deleter",
    "legacycaller", "iterable", "async", "maplike", "setlike", "undefined", "long", "A", "any", "=", "1", ";", "(", ")",
    "<", ">", ",", "[A]", "();", "<A>", "<A,B>",
];
static V_DICT: &[&str] = &["required", "long", "A", "any", "=", "1", "\"s\"", "null", ";", "?", ",", "[A]", "optional", "[]", "{}"];
static V_TYPE: &[&str] = &[
    "any", "long", "short", "unsigned", "float", "unrestricted", "double", "object", "A", "DOMString", "sequence", "record",
    "Promise", "FrozenArray", "undefined", "<", ">", ",", "?", "(", ")", "or", "[A]", "byte",
];
static V_ARG: &[&str] = &["optional", "long", "A", "any", "=", "1", "\"s\"", "null", "...", ",", "?", "[A]", "[]", "{}", "true"];
static V_ATTR: &[&str] = &["A", "=", "*", "(", ")", ",", "\"s\"", "[", "]", "long", "...", "()", "optional"];
static V_ENUM: &[&str] = &["\"s\"", "\"\"", ",", "A", "}", "{", ";", "/**/", "//\n"];
static V_VALUE: &[&str] = &["1", "-1", "0x1", "01", "1.5", "-", "null", "true", "false", "NaN", "Infinity", "-Infinity", "\"s\"", "[]", "{}", "[", "]", "{", "}", "A", "e1", ".5", "-.5e+2", "+1"];
static V_TRIVIA: &[&str] = &["/*", "*/", "//", "\n", "*", "/", "/**/", "\r", "enum", "A", "//*", "*//", "\"", "\t"];

// ---- lengths ----
static COUNTS: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 25, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128,
    129, 200, 255, 256, 257, 300,
];
static LENGTHS: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 40,
    48, 49, 50, 51, 63, 64, 65, 80, 99, 100, 101, 127, 128, 129, 200, 254, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024,
    1025,
];
static DEPTHS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 80, 127, 128, 129, 200, 256, 300];

/// (before, item, separator, after)
static REPEATS: &[(&str, &str, &str, &str)] = &[
    ("", "enum E{\"a\"};", "", ""),
    ("", "[A]partial interface A{};", " ", ""),
    ("interface A{", "undefined f();", "", "};"),
    ("interface A{", "[B]attribute long a;", "\n", "};"),
    ("interface mixin A{", "attribute any a;", "", "};"),
    ("namespace A{", "long f();", "", "};"),
    ("dictionary A{", "long a=1;", "", "};"),
    ("enum A{", "\"a\"", ",", "};"),
    ("callback a=undefined(", "long a", ",", ");"),
    ("interface A{constructor(", "optional long a=1", ", ", ");};"),
    ("interface A{undefined f(", "any a", ",", ", long...b);};"),
    ("[", "A", ",", "]interface A{};"),
    ("[", "A=b", " , ", "]interface A{};"),
    ("[A=(", "b", ",", ")]enum E{\"a\"};"),
    ("[A(", "long b", ",", ")]enum E{\"a\"};"),
    ("typedef(", "A", " or ", ")T;"),
    ("partial dictionary A{", "required long a;", "", "};"),
    ("callback interface A{", "const long a=1;", "", "};"),
    ("interface A{attribute(", "DOMString", " or ", ")a;};"),
    ("typedef [", "A", ",", "]long T;"),
];
static R_ALL: (usize, usize) = (0, 20);
static R_DEFS: (usize, usize) = (0, 2);
static R_IMEM: (usize, usize) = (2, 4);
static R_OMEM: (usize, usize) = (4, 8);
static R_ARGS: (usize, usize) = (8, 11);
static R_ATTRS: (usize, usize) = (11, 15);
static R_TYPES: (usize, usize) = (15, 16);
/// Any number of items (of a list of numbers), and the separator missing, trailing or doubled.
fn repeated(r: (usize, usize), run: fn(&'static str)) {
    let (pre, item, sep, post) = REPEATS[r.0 + vp::pick(r.1 - r.0)];
    let n = COUNTS[vp::pick(COUNTS.len())];
    let mut g = Gen::new(NO);
    g.b.reserve(64 + n * 32);
    g.lit(pre);
    let odd = if n > 0 && n < 18 && !sep.is_empty() {
        vp::pick(4)
    } else if n == 100 && !sep.is_empty() {
        vp::pick(2)
    } else {
        0
    };
    for i in 0..n {
        if i > 0 && !(odd == 3 && i == n / 2) {
            g.lit(sep);
        }
        g.lit(item);
        if odd == 2 && i == n / 2 {
            g.lit(sep);
        }
    }
    if odd == 1 {
        g.lit(sep);
    }
    g.lit(post);
    run(text_of(g.b));
}
/// (before, filling, after)
static STRETCH: &[(&str, &str, &str)] = &[
    ("interface A", "b", "{};"),
    ("interface _A", "_", ":B{};"),
    ("interface A:B", "9", "{};"),
    ("interface A{attribute A", "c", " a;};"),
    ("interface A{undefined a", "-", "();};"),
    ("[A", "c", "=b]enum E{\"a\"};"),
    ("A", "c", " includes B;"),
    ("typedef sequence<A", "c", ">a;"),
    ("dictionary D{long a", "z", ";};"),
    ("callback a", "z", "=A(B c);"),
    ("callback a=A(B c", "d", ");"),
    ("enum a", "z", "{\"\"};"),
    ("namespace a", "z", "{};"),
    ("enum E{\"", "a", "\"};"),
    ("enum E{\"", "/", "\"};"),
    ("enum E{\"", "\u{e9}", "\"};"),
    ("[A=\"", " ", "\"]enum E{\"a\"};"),
    ("dictionary D{DOMString a=\"", "\n", "\";};"),
    ("interface A{const long a=1", "0", ";};"),
    ("interface A{const long a=0x1", "f", ";};"),
    ("interface A{const long a=0", "7", ";};"),
    ("interface A{const double a=-1", "9", ".5;};"),
    ("interface A{const double a=1.", "9", ";};"),
    ("interface A{const double a=1e1", "0", ";};"),
    ("dictionary D{double a=-.5E-0", "0", ";};"),
    ("//", "/", "\nenum E{\"a\"};"),
    ("//", "x", ""),
    ("/*", "*", "*/enum E{\"a\"};"),
    ("/*", "/", "*/enum E{\"a\"};"),
    ("/*", "\u{20ac}", "*/enum E{\"a\"};"),
    ("enum E{\"a\"};/*", "\n", "*/"),
    ("", " ", "enum E{\"a\"};"),
    ("", "\n", ""),
    ("enum", "\t", "\rE{\"a\"};"),
    ("enum E", "\r", "{\"a\"};"),
    ("enum E{\"a\"}", "\n", ";"),
    ("enum E{", "/**/", "\"a\"};"),
    ("interface A{", "//\n", "};"),
    ("typedef long", " ", "long T;"),
    ("typedef A", "?", "T;"),
    ("enum E{\"a\"};", ";", ""),
    ("typedef ", "_", "T T;"),
    ("interface A{any f(any", ".", "a);};"),
    ("dictionary D{long a=", "-", "1;};"),
];
static S_IDENT: (usize, usize) = (0, 13);
static S_STR: (usize, usize) = (13, 18);
static S_NUM: (usize, usize) = (18, 25);
static S_TRIVIA: (usize, usize) = (25, 39);
static S_ODD: (usize, usize) = (39, 44);
static S_ALL: (usize, usize) = (0, 44);
/// A lexeme or a separation of any length (of a list of lengths).
fn stretched(r: (usize, usize), run: fn(&'static str)) {
    let (pre, fill, post) = STRETCH[r.0 + vp::pick(r.1 - r.0)];
    let n = LENGTHS[vp::pick(LENGTHS.len())];
    let mut g = Gen::new(NO);
    g.b.reserve(128 + n * 4);
    g.lit(pre);
    for _ in 0..n {
        g.lit(fill);
    }
    g.lit(post);
    run(text_of(g.b));
}
/// (open, close, innermost)
static NESTS: &[(&str, &str, &str)] = &[
    ("sequence<", ">", "A"),
    ("FrozenArray<", ">", "long"),
    ("Promise<", ">", "undefined"),
    ("record<DOMString,", ">", "any"),
    ("(A or", ")", " B"),
    ("(", " or C)", "B"),
    ("sequence<(long or", ")?>?", " A"),
    ("record<sequence<A>,", ">?", "any"),
    ("(", "? or [X]B)", "(A or B)"),
    ("Promise<sequence<", ">>", "A"),
];
/// Types nested to any depth (of a list of depths), in one of the places where types stand.
fn nested(run: fn(&'static str)) {
    let (open, close, inner) = NESTS[vp::pick(NESTS.len())];
    let n = DEPTHS[vp::pick(DEPTHS.len())];
    let (pre, post) = [("typedef ", " T;"), ("interface A{", " f();};"), ("dictionary D{", " a;};"), ("callback c=A(", "...a);")][if n < 18 { vp::pick(4) } else { 0 }];
    let mut g = Gen::new(NO);
    g.b.reserve(128 + n * 32);
    g.lit(pre);
    for _ in 0..n {
        g.lit(open);
    }
    g.lit(inner);
    for _ in 0..n {
        g.lit(close);
    }
    match if n < 11 { vp::pick(3) } else { 0 } {
        0 => {}
        1 => g.lit("?"),
        _ => g.lit(">"),
    }
    g.lit(post);
    run(text_of(g.b));
}
/// Extended attributes nested in the arguments of extended attributes.
fn nested_attrs(run: fn(&'static str)) {
    let n = vp::pick(6);
    let mut g = Gen::new(NO);
    for _ in 0..n {
        g.lit("[A(");
    }
    g.lit("[B]long b");
    for _ in 0..n {
        g.lit(")]long a");
    }
    let s: Vec<u8> = g.b;
    let mut g = Gen::new(NO);
    let (pre, post) = [("callback c=A(", ");"), ("interface A{undefined f(", ");};"), ("[A(", ")]interface B{};")][vp::pick(3)];
    g.lit(pre);
    g.b.extend_from_slice(&s);
    g.lit(post);
    run(text_of(g.b));
}

// ---- symbolic lexemes through the public types ----
/// Any text of up to `n` ASCII characters.
fn free(n: usize, run: fn(&'static str)) {
    let mut g = Gen::new(NO);
    for _ in 0..vp::pick(n + 1) {
        g.sym(0, 0x7f);
    }
    run(text_of(g.b));
}
/// Any text of up to `n` ASCII characters, as every type of a table.
fn each_free(ts: &'static [Nt], n: usize, total: bool) {
    let nt = &ts[vp::pick(ts.len())];
    free(n, if total { nt.total } else { nt.full });
}
/// Any text of up to `n` ASCII characters after a document.
fn after(n: usize, run: fn(&'static str)) {
    let mut g = Gen::new(NO);
    g.lit(["enum E{\"a\"};", "A includes B;", "interface A{};\n", "[A]typedef long T;//"][vp::pick(4)]);
    for _ in 0..vp::pick(n + 1) {
        g.sym(0, 0x7f);
    }
    if vp::pick(2) == 1 {
        g.lit("enum E{\"a\"};");
    }
    run(text_of(g.b));
}
/// Words of a vocabulary as one type.
fn words_as(nt: &'static Nt, pre: &str, vocab: &'static [&'static str], lo: usize, hi: usize, post: &str) {
    words(pre, vocab, lo, hi, post, nt.full);
}
/// A type at every place where types stand.
fn types_everywhere(f: Fuel) {
    let (pre, post) = [
        ("typedef ", " T;"),
        ("interface A{attribute ", " a;};"),
        ("interface A{readonly attribute ", " a;};"),
        ("interface A{const ", " a=1;};"),
        ("interface A{static ", " f();};"),
        ("interface A{", " f();};"),
        ("interface A{getter ", " f(any a);};"),
        ("interface A{iterable<", ">;};"),
        ("interface A{iterable<A,", ">;};"),
        ("interface A{async iterable<", ",A>;};"),
        ("interface A{maplike<", ",A>;};"),
        ("interface A{readonly setlike<", ">;};"),
        ("dictionary A{", " a;};"),
        ("dictionary A{required ", " a;};"),
        ("callback c=", "();"),
        ("callback c=A(", " a);"),
        ("callback c=A(optional ", " a=1);"),
        ("callback c=A(", "...a);"),
        ("namespace A{readonly attribute ", " a;};"),
        ("namespace A{", " f();};"),
        ("interface mixin A{attribute ", " a;};"),
        ("[A(", " a)]enum E{\"\"};"),
        ("typedef record<", ",A>T;"),
        ("typedef record<A,", ">T;"),
        ("typedef(", " or A)T;"),
    ][vp::pick(25)];
    inside(pre, &peg::RETURN_TYPE, post, f, whole);
}
/// An attribute list at every place where attribute lists stand.
fn attrs_everywhere(f: Fuel) {
    let (pre, post) = [
        ("", "enum E{\"\"};"),
        ("", "interface A{};"),
        ("", "interface mixin A{};"),
        ("", "partial interface A{};"),
        ("", "callback interface A{};"),
        ("", "dictionary A{};"),
        ("", "partial dictionary A{};"),
        ("", "namespace A{};"),
        ("", "partial namespace A{};"),
        ("", "partial interface mixin A{};"),
        ("", "typedef A B;"),
        ("", "callback a=A();"),
        ("", "A includes B;"),
        ("", "A implements B;"),
        ("typedef", "A B;"),
        ("typedef(", "A or B)C;"),
        ("interface A{", "attribute A b;};"),
        ("interface A{", "const A b=1;};"),
        ("interface A{", "constructor();};"),
        ("interface A{", "undefined f();};"),
        ("interface A{", "iterable<A>;};"),
        ("interface A{", "async iterable<A,B>;};"),
        ("interface A{", "maplike<A,B>;};"),
        ("interface A{", "readonly setlike<A>;};"),
        ("interface A{", "stringifier;};"),
        ("interface A{attribute", "A b;};"),
        ("interface A{iterable<", "A>;};"),
        ("interface A{maplike<A,", "B>;};"),
        ("interface mixin A{", "attribute A b;};"),
        ("interface mixin A{", "undefined f();};"),
        ("namespace A{", "readonly attribute A b;};"),
        ("namespace A{", "const A b=1;};"),
        ("namespace A{", "undefined f();};"),
        ("dictionary A{", "A b;};"),
        ("dictionary A{", "required A b;};"),
        ("callback a=A(", "A b);"),
        ("callback a=A(", "optional A b);"),
        ("callback a=A(optional", "A b);"),
        ("callback a=A(", "A...b);"),
        ("[A(", "B b)]enum E{\"\"};"),
    ][vp::pick(40)];
    inside(pre, &peg::EXT_ATTRS, post, f, whole);
}
/// An argument list at every place where argument lists stand.
fn args_everywhere(f: Fuel) {
    let (pre, post) = [
        ("callback c=A", ";"),
        ("interface A{undefined f", ";};"),
        ("interface A{constructor", ";};"),
        ("interface A{static A", ";};"),
        ("interface A{getter A f", ";};"),
        ("interface A{async iterable<A>", ";};"),
        ("interface A{async iterable<A,B>", ";};"),
        ("interface mixin A{undefined f", ";};"),
        ("namespace A{undefined f", ";};"),
        ("[A", "]enum E{\"\"};"),
        ("[A=B", "]enum E{\"\"};"),
    ][vp::pick(11)];
    inside(pre, &peg::PAREN_ARGS, post, f, whole);
}
/// Earlier calls, then a document.
fn history(n: usize, f: Fuel) {
    for _ in 0..n {
        let d = HISTORY[vp::pick(HISTORY.len())];
        let _ = weedle::parse(d);
    }
    inside("", &peg::DEFINITION, "", f, whole);
}
static HISTORY: &[&str] = &[
    "",
    "enum E{\"a\"};",
    "interface A",
    "/* ",
    "[A=\"x\"]interface A:B{const long a=-1;undefined f(optional long a=1,any...b);};",
    "interface A{typedef};",
    "typedef sequence<sequence<sequence<(A or B)?>>>T;A includes B;",
    "dictionary D{long a=\"",
    "\u{e9}",
    "namespace N{readonly attribute A b;};partial interface mixin M{stringifier;};",
];
/// Definitions with every construct of the grammar, tokens separated by spaces.
static SINK: &[&str] = &[
    "[ A , A ( optional long a = 1 , any ... b ) , A = B , A = ( B , C ) , A = B ( [ C ] long x ) ] interface A { } ;",
    "[ A = B ( long x , long y ) , A = \"s\" ] callback interface A { undefined f ( ( A or B ) a ) ; } ;",
    "callback c = sequence < long > ( optional DOMString a = \"x\" ) ;",
    "partial interface A { const unsigned long long a = -1 ; const double b = 1.5e3 ; } ;",
    "interface A : B { [ C ] readonly attribute long ? a ; static attribute any b ; inherit attribute FrozenArray < A > c ; } ;",
    "interface A { constructor ( long a ) ; getter long f ( long a ) ; setter undefined ( long a , long b ) ; deleter any ( any a ) ; } ;",
    "interface A { iterable < long > ; iterable < long , A > ; async iterable < A > ; maplike < A , B > ; readonly setlike < A > ; stringifier ; } ;",
    "interface mixin M { stringifier readonly attribute USVString a ; undefined f ( optional long ? a = null ) ; const octet a = 0x1F ; } ;",
    "partial interface mixin M { readonly attribute record < DOMString , any > r ; } ;",
    "namespace N { readonly attribute Promise < undefined > p ; ( A or sequence < B > ) f ( ) ; } ;",
    "partial namespace N { undefined f ( [ A ] optional sequence < long > a = [ ] , unrestricted float ... b ) ; } ;",
    "dictionary D : E { [ A ] required long a ; long b = 0.5 ; [ B ] A ? c = null ; } ;",
    "partial dictionary D { boolean a = true ; byte b = -Infinity ; } ;",
    "enum E { \"a\" , \"b\" , } ;",
    "typedef [ A ] ( [ B ] A or ( B or Promise < C > ) ? ) T ;",
    "A includes B ;",
    "legacycaller includes B ;",
];
static BREAK: &[&str] = &["", ",", ")", "1", ";", "}", "]", ">", "\"", "?", "A", "long", "/*", "\u{e9}"];
/// Earlier calls on a definition cut after each of its tokens, with something wrong there.
fn broken_history(words: usize, rounds: usize, each: bool) {
    let d = SINK[vp::pick(SINK.len())];
    let cut: Vec<usize> = d.char_indices().filter(|c| c.1 == ' ').map(|c| c.0).collect();
    let mut bad: Vec<&'static str> = vec![];
    for &c in &cut {
        for w in &BREAK[..words] {
            let s = format!("{} {}", &d[..c], w);
            let t = format!("{}{}", s, &d[c..]);
            bad.push(Box::leak(s.into_boxed_str()));
            bad.push(Box::leak(t.into_boxed_str()));
        }
    }
    let all: &'static str = Box::leak(SINK.concat().into_boxed_str());
    vp::text(d.as_bytes());
    for b in bad {
        for _ in 0..rounds {
            let _ = weedle::parse(b);
        }
        if each {
            whole(d);
        }
    }
    whole(d);
    whole(all);
}
/// Lists of other lengths before.
fn sizes() {
    static N: &[usize] = &[0, 1, 3, 17, 34, 50, 101];
    let (pre, item, sep, post) = REPEATS[vp::pick(R_ALL.1)];
    for k in 0..2 {
        let n = N[vp::pick(N.len())];
        let mut g = Gen::new(NO);
        g.b.reserve(64 + n * 32);
        g.lit(pre);
        for i in 0..n {
            if i > 0 {
                g.lit(sep);
            }
            g.lit(item);
        }
        g.lit(post);
        let s = text_of(g.b);
        if k == 0 {
            let _ = weedle::parse(s);
        } else {
            whole(s);
        }
    }
}
/// One buffer that holds different texts of the same length in turn.
fn reused(n: usize) {
    static TEXTS: &[&str] = &[
        "enum E{\"abcdefgh\",\"i\"};  ",
        "enum E{\"abcdefgh\",\"i\";   ",
        "interface A{attribute B c;",
        "A includes B;interface A{}",
        "A includes B;interface A; ",
        "typedef sequence<long?> T;",
        "typedef sequence<long> Tu;",
        "                          ",
        "/*                       */",
        "namespace A{};namespace b;",
    ];
    let buf: &'static mut [u8] = Box::leak(vec![b' '; 32].into_boxed_slice());
    let p = buf.as_mut_ptr();
    for i in 0..=n {
        let t = TEXTS[vp::pick(TEXTS.len())].as_bytes();
        for k in 0..32 {
            unsafe { p.add(k).write(if k < t.len() { t[k] } else { b' ' }) };
        }
        let s: &'static str = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, 32)) };
        if i < n {
            let _ = weedle::parse(s);
        } else {
            vp::text(s.as_bytes());
            whole(s);
        }
    }
}
/// Very many calls, each of which has to have the same outcome.
fn many_calls(d: &'static str, want: Option<usize>, n: usize) {
    vp::text(d.as_bytes());
    let mut same = true;
    for _ in 0..n {
        same &= weedle::parse(d).ok().map(|v| v.len()) == want;
    }
    vp::check(same, 4);
    whole("A includes B;");
}
/// A document as a part of a larger text.
fn embedded(f: Fuel) {
    let mut g = Gen::new(f);
    let k = vp::pick(3);
    for _ in 0..k {
        g.sym(0, 0x7f);
    }
    g.rule(&peg::DEFINITION);
    g.gap(false);
    let e = g.b.len();
    match vp::pick(4) {
        0 => g.sym(0, 0x7f),
        1 => g.lit("*/"),
        2 => g.lit("\"};"),
        _ => g.lit("xx"),
    }
    let b: &'static [u8] = Box::leak(g.b.into_boxed_slice());
    vp::text(b);
    let all = unsafe { std::str::from_utf8_unchecked(b) };
    whole(&all[k..e]);
}
/// The same text twice, at different addresses.
fn twice(f: Fuel) {
    let mut g = Gen::new(f);
    g.rule(&peg::DEFINITION);
    let s = text_of(g.b);
    let mut c = Vec::with_capacity(s.len() + 3);
    c.extend_from_slice(b"// ");
    c.extend_from_slice(s.as_bytes());
    let t: &'static [u8] = Box::leak(c.into_boxed_slice());
    let t = unsafe { std::str::from_utf8_unchecked(&t[3..]) };
    whole(s);
    whole(t);
    whole(s);
}
/// Any text of up to `n` characters of an alphabet.
fn over(alphabet: &'static [&'static str], n: usize, pre: &str, post: &str, run: fn(&'static str)) {
    let mut g = Gen::new(NO);
    g.lit(pre);
    for _ in 0..vp::pick(n + 1) {
        let at = g.b.len();
        vp::choice(alphabet, &mut g.b);
        g.b.truncate(at + 1);
    }
    g.lit(post);
    run(text_of(g.b));
}
static A_NUM: &[&str] = &["0", "1", "7", "8", "9", "-", "+", ".", "e", "E", "x", "X", "a", "F", "g", " "];
static A_ID: &[&str] = &["a", "Z", "_", "-", "0", "9", ".", " ", "/", "@", "[", "`", "{", ":"];
static A_TRIVIA: &[&str] = &[" ", "\n", "/", "*", "x", "\r", "\""];
/// An identifier of symbolic letters and digits, of every length up to `n`.
fn symbolic_ident(n: usize, run: fn(&'static str)) {
    let (pre, post) = IDENT_PLACES[vp::pick(IDENT_PLACES.len())];
    let mut g = Gen::new(NO);
    g.lit(pre);
    for _ in 0..vp::pick(n + 1) {
        g.sym(0x21, 0x7e);
    }
    g.lit(post);
    run(text_of(g.b));
}
static IDENT_PLACES: &[(&str, &str)] = &[
    ("interface ", "{};"),
    ("interface A:", "{};"),
    ("interface A{attribute ", " a;};"),
    ("interface A{attribute long ", ";};"),
    ("interface A{undefined ", "();};"),
    ("interface A{const ", " a=1;};"),
    ("dictionary D{long ", ";};"),
    ("callback c=A(B ", ");"),
    ("callback ", "=A();"),
    ("enum ", "{\"\"};"),
    ("typedef A ", ";"),
    ("typedef sequence<", ">A;"),
    ("typedef(A or ", ")A;"),
    ("", " includes B;"),
    ("A includes ", ";"),
    ("[", "]enum E{\"\"};"),
    ("[A=", "]enum E{\"\"};"),
    ("[A=(", ")]enum E{\"\"};"),
    ("namespace ", "{};"),
    ("interface mixin ", "{};"),
    ("partial dictionary ", "{};"),
];
/// Every keyword, a word made from it, or a near miss, as an identifier at every place.
fn keyword_ident(run: fn(&'static str)) {
    let place = vp::pick(IDENT_PLACES.len());
    let (pre, post) = IDENT_PLACES[place];
    let mut g = Gen::new(NO);
    g.lit(pre);
    match vp::pick(if place % 5 == 0 { 6 } else { 5 }) {
        0 => vp::choice(KEYWORDS, &mut g.b),
        1 => vp::choice(NEAR, &mut g.b),
        2 => {
            g.lit("_");
            vp::choice(KEYWORDS, &mut g.b)
        }
        3 => {
            g.sym(b'-', b'z');
            vp::choice(KEYWORDS, &mut g.b)
        }
        4 => {
            g.lit("/**/");
            vp::choice(KEYWORDS, &mut g.b)
        }
        _ => {
            let k = KEYWORDS[vp::pick(KEYWORDS.len())];
            g.lit(k);
            g.sym(0x21, 0x7e);
        }
    }
    g.lit(post);
    run(text_of(g.b));
}
/// A literal made of the characters of numbers, as a constant or a default value.
fn number_text(n: usize) {
    let (pre, post) = [("interface A{const double a=", ";};"), ("dictionary D{double a=", ";};"), ("callback c=A(optional double a=", ",B b);")][vp::pick(3)];
    over(A_NUM, n, pre, post, whole);
}
/// A string literal with symbolic characters.
fn string_text(n: usize) {
    let (pre, post) = [("enum E{\"", "\"};"), ("[A=\"", "\"]enum E{\"\"};"), ("dictionary D{DOMString a=\"", "\";};")][vp::pick(3)];
    let mut g = Gen::new(NO);
    g.lit(pre);
    match vp::pick(5) {
        0 => {
            for _ in 0..vp::pick(n + 1) {
                g.sym(0, 0x7f);
            }
        }
        1 => g.uni2(),
        2 => g.uni3(),
        3 => g.uni4(),
        _ => {
            g.uni2();
            g.sym(0, 0x7f);
            g.uni3();
        }
    }
    g.lit(post);
    whole(text_of(g.b));
}

// ---- documents of several definitions ----
fn documents(f: Fuel, run: fn(&'static str)) {
    let mut g = Gen::new(f);
    let gs = match &peg::DEFINITION {
        G::Alt(_, gs) => gs,
        _ => return,
    };
    for _ in 0..2 {
        g.rule(&gs[vp::pick(gs.len())]);
    }
    run(g.end());
}

// ---- pairs ----
fn pairs(ts: &'static [Nt], f: Fuel) {
    let nt = &ts[vp::pick(ts.len())];
    let mut g = Gen::new(f);
    g.rule(nt.g);
    let s = text_of(g.b);
    let mut g = Gen::new(f);
    g.rule(nt.g);
    let t = text_of(g.b);
    (nt.pair)(s, t);
}
/// The same derivation twice, with other symbolic characters and other trivia.
fn twins(ts: &'static [Nt], f: Fuel) {
    let nt = &ts[vp::pick(ts.len())];
    let mut g = Gen::new(f);
    g.rec = Some(vec![]);
    g.rule(nt.g);
    let rec = g.rec.take().unwrap();
    let s = text_of(g.b);
    let mut g = Gen::new(f);
    g.replay = Some((rec, 0));
    g.airy = vp::pick(2) == 1;
    g.rule(nt.g);
    let t = text_of(g.b);
    (nt.pair)(s, t);
}
/// Two lexemes of up to `n` symbolic characters.
fn lexeme_pairs(n: usize) {
    let mut g = Gen::new(NO);
    let k = vp::pick(6);
    let (nt, pre, lo, hi, post): (&Nt, &str, u8, u8, &str) = match k {
        0 => (&T_IDENT[0], "a", b'-', b'z', ""),
        1 => (&T_LITS[6], "\"", 0x23, 0x7f, "\""),
        2 => (&T_LITS[1], "1", b'0', b'9', ""),
        3 => (&T_LITS[2], "0x1", b'0', b'f', ""),
        4 => (&T_LITS[3], "0", b'0', b'7', ""),
        _ => (&T_LITS[5], "1.", b'0', b'9', ""),
    };
    g.lit(pre);
    for _ in 0..vp::pick(n + 1) {
        g.sym(lo, hi);
    }
    g.lit(post);
    let s = text_of(g.b);
    let mut g = Gen::new(NO);
    g.lit(pre);
    for _ in 0..vp::pick(n + 1) {
        g.sym(lo, hi);
    }
    g.lit(post);
    let t = text_of(g.b);
    (nt.pair)(s, t);
}
/// Long lexemes or lists that differ in one place.
fn long_pairs() {
    let (nt, pre, fill, post): (&Nt, &str, &str, &str) = match vp::pick(5) {
        0 => (&T_IDENT[0], "a", "b", ""),
        1 => (&T_LITS[6], "\"", ".", "\""),
        2 => (&T_LITS[1], "1", "1", ""),
        3 => (&DEF, "enum E{", "\"s\",", "};"),
        _ => (&DEF, "[A", ",b", "]interface X{};"),
    };
    let n = [2, 8, 16, 33, 70, 140][vp::pick(6)];
    let d = [0, 1, n / 2, n - 1][vp::pick(4)];
    let mut out = [""; 2];
    for w in 0..2 {
        let mut g = Gen::new(NO);
        g.lit(pre);
        for i in 0..n {
            let at = g.b.len();
            g.lit(fill);
            if i == d {
                let c = g.b.len() - if fill.len() == 1 { 1 } else { 2.min(fill.len() - 1) };
                let _ = at;
                let c = if fill.len() == 2 { g.b.len() - 1 } else if fill.len() > 2 { g.b.len() - 3 } else { c };
                g.b[c] = if k_digit(fill) { vp::byte(b'0', b'9') } else { vp::byte(b'a', b'e') };
            }
        }
        g.lit(post);
        out[w] = text_of(g.b);
    }
    (nt.pair)(out[0], out[1]);
}
fn k_digit(f: &str) -> bool {
    f == "1"
}
macro_rules! convs { ($f:expr; $($e:ty { $($v:expr, $s:ty, $g:ident;)* })*) => {{
    static C: &[(&G, fn(&'static str))] = &[$($((&peg::$g, |s| conv::<$s, $e>(s, $v)),)*)*];
    let (g, run) = &C[vp::pick(C.len())];
    let mut x = Gen::new($f);
    x.rule(g);
    run(text_of(x.b));
}} }
fn conversions(f: Fuel) {
    convs! { f;
        Definition<'static> {
            0, CallbackDefinition<'static>, CALLBACK; 1, CallbackInterfaceDefinition<'static>, CALLBACK_INTERFACE;
            2, InterfaceDefinition<'static>, INTERFACE; 3, InterfaceMixinDefinition<'static>, MIXIN;
            4, NamespaceDefinition<'static>, NAMESPACE; 5, DictionaryDefinition<'static>, DICTIONARY;
            6, PartialInterfaceDefinition<'static>, P_INTERFACE; 7, PartialInterfaceMixinDefinition<'static>, P_MIXIN;
            8, PartialDictionaryDefinition<'static>, P_DICTIONARY; 9, PartialNamespaceDefinition<'static>, P_NAMESPACE;
            10, EnumDefinition<'static>, ENUM; 11, TypedefDefinition<'static>, TYPEDEF;
            12, IncludesStatementDefinition<'static>, INCLUDES; 13, ImplementsDefinition<'static>, IMPLEMENTS;
        }
        InterfaceMember<'static> {
            0, ConstMember<'static>, CONST; 1, AttributeInterfaceMember<'static>, I_ATTRIBUTE;
            2, ConstructorInterfaceMember<'static>, I_CONSTRUCTOR; 3, OperationInterfaceMember<'static>, I_OPERATION;
            4, IterableInterfaceMember<'static>, I_ITERABLE; 5, AsyncIterableInterfaceMember<'static>, I_ASYNC;
            6, MaplikeInterfaceMember<'static>, I_MAPLIKE; 7, SetlikeInterfaceMember<'static>, I_SETLIKE;
            8, StringifierMember<'static>, STRINGIFIER;
        }
        MixinMember<'static> {
            0, ConstMember<'static>, CONST; 1, OperationMixinMember<'static>, M_OPERATION;
            2, AttributeMixinMember<'static>, M_ATTRIBUTE; 3, StringifierMember<'static>, STRINGIFIER;
        }
        NamespaceMember<'static> {
            0, ConstNamespaceMember<'static>, CONST; 1, OperationNamespaceMember<'static>, N_OPERATION;
            2, AttributeNamespaceMember<'static>, N_ATTRIBUTE;
        }
        Argument<'static> { 0, SingleArgument<'static>, SINGLE_ARG; 1, VariadicArgument<'static>, VARIADIC_ARG; }
        ExtendedAttribute<'static> {
            0, ExtendedAttributeArgList<'static>, A_ARGS; 1, ExtendedAttributeNamedArgList<'static>, A_NAMED;
            2, ExtendedAttributeIdentList<'static>, A_IDENTS; 3, ExtendedAttributeIdent<'static>, A_IDENT;
            4, ExtendedAttributeWildCard<'static>, A_WILD; 5, ExtendedAttributeNoArgs<'static>, A_NONE;
        }
        IdentifierOrString<'static> { 0, Id, IDENT; 1, St, STRING; }
        Type<'static> { 0, SingleType<'static>, SINGLE_TYPE; 1, MayBeNull<UnionType<'static>>, NULL_UNION; }
        UnionMemberType<'static> { 0, AttributedNonAnyType<'static>, ATTR_NON_ANY; 1, MayBeNull<UnionType<'static>>, NULL_UNION; }
        IntegerType { 0, LongLongType, T_LONGLONG; 1, LongType, T_LONG; 2, ShortType, T_SHORT; }
        FloatingPointType { 0, FloatType, T_FLOAT; 1, DoubleType, T_DOUBLE; }
        IntegerLit<'static> { 0, DecLit<'static>, DEC; 1, HexLit<'static>, HEX; 2, OctLit<'static>, OCT; }
        DefaultValue<'static> {
            0, BooleanLit, BOOL; 1, EmptyArrayLit, EMPTY_ARRAY; 2, EmptyDictionaryLit, EMPTY_DICT;
            3, FloatLit<'static>, FLOAT; 4, Int, INTEGER; 6, St, STRING;
        }
        ConstValue<'static> { 0, BooleanLit, BOOL; 1, FloatLit<'static>, FLOAT; 2, Int, INTEGER; }
        ReturnType<'static> { 1, Type<'static>, TYPE; }
        IterableInterfaceMember<'static> { 0, SingleTypedIterable<'static>, ITER1; 1, DoubleTypedIterable<'static>, ITER2; }
        AsyncIterableInterfaceMember<'static> { 0, SingleTypedAsyncIterable<'static>, ASYNC1; 1, DoubleTypedAsyncIterable<'static>, ASYNC2; }
        NonAnyType<'static> {
            0, PromiseType<'static>, PROMISE; 1, MayBeNull<IntegerType>, NULL_INTEGER; 28, MayBeNull<Id>, NULL_IDENT;
        }
        RecordKeyType<'static> { 3, NonAnyType<'static>, NON_ANY; }
        ConstType<'static> { 0, MayBeNull<IntegerType>, NULL_INTEGER; 5, MayBeNull<Id>, NULL_IDENT; }
        SingleType<'static> { 1, NonAnyType<'static>, NON_ANY; }
    }
}

include!("table.rs");
