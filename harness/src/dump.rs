//! Writes a parsed tree onto a tape in the format of the reference.
use crate::peg::{Tape, SLICE};
use weedle::argument::*;
use weedle::attribute::*;
use weedle::common::*;
use weedle::dictionary::*;
use weedle::interface::*;
use weedle::literal::*;
use weedle::mixin::*;
use weedle::namespace::*;
use weedle::term;
use weedle::types::*;
use weedle::*;

pub struct Out {
    pub t: Tape,
    pub base: usize,
    pub len: usize,
    /// a slice did not lie within the input
    pub outside: bool,
    /// record the bytes of slices instead of their positions
    pub content: bool,
    /// fields and variants in the order of their declaration
    pub ranked: bool,
}

impl Out {
    pub fn new(input: &str) -> Out {
        Out {
            t: Vec::with_capacity(512),
            base: input.as_ptr() as usize,
            len: input.len(),
            outside: false,
            content: false,
            ranked: false,
        }
    }
    fn slice(&mut self, s: &str) {
        if self.content {
            for b in s.as_bytes() {
                self.t.push(SLICE | *b as u32);
            }
            self.t.push(s.len() as u32);
            return;
        }
        let p = s.as_ptr() as usize;
        if p < self.base || p + s.len() > self.base + self.len {
            self.outside = true;
        }
        self.t.push(SLICE | p.wrapping_sub(self.base) as u32);
        self.t.push(s.len() as u32);
    }
}

pub trait Dump {
    fn dump(&self, o: &mut Out);
}

impl<T: Dump> Dump for Option<T> {
    fn dump(&self, o: &mut Out) {
        match self {
            Some(x) => {
                o.t.push(1);
                x.dump(o);
            }
            None => o.t.push(0),
        }
    }
}
impl<T: Dump> Dump for Vec<T> {
    fn dump(&self, o: &mut Out) {
        for x in self {
            o.t.push(1);
            x.dump(o);
        }
        o.t.push(0);
    }
}
impl<T: Dump> Dump for Box<T> {
    fn dump(&self, o: &mut Out) {
        (**self).dump(o)
    }
}
impl<T: Dump, U: Dump> Dump for (T, U) {
    fn dump(&self, o: &mut Out) {
        self.0.dump(o);
        self.1.dump(o);
    }
}
impl<T: Dump, U: Dump, V: Dump> Dump for (T, U, V) {
    fn dump(&self, o: &mut Out) {
        self.0.dump(o);
        self.1.dump(o);
        self.2.dump(o);
    }
}
macro_rules! wrapped { ($($n:ident)*) => { $(impl<T: Dump> Dump for $n<T> { fn dump(&self, o: &mut Out) { self.body.dump(o) } })* } }
wrapped!(Parenthesized Bracketed Braced Generics);
impl<T: Dump, S> Dump for Punctuated<T, S> {
    fn dump(&self, o: &mut Out) {
        self.list.dump(o)
    }
}
impl<T: Dump, S> Dump for PunctuatedNonEmpty<T, S> {
    fn dump(&self, o: &mut Out) {
        self.list.dump(o)
    }
}
impl<T: Dump> Dump for MayBeNull<T> {
    fn dump(&self, o: &mut Out) {
        self.type_.dump(o);
        self.q_mark.dump(o);
    }
}
impl Dump for BooleanLit {
    fn dump(&self, o: &mut Out) {
        o.t.push(self.0 as u32)
    }
}
macro_rules! terms { ($($n:ident)*) => { $(impl Dump for term::$n { fn dump(&self, _: &mut Out) {} })* } }
terms!(OpenParen CloseParen OpenBracket CloseBracket OpenBrace CloseBrace Comma Minus Dot Ellipsis Colon SemiColon
    LessThan Assign GreaterThan QMark Asterisk Or Optional Async Attribute Callback Const Deleter Dictionary Enum Getter
    Includes Inherit Interface Iterable Maplike Namespace Partial Required Setlike Setter Static Stringifier Typedef
    Unrestricted Symbol NegInfinity ByteString DOMString FrozenArray Infinity NaN USVString Any Boolean Byte Double False
    Float Long Null Object Octet Sequence Short True Unsigned Undefined Record ArrayBuffer DataView Int8Array Int16Array
    Int32Array Uint8Array Uint16Array Uint32Array Uint8ClampedArray Float32Array Float64Array ArrayBufferView BufferSource
    Promise Error ReadOnly Mixin Implements LegacyCaller Constructor);
macro_rules! slices { ($($n:ident)*) => { $(impl<'a> Dump for $n<'a> { fn dump(&self, o: &mut Out) { o.slice(self.0) } })* } }
slices!(Identifier DecLit HexLit OctLit StringLit FloatValueLit);
impl<'a> Dump for ExtendedAttributeNoArgs<'a> {
    fn dump(&self, o: &mut Out) {
        self.0.dump(o)
    }
}
/// " Type.field=3 ..." as declared in the sources; the parser's order where it is not given
const ORDER: &str = match option_env!("WH_ORDER") {
    Some(x) => x,
    None => "",
};
const fn rank(ty: &str, part: &str, default: u32) -> u32 {
    let (o, t, p) = (ORDER.as_bytes(), ty.as_bytes(), part.as_bytes());
    let mut i = 0;
    while i + t.len() + p.len() + 3 < o.len() {
        if o[i] == b' ' && o[i + 1 + t.len()] == b'.' && o[i + 2 + t.len() + p.len()] == b'=' {
            let mut same = true;
            let mut k = 0;
            while k < t.len() && same {
                same = o[i + 1 + k] == t[k];
                k += 1;
            }
            k = 0;
            while k < p.len() && same {
                same = o[i + 2 + t.len() + k] == p[k];
                k += 1;
            }
            if same {
                let mut n = 0;
                k = i + 3 + t.len() + p.len();
                while k < o.len() && o[k] != b' ' {
                    n = n * 10 + (o[k] - b'0') as u32;
                    k += 1;
                }
                return n;
            }
        }
        i += 1;
    }
    default
}
macro_rules! structs { ($($n:ident $(<$l:lifetime>)? { $($f:ident)* })*) => { $(impl$(<$l>)? Dump for $n$(<$l>)? { fn dump(&self, o: &mut Out) {
    if !o.ranked {
        $(self.$f.dump(o);)*
        return;
    }
    let mut i = 0;
    while i < 12 {
        let mut k = 0;
        $(
            {
                const R: u32 = rank(stringify!($n), stringify!($f), 99);
                if i == if R == 99 { k } else { R } {
                    self.$f.dump(o);
                }
            }
            k += 1;
        )*
        let _ = k;
        i += 1;
    }
} })* } }
macro_rules! enums { ($($n:ident $(<$l:lifetime>)? { $($v:ident)* })*) => { $(impl$(<$l>)? Dump for $n$(<$l>)? { fn dump(&self, o: &mut Out) {
    let mut k = 0;
    $(
        if let $n::$v(x) = self {
            const R: u32 = rank(stringify!($n), stringify!($v), 99);
            o.t.push(if !o.ranked || R == 99 { k } else { R });
            x.dump(o);
        }
        k += 1;
    )*
    let _ = k;
} })* } }
structs! {
    EmptyArrayLit { open_bracket close_bracket }
    EmptyDictionaryLit { open_brace close_brace }
    Default<'a> { assign value }
    SingleArgument<'a> { attributes optional type_ identifier default }
    VariadicArgument<'a> { attributes type_ ellipsis identifier }
    ExtendedAttributeArgList<'a> { identifier args }
    ExtendedAttributeNamedArgList<'a> { lhs_identifier assign rhs_identifier args }
    ExtendedAttributeIdentList<'a> { identifier assign list }
    ExtendedAttributeIdent<'a> { lhs_identifier assign rhs }
    ExtendedAttributeWildCard<'a> { lhs_identifier assign rhs }
    DictionaryMember<'a> { attributes required type_ identifier default semi_colon }
    Inheritance<'a> { colon identifier }
    ConstMember<'a> { attributes const_ const_type identifier assign const_value semi_colon }
    AttributeInterfaceMember<'a> { attributes modifier readonly attribute type_ identifier semi_colon }
    ConstructorInterfaceMember<'a> { attributes constructor args semi_colon }
    OperationInterfaceMember<'a> { attributes modifier special return_type identifier args semi_colon }
    SingleTypedIterable<'a> { attributes iterable generics semi_colon }
    DoubleTypedIterable<'a> { attributes iterable generics semi_colon }
    SingleTypedAsyncIterable<'a> { attributes async_iterable generics args semi_colon }
    DoubleTypedAsyncIterable<'a> { attributes async_iterable generics args semi_colon }
    MaplikeInterfaceMember<'a> { attributes readonly maplike generics semi_colon }
    SetlikeInterfaceMember<'a> { attributes readonly setlike generics semi_colon }
    StringifierMember<'a> { attributes stringifier semi_colon }
    OperationMixinMember<'a> { attributes stringifier return_type identifier args semi_colon }
    AttributeMixinMember<'a> { attributes stringifier readonly attribute type_ identifier semi_colon }
    ConstNamespaceMember<'a> { attributes const_ const_type identifier assign const_value semi_colon }
    OperationNamespaceMember<'a> { attributes return_type identifier args semi_colon }
    AttributeNamespaceMember<'a> { attributes readonly attribute type_ identifier semi_colon }
    SequenceType<'a> { sequence generics }
    FrozenArrayType<'a> { frozen_array generics }
    PromiseType<'a> { promise generics }
    LongLongType { unsigned long_long }
    LongType { unsigned long }
    ShortType { unsigned short }
    FloatType { unrestricted float }
    DoubleType { unrestricted double }
    RecordType<'a> { record generics }
    AttributedType<'a> { attributes type_ }
    AttributedNonAnyType<'a> { attributes type_ }
    CallbackDefinition<'a> { attributes callback identifier assign return_type arguments semi_colon }
    CallbackInterfaceDefinition<'a> { attributes callback interface identifier inheritance members semi_colon }
    InterfaceDefinition<'a> { attributes interface identifier inheritance members semi_colon }
    InterfaceMixinDefinition<'a> { attributes interface mixin identifier members semi_colon }
    NamespaceDefinition<'a> { attributes namespace identifier members semi_colon }
    DictionaryDefinition<'a> { attributes dictionary identifier inheritance members semi_colon }
    PartialInterfaceDefinition<'a> { attributes partial interface identifier members semi_colon }
    PartialInterfaceMixinDefinition<'a> { attributes partial interface mixin identifier members semi_colon }
    PartialDictionaryDefinition<'a> { attributes partial dictionary identifier members semi_colon }
    PartialNamespaceDefinition<'a> { attributes partial namespace identifier members semi_colon }
    EnumDefinition<'a> { attributes enum_ identifier values semi_colon }
    TypedefDefinition<'a> { attributes typedef type_ identifier semi_colon }
    IncludesStatementDefinition<'a> { attributes lhs_identifier includes rhs_identifier semi_colon }
    ImplementsDefinition<'a> { attributes lhs_identifier includes rhs_identifier semi_colon }
}
enums! {
    IntegerLit<'a> { Dec Hex Oct }
    FloatLit<'a> { Value NegInfinity Infinity NaN }
    DefaultValue<'a> { Boolean EmptyArray EmptyDictionary Float Integer Null String }
    ConstValue<'a> { Boolean Float Integer Null }
    Argument<'a> { Single Variadic }
    ExtendedAttribute<'a> { ArgList NamedArgList IdentList Ident Wildcard NoArgs }
    IdentifierOrString<'a> { Identifier String }
    InterfaceMember<'a> { Const Attribute Constructor Operation Iterable AsyncIterable Maplike Setlike Stringifier }
    IterableInterfaceMember<'a> { Single Double }
    AsyncIterableInterfaceMember<'a> { Single Double }
    Special { Getter Setter Deleter LegacyCaller }
    StringifierOrInheritOrStatic { Stringifier Inherit Static }
    StringifierOrStatic { Stringifier Static }
    MixinMember<'a> { Const Operation Attribute Stringifier }
    NamespaceMember<'a> { Const Operation Attribute }
    Type<'a> { Single Union }
    SingleType<'a> { Any NonAny }
    NonAnyType<'a> { Promise Integer FloatingPoint Boolean Byte Octet ByteString DOMString USVString Sequence Object Symbol
        Error ArrayBuffer DataView Int8Array Int16Array Int32Array Uint8Array Uint16Array Uint32Array Uint8ClampedArray
        Float32Array Float64Array ArrayBufferView BufferSource FrozenArrayType RecordType Identifier }
    IntegerType { LongLong Long Short }
    FloatingPointType { Float Double }
    RecordKeyType<'a> { Byte DOM USV NonAny }
    UnionMemberType<'a> { Single Union }
    ConstType<'a> { Integer FloatingPoint Boolean Byte Octet Identifier }
    ReturnType<'a> { Undefined Type }
    Definition<'a> { Callback CallbackInterface Interface InterfaceMixin Namespace Dictionary PartialInterface
        PartialInterfaceMixin PartialDictionary PartialNamespace Enum Typedef IncludesStatement Implements }
}
