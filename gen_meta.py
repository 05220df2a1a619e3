#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
SRC=["src/lib.rs","src/whitespace.rs","src/term.rs","src/common.rs","src/literal.rs","src/types.rs","src/argument.rs","src/attribute.rs","src/interface.rs","src/mixin.rs","src/dictionary.rs","src/namespace.rs","src/macros.rs"]
def p(id,title,statement,text,why,files,mech,observe,over=("inputs",),level_note=""):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)), level_note
P=[
p("C01","Parsing any text returns a value or an ordinary error",
 "For every input text, the parse entry point and the parsing trait of every public type return either a value or a recoverable parse error: they never panic, never abort, never loop forever, never report incomplete input, and never overflow an arithmetic operation or index outside the text. This holds for texts cut anywhere, texts with arbitrary ASCII or multi-byte characters anywhere, and long lists and lexemes.",
 "every str, including empty, truncated, malformed and non-ASCII ones, and every public type of the parsing trait",
 "The tests parse a few dozen well-formed fragments and a handful of malformed ones; a panic hides at one character at one place.",
 SRC,[("parse(), Parse trait","src/lib.rs"),("whitespace and comment skipper","src/whitespace.rs"),("literal and identifier recognisers","src/literal.rs, src/common.rs")],["weedle::parse","weedle::Parse::parse"],
 level_note="Every path within the bounds of the jobs; recursion deeper than 80 levels and texts outside the generators are not claimed."),
p("C02","A document parses completely and losslessly, or not at all",
 "Parsing a document succeeds exactly if the whole text is a sequence of definitions separated by whitespace and comments, and then yields every definition, each once, in source order, with the contents it has in the text. Text that is not part of a definition or of whitespace and comments always makes the whole parse fail; nothing is skipped, dropped, merged or invented.",
 "all sequences of definitions and all texts before, between and after them",
 "The tests compare definition counts of three example files; they never place foreign text between or after definitions.",
 ["src/lib.rs","src/whitespace.rs"],[("parse(): complete!/all-consuming check","src/lib.rs"),("Parse for Vec<T>","src/common.rs")],["weedle::parse"],
 level_note="Documents of up to two structured definitions (or up to 300 uniform ones) with foreign text of up to 3 (4) characters or words."),
p("C03","Each definition form yields its own kind with all its parts",
 "A callback, callback interface, interface, interface mixin, namespace, dictionary, enumeration, typedef, implements statement, includes statement and each partial form is recognised as exactly that kind. The resulting node holds the attributes, name, inheritance, members, types and values that the text has, each in its own field, and a form that lacks a required part or has a part that the form does not allow is not recognised as that form.",
 "every definition form, with every combination of optional parts, names and bodies",
 "The tests have one or two samples per form and check few fields.",
 ["src/lib.rs","src/interface.rs","src/mixin.rs","src/dictionary.rs","src/namespace.rs"],[("Definition enum and definition structs","src/lib.rs")],["weedle::Definition","weedle::parse"],
 level_note="All definition forms with up to two (three) deviations from the minimal form, one damaged token, one unusual lexeme or separation, and all texts of up to four words of the definition vocabulary."),
p("C04","Interface members are classified and captured exactly",
 "Every interface member form (constant, attribute with its stringifier, inherit or static and readonly modifiers, constructor, operation with its stringifier or static modifier and its getter, setter, deleter or legacycaller special, iterable and async iterable of one or two types, maplike, setlike, stringifier) is recognised as exactly that kind. All its parts (attributes, modifiers, type, name, arguments, value) are captured in their fields, and modifiers that are not documented for a form make it fail.",
 "every member form with every combination of modifiers and optional parts, in every kind of interface",
 "The tests sample single members; combinations of modifiers, and members following one another, are not covered.",
 ["src/interface.rs"],[("InterfaceMember enum and member structs","src/interface.rs")],["weedle::interface::InterfaceMember","weedle::parse"],
 level_note="All member forms with up to two deviations, one damaged token, lexeme or separation; bodies of up to three (four) words."),
p("C05","Mixin, namespace and dictionary members are captured exactly",
 "Members of mixins (constants, attributes, operations, stringifiers), namespaces (constants, operations, readonly attributes) and dictionaries (required or not, with attributes, type, name and default value) are recognised as exactly their kind with every part in its field. Forms that only other containers allow are not accepted there.",
 "every member form of mixins, namespaces and dictionaries with every combination of optional parts",
 "The tests sample each form once.",
 ["src/mixin.rs","src/namespace.rs","src/dictionary.rs"],[("MixinMember, NamespaceMember, DictionaryMember","src/mixin.rs, src/namespace.rs, src/dictionary.rs")],["weedle::mixin::MixinMember","weedle::namespace::NamespaceMember","weedle::dictionary::DictionaryMember"],
 level_note="All member forms with up to two (dictionary: three or four) deviations, one damaged token, lexeme or separation; bodies of up to three (five) words."),
p("C06","Every type expression yields the type it denotes",
 "Every type expression (boolean, byte, octet, string types, integers with unsigned and one or two longs, floats with unrestricted, buffers, object, symbol, Error, any, promise, sequence, frozen array, record, union, named types) is parsed as the type it denotes, at any nesting depth, in any position a type may occur. The nullable mark is attached to exactly the type it follows, and generic arguments, union members and their attributes stay in source order.",
 "all type expressions, nested to any depth, at every place of the grammar",
 "The tests check each type name alone; nesting, nullability at each level and type names as prefixes of identifiers are not covered.",
 ["src/types.rs"],[("Type, SingleType, NonAnyType, UnionMemberType, MayBeNull, ReturnType, ConstType, RecordKeyType, AttributedType","src/types.rs")],["weedle::types::*"],
 level_note="All types with up to four (five) deviations from a named type, plus depth 80 chains and unions of up to 300 members."),
p("C07","Argument lists and default values are captured exactly",
 "An argument list yields every argument in order, each as a single or a variadic argument, with its attributes, optional mark, type, name and default value. A default value is captured as the literal kind and text it has, belongs to the argument it follows, and is only accepted on an optional argument.",
 "all argument lists with every combination of optional parts, at every place that has arguments",
 "The tests have a handful of argument samples.",
 ["src/argument.rs","src/literal.rs"],[("Argument, SingleArgument, VariadicArgument","src/argument.rs"),("Default, DefaultValue","src/literal.rs")],["weedle::argument::Argument","weedle::argument::ArgumentList"],
 level_note="Arguments with up to three (four) deviations, lists of up to five words, or up to 300 arguments."),
p("C08","Extended attributes are classified and captured exactly",
 "Each extended attribute is recognised as exactly one of its forms (bare name, name with argument list, name = identifier or string, name = wildcard, name = identifier list, name = name with argument list), with names, right-hand sides and arguments in their fields and in source order. Attribute lists are found before every construct that allows them and are attached to that construct.",
 "all attribute lists, at every place of the grammar that allows attributes",
 "The tests sample each form once, at one place.",
 ["src/attribute.rs"],[("ExtendedAttribute enum (ordered choice)","src/attribute.rs")],["weedle::attribute::ExtendedAttribute","weedle::attribute::ExtendedAttributeList"],
 level_note="Attribute lists with up to three (four) deviations, up to six words, at 40 places, or up to 300 items."),
p("C09","Literals are recognised and captured exactly",
 "Decimal, hexadecimal and octal integers, floats with fraction and/or exponent, infinities and NaN, strings, booleans, null, the empty array and the empty dictionary are each recognised as exactly their kind, and the captured text is exactly the characters of the literal: sign, prefix, digits, exponent, and for strings everything between the quotes. Malformed numbers and unterminated strings are not accepted as literals.",
 "all texts at a place where a literal is expected",
 "The tests check a few numbers; the boundaries between the number forms depend on every combination of digits, sign, dot, exponent and what follows.",
 ["src/literal.rs"],[("IntegerLit, FloatLit, StringLit, ConstValue, DefaultValue","src/literal.rs")],["weedle::literal::*"],
 level_note="All values of up to six (eight) characters of the alphabet of numbers, all texts of up to four (five) ASCII characters, strings of up to three (five) arbitrary characters, and lexemes of up to 1025 characters."),
p("C10","Identifiers are captured exactly, everywhere",
 "Wherever an identifier is expected, an optional underscore, which is not part of the name, then a letter and the longest run of letters, digits, underscores and hyphens is taken, and the captured name is exactly these characters from the letter on. A name that starts with or contains a keyword is one identifier, and a character that cannot belong to an identifier never becomes part of one.",
 "all texts at every place where an identifier is expected",
 "The tests check a few names at one place.",
 ["src/common.rs"],[("Identifier recogniser","src/common.rs")],["weedle::common::Identifier"],
 level_note="All texts of up to five (six) ASCII characters by themselves, up to three (four) printable characters at 21 places, keyword-like names, and names of up to 1025 characters."),
p("C11","Keywords and punctuation match exactly and end at word boundaries",
 "Each keyword is matched case-sensitively, completely, and only if no letter, digit, underscore or hyphen follows, so that a longer or misspelt word is never read as the keyword. Each punctuation terminal matches exactly its characters.",
 "every terminal with every text before and after it, and every near miss of a keyword at every place of the grammar",
 "The tests check each terminal once with one following character.",
 ["src/term.rs","src/macros.rs"],[("generate_terms!, generate_terms_for_names!, ident_tag!","src/term.rs, src/macros.rs")],["weedle::term::*"],
 level_note="Every terminal on every text of its length plus two ASCII characters; near misses at the places of the grammar."),
p("C12","Whitespace and comments never change the result",
 "Between any two tokens, before the first and after the last, any amount of whitespace, line comments and block comments may stand, and the resulting tree is the same as without them. Text inside a comment is never read as tokens, a comment ends exactly at the end of its line or at its first closing mark, and unterminated or malformed comments make the parse fail; inside tokens, whitespace and comments are never ignored.",
 "all whitespace and comment texts at every gap between tokens",
 "The tests have a few samples of comments between some tokens.",
 ["src/whitespace.rs","src/macros.rs"],[("sp recogniser","src/whitespace.rs"),("ws! macro","src/macros.rs")],["weedle::parse","weedle::Parse::parse"],
 level_note="One (two) unusual separations at every gap of every form, all whitespace and comment texts of up to six (nine) characters between two tokens, comments of up to three (five) arbitrary or 1025 fixed characters."),
p("C13","Lists and brackets keep every item, in order, with the right separators",
 "Comma lists, repeated items, bracketed bodies and optional parts keep every item exactly once and in source order, and in their brackets. Doubled or leading separators, missing separators and missing or wrong brackets make the enclosing construct fail, a trailing separator is accepted only by the non-empty list (enumeration values), and only once; optional parts are captured whenever they are there.",
 "all lists of any length, with any separators and brackets",
 "The tests check lists of two or three items.",
 ["src/common.rs"],[("Parenthesized, Bracketed, Braced, Generics, Punctuated, PunctuatedNonEmpty, Option, Box, Vec, tuples","src/common.rs")],["weedle::common::*","weedle::parse"],
 level_note="Containers with up to two (three) deviations, one damaged token, lexeme or separation, and lists of up to 300 items."),
p("C14","Exactly the documented language is accepted",
 "A text is accepted if and only if it is a text of the documented grammar: each text that lacks a required token, has an additional, repeated, exchanged or misspelt one, or ends too early is rejected, and each text of the grammar is accepted.",
 "all texts at a distance of one (two) damaged tokens or characters from the texts of the grammar, and all short sequences of words",
 "The tests check a handful of malformed inputs.",
 SRC,[("ordered choices and required terminals of all parsers",", ".join(SRC))],["weedle::parse","weedle::Parse::parse"],
 level_note="All constructs with one damaged token, all word sequences of up to 3-5 words per vocabulary, all documents cut anywhere or with a foreign character anywhere."),
p("C15","Equality, order, hash, clone and conversions agree with the contents",
 "Two parsed values are equal exactly if they have the same kind and contents, wherever and with whatever whitespace they were parsed; the order is total, consistent with equality and lexicographic in the declared fields and variants; equal values hash equally and a clone equals its original. Converting a member into the enum that contains it yields the variant of that member with unchanged contents.",
 "all pairs of parsed values of each public type",
 "The tests compare values with literals for a few fields and never hash, order or clone.",
 ["src/macros.rs","src/common.rs","src/types.rs","src/lib.rs","src/attribute.rs","src/interface.rs"],[("ast_types! derives and From impls","src/macros.rs")],["PartialEq, Ord, Hash, Clone, From of all public types"],
 level_note="Pairs of independent values with up to one deviation each, pairs with the same derivation and arbitrary other lexemes, lexemes of up to three (four) characters."),
p("C16","A partial parse consumes exactly its construct and returns the rest",
 "When a public type is parsed from a text that continues after the construct, the returned remainder is exactly the rest of that same text after the construct and, where documented, the whitespace around its tokens; the value does not depend on what follows, beyond the first character that ends the construct. All text in the value refers to the input itself.",
 "all public types, all constructs, all following texts",
 "The tests check a remainder only on a few terminals, mostly empty.",
 SRC,[("Parse::parse contract","src/lib.rs, src/macros.rs"),("ws! macro","src/macros.rs")],["weedle::Parse::parse"],
 level_note="All public types on constructs with up to one deviation followed by 0-2 arbitrary characters or a word, all terminals, all types on all texts of up to two (three) characters."),
p("C17","The result depends on the text alone",
 "Parsing the same text gives the same result every time, whatever was parsed before in the process, whether that succeeded or failed, where the text is stored and what is stored around it.",
 "all histories of earlier calls, and all placements of the text",
 "The tests parse each text once, in a process of their own choosing.",
 SRC,[("absence of state: pure parser functions",", ".join(SRC))],["weedle::parse"],over=("inputs","histories"),
 level_note="Histories of up to two structured earlier calls or 300 uniform ones; embedded texts and two addresses."),
]
with open("properties.jsonl","w") as f:
    for x,_ in P: f.write(json.dumps(x)+"\n")
M=dict(version=1,setup_cmd="python3 check.py --setup",
 checks=[dict(property=x["id"],quick_cmd="python3 check.py %s quick"%x["id"],thorough_cmd="python3 check.py %s thorough"%x["id"],
   evidence_file="evidence/%s.json"%x["id"],
   technique="symbolic execution of the LLVM IR of the real code, decided by Z3, against a reference grammar" if x["id"] not in("C01","C15") else "symbolic execution of the LLVM IR of the real code, decided by Z3",
   level="model_checking",level_note="Bounded. "+n+" Numbers in brackets are those of the thorough tier.") for x,n in P],
 not_applicable=[])
json.dump(M,open("MANIFEST.json","w"),indent=1); open("MANIFEST.json","a").write("\n")
