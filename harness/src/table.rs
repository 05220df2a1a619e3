macro_rules! jobs { ($($n:literal $tier:literal x $sh:literal reach $r:literal [$p:literal] $what:literal => $run:expr;)*) => {
    pub static JOBS: &[Job] = &[$(Job { name: $n, tier: $tier, shards: $sh, reach: $r, props: $p, what: $what, run: || $run }),*];
} }
jobs! {
// ---- totality ----
"t-free5" 0 x 2 reach 3 ["C01"] "parse() on every text of at most 5 ASCII characters" => free(5, total_whole);
"t-stray2" 0 x 2 reach 3 ["C01"] "0-2 ASCII characters at 94 places of documents" => stray(0, 2, total_whole);
"t-uni" 0 x 1 reach 3 ["C01"] "characters of 2-4 bytes at 94 places of documents" => stray_uni(total_whole);
"t-cut" 0 x 2 reach 3 ["C01"] "5 documents cut after every character, then nothing, an ASCII character or one of 2 bytes" => truncated(total_whole);
"t-def-m1" 0 x 2 reach 3 ["C01"] "every definition kind, one token damaged" => kinds(&DEF, fuel(0,0,0,1), DEF.total);
"t-imem-m1" 0 x 2 reach 3 ["C01"] "every interface member kind, one token damaged" => kinds(&IMEM, fuel(0,0,0,1), IMEM.total);
"t-omem-m1" 0 x 1 reach 3 ["C01"] "mixin and namespace members, one token damaged" => { if vp::pick(2) == 0 { kinds(&MMEM, fuel(0,0,0,1), MMEM.total) } else { kinds(&NMEM, fuel(0,0,0,1), NMEM.total) } };
"t-typ-m1" 0 x 1 reach 3 ["C01"] "types, one grammar deviation and one damaged token" => each_total(T_TYPES, fuel(0,0,0,1));
"t-attr-m1" 0 x 2 reach 3 ["C01"] "attributes and arguments, one grammar deviation and one damaged token" => { if vp::pick(2) == 0 { each_total(T_ATTRS, fuel(1,0,0,1)) } else { each_total(T_ARGS, fuel(0,0,0,1)) } };
"t-def-t1" 0 x 1 reach 3 ["C01"] "every definition kind, one unusual separation" => kinds(&DEF, fuel(0,1,0,0), DEF.total);
"t-imem-t1" 0 x 1 reach 3 ["C01"] "every interface member kind, one unusual separation" => kinds(&IMEM, fuel(0,1,0,0), IMEM.total);
"t-def-l1" 0 x 1 reach 3 ["C01"] "every definition kind, one unusual lexeme" => kinds(&DEF, fuel(0,0,1,0), DEF.total);
"t-imem-l1" 0 x 1 reach 3 ["C01"] "every interface member kind, one unusual lexeme" => kinds(&IMEM, fuel(0,0,1,0), IMEM.total);
"t-lit" 0 x 1 reach 3 ["C01"] "literals, unusual lexemes and separations" => each_total(T_LITS, fuel(1,1,1,0));
"t-each-free" 0 x 2 reach 3 ["C01"] "every type of the parsing trait on every text of at most 2 ASCII characters" => { match vp::pick(7) { 0 => each_free(T_DEFS,2,true), 1 => each_free(T_MEMBERS,2,true), 2 => each_free(T_TYPES,2,true), 3 => each_free(T_ATTRS,2,true), 4 => each_free(T_ARGS,2,true), 5 => each_free(T_LITS,4,true), _ => each_free(T_IDENT,4,true) } };
"t-long" 0 x 1 reach 3 ["C01"] "lexemes and separations of up to 1025 characters" => stretched(S_ALL, total_whole);
"t-many" 0 x 4 reach 3 ["C01"] "lists of up to 300 items" => repeated(R_ALL, total_whole);
"t-deep" 0 x 2 reach 3 ["C01"] "types nested to depth 80" => nested(total_whole);
"t-words" 0 x 2 reach 3 ["C01"] "up to 3 words of the definition vocabulary, up to 5 of the comment vocabulary" => { if vp::pick(2) == 0 { words("",V_DEF,0,3,"",total_whole) } else { words("",V_TRIVIA,0,5,"enum E{\"\"};",total_whole) } };
"t-words4" 1 x 8 reach 3 ["C01"] "up to 4 words of the definition and member vocabularies" => { if vp::pick(2) == 0 { words("",V_DEF,0,4,"",total_whole) } else { words("interface A{",V_MEMBER,0,4,"};",total_whole) } };
"t-stray3" 1 x 8 reach 3 ["C01"] "3 ASCII characters at 94 places of documents" => stray(3, 3, total_whole);
"t-free6" 1 x 8 reach 3 ["C01"] "parse() on every text of 6 ASCII characters" => { let mut g = Gen::new(NO); for _ in 0..6 { g.sym(0, 0x7f); } total_whole(text_of(g.b)) };
"t-def-g1m1" 1 x 12 reach 3 ["C01"] "every definition kind, one grammar deviation and one damaged token" => kinds(&DEF, fuel(1,0,0,1), DEF.total);
"t-imem-g1m1" 1 x 16 reach 3 ["C01"] "every interface member kind, one grammar deviation and one damaged token" => kinds(&IMEM, fuel(1,0,0,1), IMEM.total);
"t-def-m2" 1 x 16 reach 3 ["C01"] "enumerations, typedefs and statements, two damaged tokens" => { let g0 = [&peg::ENUM, &peg::TYPEDEF, &peg::INCLUDES, &peg::INHERITANCE][vp::pick(4)]; inside("", g0, "", fuel(0,0,0,2), total_whole) };

// ---- whole documents ----
"w-docs" 0 x 2 reach 1 ["C02"] "documents of two definitions of every kind, one grammar deviation" => documents(fuel(1,0,0,0), whole);
"w-docs0" 1 x 16 reach 3 ["C02"] "documents of two definitions of every kind, one unusual separation" => documents(fuel(0,1,0,0), whole);
"w-gap" 0 x 1 reach 3 ["C02 C12"] "two definitions of 4 kinds, one unusual separation before, between or after them" => { let k = vp::pick(3); let d = ["enum E{\"a\"};", "A includes B;", "[A]interface A{};", "callback c=A();"]; let mut g = Gen::new(NO); for i in 0..3 { if i == k { g.f.t = 1; g.gap(true); g.f.t = 0; } if i < 2 { g.lit(d[vp::pick(4)]); } } whole(text_of(g.b)) };
"w-after3" 0 x 2 reach 3 ["C02 C14"] "0-3 ASCII characters after a document, before the end or another definition" => after(3, whole);
"w-uni" 0 x 1 reach 3 ["C02"] "characters of 2-4 bytes at 94 places of documents" => stray_uni(whole);
"w-cut" 0 x 3 reach 3 ["C02"] "5 documents cut after every character, then nothing, an ASCII character or one of 2 bytes" => truncated(whole);
"w-stray1" 0 x 1 reach 3 ["C02"] "0-1 ASCII characters at 94 places of documents" => stray(0, 1, whole);
"w-many" 0 x 2 reach 1 ["C02 C03"] "documents of up to 300 definitions" => repeated(R_DEFS, whole);
"w-many-all" 0 x 4 reach 3 ["C02 C13"] "lists of every kind of up to 300 items" => repeated(R_ALL, whole);
"w-words" 0 x 2 reach 3 ["C02"] "a definition, then up to 3 words of the definition vocabulary" => words("enum E{\"a\"};",V_DEF,0,3,"",whole);
"w-damage" 0 x 1 reach 3 ["C02"] "a definition, up to 2 damaging words, a definition" => words("A includes B;",DAMAGE,0,2," A includes B;",whole);
"w-free4" 0 x 1 reach 3 ["C02"] "parse() on every text of at most 4 ASCII characters" => free(4, whole);
"w-docs-l1" 1 x 8 reach 1 ["C02"] "documents of two definitions, one unusual lexeme" => documents(fuel(0,0,1,0), whole);
"w-docs-m1" 1 x 16 reach 3 ["C02"] "documents of two definitions, one damaged token" => documents(fuel(0,0,0,1), whole);
"w-free6" 1 x 8 reach 3 ["C02 C14"] "parse() on every text of at most 6 ASCII characters" => free(6, whole);
"w-after4" 1 x 8 reach 3 ["C02 C14"] "4 ASCII characters after a document" => after(4, whole);
"w-stray3" 1 x 16 reach 3 ["C02 C14 C12"] "2-3 ASCII characters at 94 places of documents" => stray(2, 3, whole);

// ---- definitions ----
"d-g2" 0 x 2 reach 3 ["C03"] "every definition kind, two grammar deviations" => kinds(&DEF, fuel(2,0,0,0), DEF.full);
"d-m1" 0 x 2 reach 3 ["C03 C11"] "every definition kind, one damaged token" => kinds(&DEF, fuel(0,0,0,1), DEF.full);
"d-l1" 0 x 1 reach 3 ["C03 C10"] "every definition kind, one unusual lexeme" => kinds(&DEF, fuel(0,0,1,0), DEF.full);
"d-t1" 0 x 1 reach 3 ["C03 C12 C11"] "every definition kind, one unusual separation" => kinds(&DEF, fuel(0,1,0,0), DEF.full);
"d-words" 0 x 3 reach 3 ["C03"] "up to 4 words of the definition vocabulary" => words("",V_DEF,0,4,"",whole);
"d-ids" 0 x 1 reach 1 ["C03 C10"] "identifiers of up to 1025 characters" => stretched(S_IDENT, whole);
"d-kw" 0 x 3 reach 3 ["C03 C10 C11"] "keywords, words made from keywords and near misses as identifiers at 21 places" => keyword_ident(whole);
"d-bodies" 0 x 2 reach 3 ["C03"] "bodies of up to 300 members" => { repeated(if vp::pick(2) == 0 { R_IMEM } else { R_OMEM }, whole) };
"d-each-g2" 0 x 2 reach 3 ["C03"] "every definition struct by itself, two grammar deviations" => each(T_DEFS, fuel(2,0,0,0));
"d-g1l1" 1 x 12 reach 3 ["C03 C10"] "every definition kind, one grammar deviation and one unusual lexeme" => kinds(&DEF, fuel(1,0,1,0), DEF.full);
"d-g1m1" 1 x 16 reach 3 ["C03"] "every definition kind, one grammar deviation and one damaged token" => kinds(&DEF, fuel(1,0,0,1), DEF.full);
"d-g1t1" 1 x 16 reach 3 ["C03 C12"] "every definition kind, one grammar deviation and one unusual separation" => kinds(&DEF, fuel(1,1,0,0), DEF.full);
"d-g3" 1 x 16 reach 3 ["C03"] "every definition kind, three grammar deviations" => kinds(&DEF, fuel(3,0,0,0), DEF.full);

// ---- interface members ----
"i-g2" 0 x 3 reach 3 ["C04"] "every interface member kind, two grammar deviations" => kinds(&IMEM, fuel(2,0,0,0), IMEM.full);
"i-m1" 0 x 2 reach 3 ["C04 C11"] "every interface member kind, one damaged token" => kinds(&IMEM, fuel(0,0,0,1), IMEM.full);
"i-l1" 0 x 1 reach 3 ["C04 C10 C09"] "every interface member kind, one unusual lexeme" => kinds(&IMEM, fuel(0,0,1,0), IMEM.full);
"i-t1" 0 x 1 reach 3 ["C04 C12 C11"] "every interface member kind, one unusual separation" => kinds(&IMEM, fuel(0,1,0,0), IMEM.full);
"i-words" 0 x 2 reach 3 ["C04"] "an interface body of up to 3 words of the member vocabulary" => words("interface A{",V_MEMBER,0,3,"};",whole);
"i-mods-op" 0 x 1 reach 3 ["C04"] "up to 3 words before an operation" => words_as(&IMEM,"",V_MEMBER,0,3," A f(any a);");
"i-mods-attr" 0 x 1 reach 3 ["C04"] "up to 3 words before an attribute" => words_as(&IMEM,"",V_MEMBER,0,3," attribute A b;");
"i-many" 0 x 1 reach 1 ["C04"] "interfaces of up to 300 members" => repeated(R_IMEM, whole);
"i-body" 0 x 2 reach 1 ["C04"] "an interface of two members of every kind" => { let mut g = Gen::new(NO); g.lit("interface A{"); if let G::Alt(_, gs) = &peg::I_MEMBER { for _ in 0..2 { g.rule(&gs[vp::pick(gs.len())]); } } g.lit("};"); whole(g.end()) };
"i-inside" 0 x 1 reach 1 ["C04"] "a member of every kind inside (callback, partial) interfaces, one grammar deviation" => { let p = ["interface A{", "partial interface A{", "callback interface A{"][vp::pick(3)]; let mut g = Gen::new(fuel(1,0,0,0)); g.lit(p); if let G::Alt(_, gs) = &peg::I_MEMBER { g.rule(&gs[vp::pick(gs.len())]); } g.lit("};"); whole(g.end()) };
"i-each" 0 x 2 reach 3 ["C04"] "every member struct by itself, one grammar deviation and trailing text" => tailed(T_MEMBERS, NO);
"i-g1l1" 1 x 16 reach 3 ["C04"] "every interface member kind, one grammar deviation and one unusual lexeme" => kinds(&IMEM, fuel(1,0,1,0), IMEM.full);
"i-g1m1" 1 x 16 reach 3 ["C04"] "every interface member kind, one grammar deviation and one damaged token" => kinds(&IMEM, fuel(1,0,0,1), IMEM.full);
"i-g1t1" 1 x 16 reach 3 ["C04 C12"] "every interface member kind, one grammar deviation and one unusual separation" => kinds(&IMEM, fuel(1,1,0,0), IMEM.full);
"i-words4" 1 x 8 reach 3 ["C04"] "an interface body of 4 words of the member vocabulary" => words("interface A{",V_MEMBER,4,4,"};",whole);

// ---- mixin, namespace and dictionary members ----
"m-g2" 0 x 1 reach 3 ["C05"] "every mixin member kind, two grammar deviations" => kinds(&MMEM, fuel(2,0,0,0), MMEM.full);
"m-m1" 0 x 1 reach 3 ["C05"] "every mixin member kind, one damaged token" => kinds(&MMEM, fuel(0,0,0,1), MMEM.full);
"m-lt" 0 x 1 reach 3 ["C05"] "every mixin member kind, one unusual lexeme or separation" => { let f = if vp::pick(2) == 0 { fuel(0,0,1,0) } else { fuel(0,1,0,0) }; kinds(&MMEM, f, MMEM.full) };
"m-words" 0 x 2 reach 3 ["C05"] "a mixin body of up to 3 words of the member vocabulary" => words("interface mixin A{",V_MEMBER,0,3,"};",whole);
"n-g2" 0 x 1 reach 3 ["C05"] "every namespace member kind, two grammar deviations" => kinds(&NMEM, fuel(2,0,0,0), NMEM.full);
"n-m1" 0 x 1 reach 3 ["C05"] "every namespace member kind, one damaged token" => kinds(&NMEM, fuel(0,0,0,1), NMEM.full);
"n-lt" 0 x 1 reach 3 ["C05"] "every namespace member kind, one unusual lexeme or separation" => { let f = if vp::pick(2) == 0 { fuel(0,0,1,0) } else { fuel(0,1,0,0) }; kinds(&NMEM, f, NMEM.full) };
"n-words" 0 x 2 reach 3 ["C05"] "a namespace body of up to 3 words of the member vocabulary" => words("namespace A{",V_MEMBER,0,3,"};",whole);
"x-g3" 0 x 1 reach 3 ["C05"] "dictionary members, three grammar deviations" => derive(&DMEM, fuel(3,0,0,0));
"x-g1l1" 0 x 1 reach 3 ["C05"] "dictionary members, one grammar deviation and one unusual lexeme" => derive(&DMEM, fuel(1,0,1,0));
"x-g1m1" 0 x 2 reach 3 ["C05"] "dictionary members, one grammar deviation and one damaged token" => derive(&DMEM, fuel(1,0,0,1));
"x-g1t1" 0 x 2 reach 3 ["C05 C12"] "dictionary members, one grammar deviation and one unusual separation" => derive(&DMEM, fuel(1,1,0,0));
"x-words" 0 x 1 reach 3 ["C05"] "a dictionary body of up to 5 words of the dictionary vocabulary" => words("dictionary A{",V_DICT,0,5,"};",whole);
"o-many" 0 x 1 reach 3 ["C05"] "mixins, namespaces and dictionaries of up to 300 members" => repeated(R_OMEM, whole);
"o-body" 0 x 1 reach 1 ["C05"] "a (partial) mixin, namespace or dictionary of two members of every kind" => { let k = vp::pick(6); let mut g = Gen::new(NO); g.lit(["interface mixin A{","partial interface mixin A{","namespace A{","partial namespace A{","dictionary A:B{","partial dictionary A{"][k]); let m: &'static G = [&peg::M_MEMBER,&peg::N_MEMBER,&peg::D_MEMBER][k/2]; for _ in 0..2 { match m { G::Alt(_, gs) => g.rule(&gs[vp::pick(gs.len())]), _ => { g.f.g = 1; g.rule(m) } } } g.lit("};"); whole(g.end()) };
"m-g1x" 1 x 12 reach 3 ["C05"] "every mixin member kind, one grammar deviation and one unusual lexeme or damaged token" => { let f = if vp::pick(2) == 0 { fuel(1,0,1,0) } else { fuel(1,0,0,1) }; kinds(&MMEM, f, MMEM.full) };
"n-g1x" 1 x 12 reach 3 ["C05"] "every namespace member kind, one grammar deviation and one unusual lexeme or damaged token" => { let f = if vp::pick(2) == 0 { fuel(1,0,1,0) } else { fuel(1,0,0,1) }; kinds(&NMEM, f, NMEM.full) };
"x-g4" 1 x 8 reach 3 ["C05"] "dictionary members, four grammar deviations" => derive(&DMEM, fuel(4,0,0,0));
"mnx-t" 1 x 8 reach 3 ["C05"] "mixin and namespace members, one grammar deviation and one unusual separation" => { if vp::pick(2) == 0 { kinds(&MMEM, fuel(1,1,0,0), MMEM.full) } else { kinds(&NMEM, fuel(1,1,0,0), NMEM.full) } };

// ---- types ----
"y-g4" 0 x 6 reach 3 ["C06"] "types, four grammar deviations" => derive(&TYP, fuel(4,0,0,0));
"y-each-g2" 0 x 2 reach 3 ["C06"] "every type struct by itself, two grammar deviations" => each(T_TYPES, fuel(2,0,0,0));
"y-g1l1" 0 x 1 reach 3 ["C06 C10"] "types, one grammar deviation and one unusual lexeme" => derive(&TYP, fuel(1,0,1,0));
"y-g1t1" 0 x 1 reach 3 ["C06 C12 C11"] "types, one grammar deviation and one unusual separation" => derive(&TYP, fuel(1,1,0,0));
"y-g1m1" 0 x 2 reach 3 ["C06 C11"] "types, one grammar deviation and one damaged token" => derive(&TYP, fuel(1,0,0,1));
"y-words" 0 x 2 reach 3 ["C06"] "a typedef of up to 4 words of the type vocabulary" => words("typedef ",V_TYPE,0,4," T;",whole);
"y-places" 0 x 2 reach 3 ["C06"] "types at 25 places, two grammar deviations" => types_everywhere(fuel(1,0,0,0));
"y-deep" 0 x 4 reach 3 ["C06"] "types nested to depth 80" => nested(whole);
"y-many" 0 x 1 reach 3 ["C06"] "unions of up to 300 members" => repeated(R_TYPES, whole);
"y-union" 0 x 1 reach 3 ["C06"] "a union of up to 5 words" => words("typedef (",V_TYPE,0,3,")T;",whole);
"y-places2" 1 x 12 reach 3 ["C06"] "types at 25 places, three grammar deviations" => types_everywhere(fuel(2,0,0,0));
"y-words5" 1 x 8 reach 3 ["C06"] "a typedef of 5 words of the type vocabulary" => words("typedef ",V_TYPE,5,5," T;",whole);
"y-g2l1" 1 x 4 reach 3 ["C06"] "types, two grammar deviations and one unusual lexeme" => derive(&TYP, fuel(2,0,1,0));
"y-g2t1" 0 x 6 reach 3 ["C12"] "types, two grammar deviations and one unusual separation" => derive(&TYP, fuel(2,1,0,0));
"y-g2m1" 1 x 12 reach 3 ["C06"] "types, two grammar deviations and one damaged token" => derive(&TYP, fuel(2,0,0,1));
"y-g5" 1 x 32 reach 3 ["C06"] "types, five grammar deviations" => derive(&TYP, fuel(5,0,0,0));

// ---- arguments ----
"a-g3" 0 x 2 reach 3 ["C07"] "arguments, three grammar deviations" => derive(&ARG, fuel(3,0,0,0));
"a-g1l1" 0 x 1 reach 3 ["C07 C10"] "arguments, one grammar deviation and one unusual lexeme" => derive(&ARG, fuel(1,0,1,0));
"a-g1m1" 0 x 3 reach 3 ["C07"] "arguments, one grammar deviation and one damaged token" => derive(&ARG, fuel(1,0,0,1));
"a-g1t1" 0 x 1 reach 3 ["C07 C12"] "arguments, one grammar deviation and one unusual separation" => derive(&ARG, fuel(1,1,0,0));
"a-each-g2" 0 x 2 reach 3 ["C07"] "every argument struct by itself, two grammar deviations" => each(T_ARGS, fuel(2,0,0,0));
"a-places" 0 x 1 reach 3 ["C07"] "argument lists at 11 places, one grammar deviation" => args_everywhere(fuel(1,0,0,0));
"a-places2" 1 x 12 reach 3 ["C07"] "argument lists at 11 places, two grammar deviations" => args_everywhere(fuel(2,0,0,0));
"a-words" 0 x 2 reach 3 ["C07"] "an argument list of up to 5 words of the argument vocabulary" => words("callback c=A(",V_ARG,0,5,");",whole);
"a-optional" 0 x 1 reach 3 ["C07"] "up to 3 words after an optional argument" => words("callback c=A(optional long x",V_ARG,0,3,");",whole);
"a-values" 0 x 1 reach 3 ["C07 C09"] "default values of up to 3 words of the value vocabulary" => words("callback c=A(optional long x=",V_VALUE,0,3,");",whole);
"a-many" 0 x 1 reach 3 ["C07"] "argument lists of up to 300 arguments" => repeated(R_ARGS, whole);
"a-g2l1" 1 x 12 reach 3 ["C07"] "arguments, two grammar deviations and one unusual lexeme" => derive(&ARG, fuel(2,0,1,0));
"a-g4" 1 x 16 reach 3 ["C07"] "arguments, four grammar deviations" => derive(&ARG, fuel(4,0,0,0));
"a-g2t1" 1 x 16 reach 3 ["C07"] "arguments, two grammar deviations and one unusual separation" => derive(&ARG, fuel(2,1,0,0));

// ---- extended attributes ----
"e-g3" 0 x 2 reach 3 ["C08"] "attribute lists, three grammar deviations" => derive(&ATTRS, fuel(3,0,0,0));
"e-g1l1" 0 x 1 reach 3 ["C08 C10"] "attribute lists, one grammar deviation and one unusual lexeme" => derive(&ATTRS, fuel(1,0,1,0));
"e-g1m1" 0 x 2 reach 3 ["C08"] "attribute lists, one grammar deviation and one damaged token" => derive(&ATTRS, fuel(1,0,0,1));
"e-g1t1" 0 x 1 reach 3 ["C08 C12"] "attribute lists, one grammar deviation and one unusual separation" => derive(&ATTRS, fuel(1,1,0,0));
"e-each-g2" 0 x 2 reach 3 ["C08"] "every attribute struct by itself, two grammar deviations" => each(T_ATTRS, fuel(2,0,0,0));
"e-places" 0 x 2 reach 3 ["C08"] "attribute lists at 40 places, one grammar deviation" => attrs_everywhere(fuel(1,0,0,0));
"e-words" 0 x 2 reach 3 ["C08"] "an attribute list of up to 6 words of the attribute vocabulary" => words_as(&ATTRS,"[",V_ATTR,0,6,"]");
"e-words-doc" 0 x 2 reach 3 ["C08"] "an attribute list of up to 3 words of the attribute vocabulary before a definition" => words("[",V_ATTR,0,3,"]A includes B;",whole);
"e-nested" 0 x 1 reach 1 ["C08"] "attribute lists nested to depth 6" => nested_attrs(whole);
"e-many" 0 x 3 reach 3 ["C08"] "attribute lists of up to 300 items" => repeated(R_ATTRS, whole);
"e-g2l1" 0 x 6 reach 3 ["C08"] "attribute lists, two grammar deviations and one unusual lexeme" => derive(&ATTRS, fuel(2,0,1,0));
"e-g2m1" 1 x 12 reach 3 ["C08"] "attribute lists, two grammar deviations and one damaged token" => derive(&ATTRS, fuel(2,0,0,1));
"e-g4" 1 x 12 reach 3 ["C08"] "attribute lists, four grammar deviations" => derive(&ATTRS, fuel(4,0,0,0));
"e-places2" 1 x 24 reach 3 ["C08"] "attribute lists at 40 places, two grammar deviations" => attrs_everywhere(fuel(2,0,0,0));

// ---- literals ----
"l-number6" 0 x 2 reach 3 ["C09"] "values of up to 6 characters of the alphabet of numbers" => number_text(6);
"l-string" 0 x 1 reach 3 ["C09"] "strings of up to 3 ASCII characters, or characters of 2-4 bytes" => string_text(3);
"l-each" 0 x 2 reach 3 ["C09"] "every literal struct, one grammar deviation, one unusual lexeme, one unusual separation" => each(T_LITS, fuel(1,1,1,0));
"l-each-m1" 0 x 2 reach 3 ["C09"] "every literal struct, one grammar deviation, one unusual lexeme, one damaged token" => each(T_LITS, fuel(1,0,1,1));
"l-free4" 0 x 2 reach 3 ["C09"] "every literal struct on every text of at most 4 ASCII characters" => each_free(T_LITS, 4, false);
"l-long" 0 x 1 reach 1 ["C09"] "numbers and strings of up to 1025 characters" => { stretched(if vp::pick(2) == 0 { S_STR } else { S_NUM }, whole) };
"l-values" 0 x 1 reach 3 ["C09"] "constants of up to 3 words of the value vocabulary" => words("interface A{const long x=",V_VALUE,0,3,";};",whole);
"l-tail" 0 x 1 reach 3 ["C09"] "every literal struct followed by other text" => tailed(T_LITS, fuel(1,0,1,0));
"l-number-each" 0 x 2 reach 3 ["C09"] "every literal struct on up to 5 characters of the alphabet of numbers" => { let nt = &T_LITS[vp::pick(T_LITS.len())]; over(A_NUM, 5, "", "", nt.full) };
"l-enum-str" 0 x 1 reach 3 ["C09 C13"] "an enumeration of up to 5 words" => words("enum A{",V_ENUM,0,5,"};",whole);
"l-number8" 1 x 12 reach 3 ["C09"] "values of up to 8 characters of the alphabet of numbers" => number_text(8);
"l-free5" 1 x 8 reach 3 ["C09"] "every literal struct on every text of at most 5 ASCII characters" => each_free(T_LITS, 5, false);
"l-string5" 1 x 4 reach 3 ["C09"] "strings of up to 5 ASCII characters" => string_text(5);

// ---- identifiers ----
"n-sym3" 0 x 3 reach 3 ["C10"] "up to 3 printable characters as an identifier at 21 places" => symbolic_ident(3, whole);
"n-over" 0 x 1 reach 3 ["C10"] "up to 5 characters around the alphabet of identifiers" => over(A_ID,5,"interface ","{};",whole);
"n-free" 0 x 1 reach 3 ["C10"] "Identifier on every text of at most 5 ASCII characters" => free(5, T_IDENT[0].full);
"n-tail" 0 x 1 reach 3 ["C10"] "Identifier followed by other text, unusual lexemes" => tailed(T_IDENT, fuel(0,1,1,0));
"n-uni" 0 x 1 reach 2 ["C10"] "characters of 2-4 bytes in identifiers" => { let (pre, post) = IDENT_PLACES[vp::pick(IDENT_PLACES.len())]; let mut g = Gen::new(NO); g.lit(pre); if vp::pick(2) == 1 { g.sym(b'a', b'z'); } match vp::pick(3) { 0 => g.uni2(), 1 => g.uni3(), _ => g.uni4() } if vp::pick(2) == 1 { g.sym(b'a', b'z'); } g.lit(post); whole(text_of(g.b)) };
"n-over6" 1 x 8 reach 3 ["C10"] "up to 7 characters around the alphabet of identifiers" => over(A_ID,7,"interface ","{};",whole);
"n-free6" 1 x 4 reach 3 ["C10"] "Identifier on every text of at most 6 ASCII characters" => free(6, T_IDENT[0].full);
"n-sym4" 1 x 16 reach 3 ["C10"] "up to 4 printable characters as an identifier at 21 places" => symbolic_ident(4, whole);

// ---- terminals ----
"k-free" 0 x 1 reach 3 ["C11"] "every keyword terminal on every text of its length and up to two more characters" => term_free(NAMES);
"k-edges" 0 x 3 reach 3 ["C11"] "every keyword terminal with other text around it, one character changed, or cut short" => term_edges(NAMES);
"k-neg" 0 x 1 reach 3 ["C11"] "-Infinity likewise" => { if vp::pick(2) == 0 { term_free(NAMES2) } else { term_edges(NAMES2) } };
"k-punct" 0 x 1 reach 3 ["C11"] "every punctuation terminal likewise" => { if vp::pick(2) == 0 { term_free(PUNCT) } else { term_edges(PUNCT) } };
"k-near" 0 x 2 reach 3 ["C11"] "near misses of keywords at the places of keywords" => { let (pre, post) = [("", " A{};"), ("interface A{", " attribute A b;};"), ("interface A{", " A b;};"), ("interface A{readonly ", " A b;};"), ("typedef ", " A;"), ("typedef unsigned ", " A;"), ("typedef long", " A;"), ("callback c=A(", " A b);"), ("dictionary A{", " A b;};"), ("A ", " B;"), ("partial ", " A{};"), ("interface ", " A{};"), ("typedef(A ", " B)C;"), ("interface A{const double a=", ";};"), ("interface A{", ";};"), ("interface A{", "<A>;};")][vp::pick(16)]; let mut g = Gen::new(NO); g.lit(pre); match vp::pick(4) { 0 => vp::choice(NEAR, &mut g.b), 1 => vp::choice(KEYWORDS, &mut g.b), 2 => { g.sym(0x21, 0x7e); vp::choice(KEYWORDS, &mut g.b) } _ => { g.lit("_"); vp::choice(KEYWORDS, &mut g.b) } } g.lit(post); whole(text_of(g.b)) };

// ---- trivia ----
"s-over" 0 x 1 reach 3 ["C12"] "up to 6 characters of comments and whitespace between two tokens" => over(A_TRIVIA,6,"enum","E{\"\"};",whole);
"s-over-end" 0 x 1 reach 3 ["C12"] "up to 6 characters of comments and whitespace at the end" => over(A_TRIVIA,6,"enum E{\"\"};","",whole);
"s-over-all" 0 x 1 reach 3 ["C12"] "a text of up to 7 characters of comments and whitespace" => over(A_TRIVIA,7,"","",whole);
"s-words" 0 x 2 reach 3 ["C12"] "up to 5 words of the comment vocabulary before a definition" => words("",V_TRIVIA,0,5,"enum E{\"\"};",whole);
"s-long" 0 x 1 reach 1 ["C12"] "comments and whitespace of up to 1025 characters" => stretched(S_TRIVIA, whole);
"s-lit" 0 x 1 reach 3 ["C12"] "literals, one unusual separation" => each(T_LITS, fuel(1,1,0,0));
"s-cont" 0 x 2 reach 3 ["C12"] "containers, one unusual separation" => each(T_CONTAINERS, fuel(0,1,0,0));
"s-omem" 0 x 1 reach 3 ["C12"] "mixin and namespace members, one unusual separation" => { if vp::pick(2) == 0 { kinds(&MMEM, fuel(0,1,0,0), MMEM.full) } else { kinds(&NMEM, fuel(0,1,0,0), NMEM.full) } };
"s-enum-t2" 0 x 3 reach 3 ["C12"] "an enumeration, two unusual separations" => inside("", &peg::ENUM, "", fuel(0,2,0,0), whole);
"s-uni" 0 x 1 reach 3 ["C12"] "characters of 2-4 bytes in and around comments" => { let (pre, post) = [("/*","*/enum E{\"\"};"),("//","\nenum E{\"\"};"),("enum E{\"\"};//",""),("enum E","/**/{\"\"};"),("enum/*","*/E{\"\"};"),("/**","*/"),("","")][vp::pick(7)]; let mut g = Gen::new(NO); g.lit(pre); for _ in 0..1 + vp::pick(2) { match vp::pick(4) { 0 => g.uni2(), 1 => g.uni3(), 2 => g.uni4(), _ => g.sym(0, 0x7f) } } g.lit(post); whole(text_of(g.b)) };
"s-comments3" 0 x 2 reach 3 ["C12"] "3 ASCII characters inside comments" => { let (pre, post) = [("/*","*/enum E{\"\"};"),("//","\nenum E{\"\"};"),("enum/*","*/E{\"\"};"),("enum E{\"\"};//","")][vp::pick(4)]; let mut g = Gen::new(NO); g.lit(pre); for _ in 0..3 { g.sym(0, 0x7f); } g.lit(post); whole(text_of(g.b)) };
"s-over8" 1 x 8 reach 3 ["C12"] "up to 9 characters of comments and whitespace between two tokens" => over(A_TRIVIA,9,"enum","E{\"\"};",whole);
"s-t2" 1 x 24 reach 3 ["C12"] "short definitions, two unusual separations" => { let g0 = [&peg::TYPEDEF, &peg::INCLUDES, &peg::IMPLEMENTS][vp::pick(3)]; inside("", g0, "", fuel(0,2,0,0), whole) };
"s-comments4" 1 x 8 reach 3 ["C12"] "5 ASCII characters inside comments" => { let (pre, post) = [("/*","*/enum E{\"\"};"),("//","\nenum E{\"\"};"),("enum/*","*/E{\"\"};"),("enum E{\"\"};//","")][vp::pick(4)]; let mut g = Gen::new(NO); g.lit(pre); for _ in 0..5 { g.sym(0, 0x7f); } g.lit(post); whole(text_of(g.b)) };

// ---- containers ----
"c-g2" 0 x 2 reach 3 ["C13"] "containers, two grammar deviations" => each(T_CONTAINERS, fuel(2,0,0,0));
"c-m1" 0 x 2 reach 3 ["C13"] "containers, one damaged token" => each(T_CONTAINERS, fuel(0,0,0,1));
"c-g1t1" 0 x 4 reach 3 ["C13"] "containers, one grammar deviation and one unusual separation" => each(T_CONTAINERS, fuel(1,1,0,0));
"c-tail" 0 x 1 reach 3 ["C13"] "containers followed by other text, one grammar deviation" => tailed(T_CONTAINERS, fuel(1,0,0,0));
"c-lists" 0 x 1 reach 3 ["C13"] "lists of up to 4 words" => { let k = vp::pick(5); let v: &'static [&'static str] = [&["a", ",", "b1", ",,", ";"][..], &["a", ",", "b1", ",,", ";"], &["\"s\"", "or", "\"\"", ",", "or1"], &["1", "or", "0x2", ",", "3"], &["1", ";", "null", "true", ","]][k]; words_as(&T_CONTAINERS[5 + k], "", v, 0, 5, "") };
"c-g1l1" 0 x 3 reach 3 ["C13"] "containers, one grammar deviation and one unusual lexeme" => each(T_CONTAINERS, fuel(1,0,1,0));
"c-g1m1" 1 x 12 reach 3 ["C13"] "containers, one grammar deviation and one damaged token" => each(T_CONTAINERS, fuel(1,0,0,1));
"c-g3" 1 x 16 reach 3 ["C13"] "containers, three grammar deviations" => each(T_CONTAINERS, fuel(3,0,0,0));
"c-tail2" 1 x 16 reach 3 ["C13"] "containers followed by other text, two grammar deviations" => tailed(T_CONTAINERS, fuel(2,0,0,0));

// ---- rejection ----
"r-def-m1" 0 x 2 reach 3 ["C14"] "every definition kind, one damaged token" => kinds(&DEF, fuel(0,0,0,1), DEF.accept);
"r-imem-m1" 0 x 2 reach 3 ["C14"] "every interface member kind, one damaged token" => kinds(&IMEM, fuel(0,0,0,1), IMEM.accept);
"r-omem-m1" 0 x 1 reach 3 ["C14"] "mixin and namespace members, one damaged token" => { if vp::pick(2) == 0 { kinds(&MMEM, fuel(0,0,0,1), MMEM.accept) } else { kinds(&NMEM, fuel(0,0,0,1), NMEM.accept) } };
"r-dict-m1" 0 x 2 reach 3 ["C14"] "dictionary members, one grammar deviation and one damaged token" => derive_accept(&DMEM, fuel(1,0,0,1));
"r-typ-m1" 0 x 1 reach 3 ["C14"] "types, one grammar deviation and one damaged token" => derive_accept(&TYP, fuel(1,0,0,1));
"r-arg-m1" 0 x 2 reach 3 ["C14"] "arguments, one grammar deviation and one damaged token" => derive_accept(&ARG, fuel(1,0,0,1));
"r-attr-m1" 0 x 2 reach 3 ["C14"] "attribute lists, one grammar deviation and one damaged token" => derive_accept(&ATTRS, fuel(1,0,0,1));
"r-cut" 0 x 3 reach 3 ["C14"] "5 documents cut after every character, then nothing, an ASCII character or one of 2 bytes" => truncated(accept_whole);
"r-stray1" 0 x 1 reach 3 ["C14"] "1 ASCII character at 94 places of documents" => stray(1, 1, accept_whole);
"r-uni" 0 x 1 reach 3 ["C14"] "characters of 2-4 bytes at 94 places of documents" => stray_uni(accept_whole);
"r-words-def" 0 x 3 reach 3 ["C14"] "up to 4 words of the definition vocabulary" => words("",V_DEF,0,4,"",accept_whole);
"r-words-mem" 0 x 2 reach 3 ["C14"] "an interface body of up to 3 words" => words("interface A{",V_MEMBER,0,3,"};",accept_whole);
"r-words-typ" 0 x 1 reach 3 ["C14"] "a typedef of up to 4 words" => words("typedef ",V_TYPE,0,4," T;",accept_whole);
"r-words-arg" 0 x 1 reach 3 ["C14"] "an argument list of up to 4 words" => words("callback c=A(",V_ARG,0,4,");",accept_whole);
"r-words-attr" 0 x 1 reach 3 ["C14"] "an attribute list of up to 3 words" => words("[",V_ATTR,0,3,"]A includes B;",accept_whole);
"r-words-dict" 0 x 1 reach 3 ["C14"] "a dictionary body of up to 5 words" => words("dictionary A{",V_DICT,0,5,"};",accept_whole);
"r-words-enum" 0 x 1 reach 3 ["C14"] "an enumeration of up to 5 words" => words("enum A{",V_ENUM,0,5,"};",accept_whole);
"r-words-ns" 0 x 2 reach 3 ["C14"] "a namespace or mixin body of up to 3 words" => { words(if vp::pick(2) == 0 { "namespace A{" } else { "interface mixin A{" },V_MEMBER,0,3,"};",accept_whole) };
"r-number" 0 x 1 reach 3 ["C14"] "constants of up to 5 characters of the alphabet of numbers" => over(A_NUM, 5, "interface A{const double a=", ";};", accept_whole);
"r-ident" 0 x 1 reach 3 ["C14"] "up to 4 characters around the alphabet of identifiers" => over(A_ID,4,"interface ","{};",accept_whole);
"r-g1m1" 1 x 16 reach 3 ["C14"] "every definition kind, one grammar deviation and one damaged token" => kinds(&DEF, fuel(1,0,0,1), DEF.accept);
"r-i-g1m1" 1 x 24 reach 3 ["C14"] "every interface member kind, one grammar deviation and one damaged token" => kinds(&IMEM, fuel(1,0,0,1), IMEM.accept);
"r-m2" 1 x 16 reach 3 ["C14"] "types, two damaged tokens" => derive_accept(&TYP, fuel(1,0,0,2));
"r-words-mem4" 1 x 8 reach 3 ["C14"] "an interface body of 4 words" => words("interface A{",V_MEMBER,4,4,"};",accept_whole);

// ---- comparisons ----
"p-types" 0 x 3 reach 12 ["C15"] "two types, one grammar deviation each" => pairs(T_TYPES, fuel(1,0,0,0));
"p-members" 0 x 1 reach 12 ["C15"] "two members" => pairs(T_MEMBERS, NO);
"p-kinds" 0 x 3 reach 12 ["C15"] "two members or two definitions of every kind" => { let k = vp::pick(4); let nt: &'static Nt = [&DEF, &IMEM, &MMEM, &NMEM][k]; let mut o = [""; 2]; for w in 0..2 { let mut g = Gen::new(NO); if let G::Alt(_, gs) = nt.g { g.rule(&gs[vp::pick(gs.len())]); } o[w] = text_of(g.b); } (nt.pair)(o[0], o[1]) };
"p-attrs" 0 x 2 reach 12 ["C15"] "two attributes of every kind" => { let mut o = [""; 2]; for w in 0..2 { let mut g = Gen::new(NO); if let G::Alt(_, gs) = &peg::EXT_ATTR { g.rule(&gs[vp::pick(gs.len())]); } o[w] = text_of(g.b); } (T_ATTRS[0].pair)(o[0], o[1]) };
"p-lits" 0 x 1 reach 12 ["C15"] "two literals, one grammar deviation each" => pairs(T_LITS, fuel(1,0,0,0));
"p-args" 0 x 2 reach 12 ["C15"] "two arguments with the same derivation, one grammar deviation" => twins(T_ARGS, fuel(1,0,0,0));
"p-twin-defs" 0 x 3 reach 12 ["C15"] "two definitions with the same derivation, one grammar deviation, other lexemes and trivia" => twins(T_DEFS, fuel(1,0,0,0));
"p-twin-members" 0 x 6 reach 12 ["C15"] "two members with the same derivation, one grammar deviation, other lexemes and trivia" => twins(T_MEMBERS, fuel(1,0,0,0));
"p-twin-attrs" 0 x 2 reach 12 ["C15"] "two attributes with the same derivation, one grammar deviation, other lexemes and trivia" => twins(T_ATTRS, fuel(1,0,0,0));
"p-twin-cont" 0 x 2 reach 12 ["C15"] "two containers with the same derivation, one grammar deviation" => twins(T_CONTAINERS, NO);
"p-lexemes" 0 x 2 reach 12 ["C15"] "two lexemes of up to 3 characters" => lexeme_pairs(2);
"p-long" 0 x 1 reach 12 ["C15"] "two long lexemes or lists that differ in one place" => long_pairs();
"p-conv" 0 x 1 reach 1 ["C15"] "conversions of members into their enums, one grammar deviation" => conversions(fuel(1,0,0,0));
"p-terms" 1 x 8 reach 12 ["C15"] "nullable and integer types, two grammar deviations each" => { let nt = &T_TYPES[[10, 14, 21, 18][vp::pick(4)]]; let mut o = [""; 2]; for w in 0..2 { let mut g = Gen::new(fuel(2,0,0,0)); g.rule(nt.g); o[w] = text_of(g.b); } (nt.pair)(o[0], o[1]) };
"p-lexemes3" 1 x 8 reach 12 ["C15"] "two lexemes of up to 4 characters" => lexeme_pairs(3);
"p-attrs1" 1 x 8 reach 12 ["C15"] "two attributes, one grammar deviation each" => pairs(T_ATTRS, fuel(1,0,0,0));
"p-twin-types2" 1 x 16 reach 12 ["C15"] "two types with the same derivation, two grammar deviations" => twins(T_TYPES, fuel(2,0,0,0));
"p-members1" 1 x 32 reach 12 ["C15"] "two arguments, one grammar deviation each" => pairs(T_ARGS, fuel(1,0,0,0));

// ---- remainders ----
"z-defs" 0 x 1 reach 1 ["C16"] "definition structs followed by other text" => tailed(T_DEFS, NO);
"z-members" 0 x 1 reach 1 ["C16"] "member structs followed by other text" => tailed(T_MEMBERS, NO);
"z-types" 0 x 3 reach 1 ["C16"] "type structs followed by other text, one grammar deviation" => tailed(T_TYPES, fuel(1,0,0,0));
"z-attrs" 0 x 1 reach 1 ["C16"] "attribute structs followed by other text, one grammar deviation" => tailed(T_ATTRS, fuel(1,0,0,0));
"z-args" 0 x 1 reach 1 ["C16"] "argument structs followed by other text, one grammar deviation" => tailed(T_ARGS, fuel(1,0,0,0));
"z-lits" 0 x 1 reach 1 ["C16"] "literal structs followed by other text, one unusual lexeme" => tailed(T_LITS, fuel(1,0,1,0));
"z-ident" 0 x 1 reach 1 ["C16"] "identifiers followed by other text, unusual lexemes and separations" => tailed(T_IDENT, fuel(0,1,1,0));
"z-cont" 0 x 1 reach 1 ["C16"] "containers followed by other text, one grammar deviation" => tailed(T_CONTAINERS, fuel(1,0,0,0));
"z-terms" 0 x 2 reach 3 ["C16"] "every terminal with other text around it" => { match vp::pick(3) { 0 => term_edges(NAMES), 1 => term_edges(NAMES2), _ => term_edges(PUNCT) } };
"z-free" 0 x 3 reach 3 ["C16"] "every type of the parsing trait on every text of at most 2 ASCII characters" => { match vp::pick(7) { 0 => each_free(T_DEFS,2,false), 1 => each_free(T_MEMBERS,2,false), 2 => each_free(T_TYPES,2,false), 3 => each_free(T_ATTRS,3,false), 4 => each_free(T_ARGS,2,false), 5 => each_free(T_CONTAINERS,3,false), _ => each_free(T_IDENT,4,false) } };
"z-trivia" 0 x 2 reach 3 ["C16"] "every type, one unusual separation" => { match vp::pick(5) { 0 => each(T_TYPES, fuel(0,1,0,0)), 1 => each(T_ATTRS, fuel(0,1,0,0)), 2 => each(T_ARGS, fuel(0,1,0,0)), 3 => each(T_LITS, fuel(0,1,0,0)), _ => each(T_MEMBERS, fuel(0,1,0,0)) } };
"z-defs1" 1 x 8 reach 1 ["C16"] "definition structs followed by other text, one grammar deviation" => tailed(T_DEFS, fuel(1,0,0,0));
"z-members1" 1 x 12 reach 1 ["C16"] "member structs followed by other text, one grammar deviation" => tailed(T_MEMBERS, fuel(1,0,0,0));
"z-free3" 1 x 16 reach 3 ["C16"] "every type of the parsing trait on every text of at most 3 ASCII characters" => { match vp::pick(5) { 0 => each_free(T_DEFS,3,false), 1 => each_free(T_MEMBERS,3,false), 2 => each_free(T_TYPES,3,false), 3 => each_free(T_ARGS,3,false), _ => each_free(T_LITS,4,false) } };

// ---- purity ----
"h-history1" 0 x 2 reach 1 ["C17"] "one earlier call, then a definition with one grammar deviation" => history(1, fuel(1,0,0,0));
"h-history2" 0 x 2 reach 1 ["C17"] "two earlier calls, then a definition" => history(2, NO);
"h-embedded" 0 x 2 reach 1 ["C17"] "a definition, one unusual separation or lexeme, as a part of a larger text" => { let f = if vp::pick(2) == 0 { fuel(0,1,0,0) } else { fuel(0,0,1,0) }; embedded(f) };
"h-embedded-g" 0 x 1 reach 1 ["C17"] "a definition, one grammar deviation, as a part of a larger text" => embedded(fuel(1,0,0,0));
"h-twice" 0 x 2 reach 1 ["C17"] "the same text three times at two addresses, two grammar deviations" => twice(fuel(2,0,0,0));
"h-twice-x" 0 x 2 reach 3 ["C17"] "the same text three times at two addresses, one unusual lexeme or damaged token" => { let f = if vp::pick(2) == 0 { fuel(0,0,1,0) } else { fuel(0,0,0,1) }; twice(f) };
"h-many" 0 x 1 reach 1 ["C17"] "the same document up to 300 times" => { let d = HISTORY[vp::pick(HISTORY.len())]; for _ in 0..[1, 16, 64, 300][vp::pick(4)] { let _ = weedle::parse(d); } inside("", &peg::DEFINITION, "", NO, whole) };
"h-kinds" 0 x 3 reach 3 ["C17"] "two definitions of every kind in two calls, the first with one damaged token" => { let mut g = Gen::new(fuel(0,0,0,0)); let gs = match &peg::DEFINITION { G::Alt(_, gs) => gs, _ => return }; g.rule(&gs[vp::pick(gs.len())]); let cut = vp::pick(3); if cut == 1 { g.b.pop(); } if cut == 2 { g.lit("}"); } whole(text_of(g.b)); let mut g = Gen::new(NO); g.rule(&gs[vp::pick(gs.len())]); whole(text_of(g.b)) };
"h-history3" 0 x 2 reach 1 ["C17"] "two earlier calls, then a definition with one grammar deviation" => history(2, fuel(1,0,0,0));
"h-history-m" 0 x 4 reach 3 ["C17"] "one earlier call, then a definition with one damaged token" => history(1, fuel(0,0,0,1));
"h-buffer" 0 x 2 reach 3 ["C17"] "one buffer that holds two or three texts in turn" => { let n = 1 + vp::pick(2); reused(n) };
"h-calls" 0 x 4 reach 1 ["C17"] "3000 calls in one process" => { let (d, n) = [("", Some(0)), ("A includes B;", Some(1)), ("A includes", None), ("[A]enum", None)][vp::pick(4)]; many_calls(d, n, 3000) };
"h-calls-n" 1 x 2 reach 1 ["C17"] "66000 calls in one process" => { let (d, n) = [("", Some(0)), ("A", None)][vp::pick(2)]; many_calls(d, n, 66000) };
"h-sizes" 0 x 4 reach 1 ["C17"] "a list of up to 101 items after a list of up to 101 items, 20 kinds of list" => sizes();
"h-broken1" 0 x 8 reach 1 ["C17"] "17 definitions of every construct cut or damaged at every token, 8 ways each, in one process; then the definition and all of them" => broken_history(4, 1, false);
"h-broken-n" 1 x 17 reach 1 ["C17"] "the same, 28 ways each, each text 3 times" => broken_history(14, 3, false);
"h-broken-each" 1 x 34 reach 1 ["C17"] "the same, 4 ways each, each text 1, 2, 3 or 9 times, and the undamaged definition after each damaged one" => broken_history(2, [1, 2, 3, 9][vp::pick(4)], true);
}
