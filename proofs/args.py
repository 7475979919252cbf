"""C12: activity arguments (clang-time-trace/src/stats/activity/argument.rs)."""
from vx.unit import Unit
from vx.rustlex import lex
ARG = "clang-time-trace/src/stats/activity/argument.rs"

def text_eq(toks, count):
    """`&*a == "x"`, `a == "x"` ==> vx_same(&a, "x")"""
    out, i = [], 0
    while i < len(toks):
        j = i + (2 if toks[i].t == "&" and i + 1 < len(toks) and toks[i + 1].t == "*" else 0)
        if j + 2 < len(toks) and toks[j].k == "id" and toks[j + 1].t in ("==", "!=") and toks[j + 2].k == "str" and toks[j + 2].t.startswith('"'):
            n = "!" if toks[j + 1].t == "!=" else ""
            out += lex(f" {n}vx_same(&{toks[j].t}, {toks[j + 2].t})")
            count["&*a == \"text\"  ==>  vx_same(&a, \"text\") (comparison of texts)"] = count.get("&*a == \"text\"  ==>  vx_same(&a, \"text\") (comparison of texts)", 0) + 1
            i = j + 3
        else:
            out.append(toks[i]); i += 1
    return out

SPEC = r"""
// ---- C12: what kind of argument a detail text is taken for ----
spec fn an(c: char) -> bool { is_an(c) }
spec fn mid_ok(w: Seq<char>, i: int) -> bool { is_an(w[i]) || w[i] == '-' || w[i] == '/' || (i > 1 && w[i] == '>' && w[i - 1] == '-') || (i > 1 && w[i] == '_' && is_up(w[i - 1])) }
spec fn plain(w: Seq<char>) -> bool {
    w == "&"@ || w == "memcmp()"@ || w.len() == 0 || (is_an(w[0]) && is_an(w.last()) && forall|i: int| 1 <= i < w.len() - 1 ==> #[trigger] mid_ok(w, i))
}
spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
spec fn unwrapped(s: Seq<char>) -> Seq<char> { if s.len() > 1 && s[0] == '(' && s.last() == ')' { s.subrange(1, s.len() - 1) } else { s } }
spec fn symbol_like(s: Seq<char>) -> bool { starts(s, "_Z"@) || s == "main"@ || s == "__clang_call_terminate"@ || starts(s, "__cxx_global_var_init"@) || starts(s, "_GLOBAL__sub_I_"@) }
spec fn inferred(s: Seq<char>) -> ActivityArgumentType {
    if symbol_like(unwrapped(s)) { ActivityArgumentType::Symbol }
    else if s == "<unnamed loop>"@ { ActivityArgumentType::UnnamedLoop }
    else if (s.len() > 0 && s[0] == '/') || s == "[module]"@ { ActivityArgumentType::FilePathOrModule }
    else if s.len() > 0 && !is_up(s[0]) { ActivityArgumentType::CppEntity }
    else if forall|j: int| 0 <= j < split_of(s, ' ').len() ==> plain(#[trigger] split_of(s, ' ')[j]) { ActivityArgumentType::String }
    else { ActivityArgumentType::CppEntity }
}
"""

def texts(u):
    u.trust("str and char as documented by std (comparison, starts_with, ends_with, chars, split; char classes are uninterpreted); Unix paths are absolute if they start with a slash", r"""
#[verifier::external_body] fn vx_same(s: &str, t: &str) -> (r: bool) ensures r == (s@ == t@) { unimplemented!() }
#[verifier::external_body] fn vx_first_is(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { unimplemented!() }
#[verifier::external_body] fn vx_last_is(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { unimplemented!() }
#[verifier::external_body] fn vx_starts(s: &str, p: &str) -> (r: bool) ensures r == starts(s@, p@) { unimplemented!() }
// bytes 1..len-1 of a text whose first and last characters take one byte each
#[verifier::external_body] fn vx_inner(s: &str) -> (r: &str) requires s@.len() >= 2, s@[0] == '(', s@.last() == ')', ensures r@ == s@.subrange(1, s@.len() - 1) { unimplemented!() }
#[verifier::external_body] fn vx_absolute(s: &str) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == '/') { unimplemented!() }
uninterp spec fn is_an(c: char) -> bool;
uninterp spec fn is_up(c: char) -> bool;
#[verifier::external_body] fn vx_an(c: char) -> (r: bool) ensures r == is_an(c) { unimplemented!() }
#[verifier::external_body] fn vx_up(c: char) -> (r: bool) ensures r == is_up(c) { unimplemented!() }
#[verifier::external_body] struct Chars {}
impl Chars {
    uninterp spec fn view(&self) -> Seq<char>;   // characters still to come
    #[verifier::external_body] fn next(&mut self) -> (r: Option<char>) ensures match r { Some(c) => old(self)@.len() > 0 && c == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] fn next_back(&mut self) -> (r: Option<char>) ensures match r { Some(c) => old(self)@.len() > 0 && c == old(self)@.last() && final(self)@ == old(self)@.drop_last(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] fn vx_vec(self) -> (r: Vec<char>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] fn vx_chars(s: &str) -> (r: Chars) ensures r@ == s@ { unimplemented!() }
spec fn both(a: Option<char>, b: Option<char>) -> Seq<char> { (match a { Some(c) => seq![c], None => seq![] }) + (match b { Some(c) => seq![c], None => seq![] }) }
#[verifier::external_body] fn vx_both(a: Option<char>, b: Option<char>) -> (r: Vec<char>) ensures r@ == both(a, b) { unimplemented!() }
spec fn split_of(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![seq![]] } else { let r = split_of(s.drop_last(), c); if s.last() == c { r.push(seq![]) } else { r.update(r.len() - 1, r.last().push(s.last())) } }
}
#[verifier::external_body] fn vx_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures r@.len() == split_of(s@, c).len(), forall|j: int| 0 <= j < r@.len() ==> #[trigger] r@[j]@ == split_of(s@, c)[j] { unimplemented!() }
fn vx_replace(d: &mut bool, s: bool) -> (r: bool) ensures r == *old(d), *final(d) == s { let r = *d; *d = s; r }
""")
    for a, b, w in [
        ("&$i_a[1..$i_a.len() - 1]", "vx_inner($i_a)", "slicing off the first and the last byte"),
        ("$i_a.starts_with('(')", "vx_first_is(&$i_a, '(')", "trusted std function"), ("$i_a.ends_with(')')", "vx_last_is(&$i_a, ')')", "trusted std function"),
        ("$i_a.starts_with($s)", "vx_starts($i_a, $s)", "trusted std function"), ("Path::new($i_a).is_absolute()", "vx_absolute($i_a)", "trusted std function"),
        ("$i_a.chars().next().is_some_and(|$i_c| $f)", "(match vx_chars($i_a).next() { Some($i_c) => $f, None => false })", "Option::is_some_and spelled out"),
        ("$i_a.split($c)", "vx_split($i_a, $c)", "trusted std function, collected"), ("$i_a.chars()", "vx_chars($i_a)", "trusted std function"),
        ("$i_a.into_iter().chain($i_b)", "vx_both($i_a, $i_b)", "trusted std function, collected"), ("in chars {", "in chars.vx_vec() {", "characters still to come, collected"),
        ("in $x { if $c { continue; } $b_r }", "in $x { if !($c) { $b_r } }", "continue as if"),
        ("std::mem::replace($a, $b)", "vx_replace($a, $b)", "std::mem::replace spelled out"),
        ("$i_a.is_alphanumeric()", "vx_an($i_a)", "char class"), ("$i_a.is_uppercase()", "vx_up($i_a)", "char class"),
    ]: u.rule(a, b, w)

def make_infer():
    u = Unit("argument_inference", rlimit=60)
    texts(u)
    u.item(ARG, "enum", "ActivityArgumentType", prefix="#[derive(Clone, Copy, PartialEq, Eq, Structural)]")
    u.raw(SPEC)
    u.raw("proof fn inferred_takes_a_detail(s: Seq<char>) ensures !(inferred(s) is Nothing) {}")
    u.fn(ARG, "infer_from_detail", impl="ActivityArgumentType", ret="r", pre=text_eq, contract="ensures r == inferred(detail@),",
         loops=[dict(kw="for", it="it", inv="""
            invariant_except_break can_be_string, forall|j: int| 0 <= j < it.index@ ==> plain(#[trigger] split_of(detail@, ' ')[j]),
            invariant it.seq().len() == split_of(detail@, ' ').len(), forall|j: int| 0 <= j < it.seq().len() ==> #[trigger] it.seq()[j]@ == split_of(detail@, ' ')[j], 0 <= it.index@ <= it.seq().len(),
            ensures can_be_string == (forall|j: int| 0 <= j < split_of(detail@, ' ').len() ==> plain(#[trigger] split_of(detail@, ' ')[j])),
            """, start="let ghost w = word@; let ghost k = it.index@ as int; proof { assert(w == split_of(detail@, ' ')[k]); }"),
          dict(kw="for", it="it2", before="let ghost mids = chars@; let ghost sides = both(first, last); proof { assert(forall|j: int| 0 <= j < mids.len() ==> mids[j] == w[j + 1]); if w.len() > 0 { assert(sides[0] == w[0]); if w.len() == 1 { assert(sides.len() == 1); } else { assert(sides.len() == 2 && sides[1] == w.last()); assert(mids.len() == w.len() - 2); } } else { assert(sides.len() == 0 && mids.len() == 0); } } #[verifier::loop_isolation(false)]",
               inv="invariant it2.seq() == sides, can_be_string, 0 <= it2.index@ <= sides.len(), forall|j: int| 0 <= j < it2.index@ ==> is_an(#[trigger] sides[j]),", start="proof { assert(side == sides[it2.index@ as int]); if !is_an(side) { assert(!plain(w)); } }"),
          dict(kw="for", it="it3", before="#[verifier::loop_isolation(false)]", inv="""
            invariant it3.seq() == mids, can_be_string, 0 <= it3.index@ <= mids.len(), forall|i: int| 1 <= i < it3.index@ + 1 ==> #[trigger] mid_ok(w, i),
                w.len() > 0 ==> is_an(w[0]) && is_an(w.last()),
                dash_before == (it3.index@ > 0 && w[it3.index@ as int] == '-'), caps_before == (it3.index@ > 0 && is_up(w[it3.index@ as int])),
            """, start="proof { let i = it3.index@ + 1; assert(middle == w[i]); reveal_strlit(\"&\"); reveal_strlit(\"memcmp()\"); assert(w.len() >= 3); if !mid_ok(w, i) { assert(!plain(w)); } }")],
         hints=[("before", "if vx_starts", "assert(normalized_symbol_name@ == unwrapped(detail@));"), ("before", "if (match vx_chars", "assert(!symbol_like(unwrapped(detail@)));"), ("before", "if can_be_string", "proof { assert(can_be_string == (forall|j: int| 0 <= j < split_of(detail@, ' ').len() ==> plain(#[trigger] split_of(detail@, ' ')[j]))); assert(can_be_string ==> inferred(detail@) is String); assert(!can_be_string ==> inferred(detail@) is CppEntity); }"), ("before", "let mut dash_before", "proof { if w.len() > 0 { assert(sides.len() > 0); assert(is_an(sides[0])); assert(is_an(sides[sides.len() - 1])); assert(sides[sides.len() - 1] == w.last()); } }")])
    return u

LIB = "cpparser/src/lib.rs"
ASPEC = r"""
// ---- C12: what parsing a recorded argument yields ----
ghost enum Sym { Parsed(Ent), Demangled(Seq<char>), Kept(Seq<char>) }
ghost enum Arg { Nothing, Text(Seq<char>), Path(Seq<Seq<char>>), Entity(Ent), Symbol(Sym), UnnamedLoop, Module }
ghost enum Bad { Path, Entity, Loop(Seq<char>) }
// a demangled name: parsed if the entity parser takes it
spec fn readable(d: Seq<char>) -> Sym { match entity_of(d) { Some(e) => Sym::Parsed(e), None => Sym::Demangled(d) } }
spec fn demangle_of(s: Seq<char>) -> Option<Seq<char>> {
    match mangled(s, 1024) { Some(m) => demangled(m, Opts { hide_literal_types: true, no_return_type: true, limit: 1024 }), None => None }
}
spec fn symbol_of(s: Seq<char>) -> Sym {
    let n = unwrapped(s);
    match demangle_of(n) { Some(d) => readable(d), None => if n == "main"@ || n == "__clang_call_terminate"@ { readable(n) } else { Sym::Kept(n) } }
}
spec fn loop_of(s: Seq<char>) -> Result<Arg, Bad> { if s == "<unnamed loop>"@ { Ok(Arg::UnnamedLoop) } else { Err(Bad::Loop(s)) } }
spec fn parsed(t: ActivityArgumentType, d: Option<Seq<char>>) -> Result<Arg, Bad> {
    match t {
        ActivityArgumentType::Nothing => Ok(Arg::Nothing),
        ActivityArgumentType::String => Ok(Arg::Text(d->0)),
        ActivityArgumentType::FilePathOrModule => if d->0 == "[module]"@ { Ok(Arg::Module) } else { match path_of(d->0) { Some(p) => Ok(Arg::Path(p)), None => Err(Bad::Path) } },
        ActivityArgumentType::CppEntity => match entity_of(d->0) { Some(e) => Ok(Arg::Entity(e)), None => Err(Bad::Entity) },
        ActivityArgumentType::Symbol => Ok(Arg::Symbol(symbol_of(d->0))),
        ActivityArgumentType::SymbolOpt => match d { Some(s) => Ok(Arg::Symbol(symbol_of(s))), None => Ok(Arg::Nothing) },
        ActivityArgumentType::UnnamedLoop => loop_of(d->0),
        ActivityArgumentType::UnnamedLoopOpt => match d { Some(s) => loop_of(s), None => Ok(Arg::Nothing) },
    }
}
"""
MSPEC = r"""
spec fn sym(s: ParsedSymbol) -> Sym { match s { ParsedSymbol::Parsed(k) => Sym::Parsed(ent(k)), ParsedSymbol::Demangled(t) => Sym::Demangled(t@), ParsedSymbol::MaybeMangled(t) => Sym::Kept(t@) } }
spec fn arg(a: ParsedActivityArgument) -> Arg {
    match a { ParsedActivityArgument::Nothing => Arg::Nothing, ParsedActivityArgument::String(t) => Arg::Text(t@), ParsedActivityArgument::FilePath(k) => Arg::Path(path_at(k)),
        ParsedActivityArgument::CppEntity(k) => Arg::Entity(ent(k)), ParsedActivityArgument::Symbol(s) => Arg::Symbol(sym(s)), ParsedActivityArgument::UnnamedLoop => Arg::UnnamedLoop, ParsedActivityArgument::Module => Arg::Module }
}
spec fn bad(e: ActivityArgumentError) -> Bad { match e { ActivityArgumentError::BadFilePath(_) => Bad::Path, ActivityArgumentError::BadCppEntity(_) => Bad::Entity, ActivityArgumentError::UnexpectedLoopName(t) => Bad::Loop(t@) } }
spec fn shown_sym(s: Symbol) -> Sym { match s { Symbol::Parsed(k) => Sym::Parsed(ent_view(k)), Symbol::Demangled(t) => Sym::Demangled(t@), Symbol::MaybeMangled(t) => Sym::Kept(t@) } }
spec fn shown(a: ActivityArgument) -> Arg {
    match a { ActivityArgument::Nothing => Arg::Nothing, ActivityArgument::String(t) => Arg::Text(t@), ActivityArgument::FilePath(k) => Arg::Path(path_view(k)),
        ActivityArgument::CppEntity(k) => Arg::Entity(ent_view(k)), ActivityArgument::Symbol(s) => Arg::Symbol(shown_sym(s)), ActivityArgument::UnnamedLoop => Arg::UnnamedLoop, ActivityArgument::Module => Arg::Module }
}
// a raw argument as loading records it (C11): a detail is there unless the kind says otherwise
spec fn complete(t: ActivityArgumentType, d: bool) -> bool { (t is Nothing ==> !d) && (t is SymbolOpt || t is UnnamedLoopOpt || t is Nothing || d) }
spec fn txt(d: Option<Text>) -> Option<Seq<char>> { match d { Some(t) => Some(t@), None => None } }
"""

def make_argument():
    u = Unit("argument_parsing", rlimit=60)
    texts(u)
    u.item(ARG, "enum", "ActivityArgumentType", prefix="#[derive(Clone, Copy, PartialEq, Eq, Structural)]")
    u.raw(SPEC)
    u.trust("Rc<str>, Box<str>, String: owned texts", r"""
#[verifier::external_body] struct Text { s: String }
impl Text {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] fn vx_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] fn vx_of(s: &str) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] fn vx_into(s: Text) -> (r: Text) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] struct Buf { s: String }
impl Buf {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] fn clear(&mut self) ensures final(self)@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] fn vx_text(&self) -> (r: Text) ensures r@ == self@ { unimplemented!() }
}
""")
    u.trust("cpp_demangle: a symbol is demangled by its text and the options alone, appending to the buffer, or fails leaving anything there", r"""
ghost struct Opts { hide_literal_types: bool, no_return_type: bool, limit: int }
#[verifier::external_body] struct MangledSymbol {}
#[verifier::external_body] struct ParseOptions {}
#[verifier::external_body] struct DemangleOptions {}
#[verifier::external_body] struct DemangleError {}
#[verifier::external_body] ghost struct Mangled {}
uninterp spec fn mangled(s: Seq<char>, limit: int) -> Option<Mangled>;
uninterp spec fn demangled(m: Mangled, o: Opts) -> Option<Seq<char>>;
impl ParseOptions {
    uninterp spec fn view(&self) -> int;
    #[verifier::external_body] fn default() -> Self { unimplemented!() }
    #[verifier::external_body] fn recursion_limit(self, n: u32) -> (r: Self) ensures r@ == n { unimplemented!() }
}
impl DemangleOptions {
    uninterp spec fn view(&self) -> Opts;
    #[verifier::external_body] fn default() -> (r: Self) ensures !r@.hide_literal_types, !r@.no_return_type { unimplemented!() }
    #[verifier::external_body] fn recursion_limit(self, n: u32) -> (r: Self) ensures r@ == (Opts { limit: n as int, ..self@ }) { unimplemented!() }
    #[verifier::external_body] fn no_return_type(self) -> (r: Self) ensures r@ == (Opts { no_return_type: true, ..self@ }) { unimplemented!() }
    #[verifier::external_body] fn hide_expression_literal_types(self) -> (r: Self) ensures r@ == (Opts { hide_literal_types: true, ..self@ }) { unimplemented!() }
}
impl MangledSymbol {
    uninterp spec fn view(&self) -> Mangled;
    #[verifier::external_body] fn new_with_options(s: &str, o: &ParseOptions) -> (r: Result<Self, DemangleError>) ensures match mangled(s@, o@) { Some(m) => r matches Ok(x) && x@ == m, None => r is Err } { unimplemented!() }
    #[verifier::external_body] fn structured_demangle(&self, b: &mut Buf, o: &DemangleOptions) -> (r: Result<(), DemangleError>)
        ensures match demangled(self@, o@) { Some(d) => r is Ok && final(b)@ == old(b)@ + d, None => r is Err } { unimplemented!() }
}
""")
    u.trust("the entity parser maps a text to an entity and a path to its normalised segments, or rejects it, and keys keep standing for what they were given for (C04, C06; the C++ grammar itself is not verified)", r"""
#[verifier::external_body] ghost struct Ent {}
#[verifier::external_body] struct EntityParser {}
#[derive(Clone, Copy)] #[verifier::external_body] struct EntityKey {}
#[derive(Clone, Copy)] #[verifier::external_body] struct PathKey {}
#[verifier::external_body] struct PathError {}
#[verifier::external_body] struct Input {}
#[verifier::external_body] struct Code {}
#[verifier::external_body] struct BoxedError {}
struct NomError { input: Input, code: Code }
uninterp spec fn ent(k: EntityKey) -> Ent;
uninterp spec fn path_at(k: PathKey) -> Seq<Seq<char>>;
uninterp spec fn entity_of(s: Seq<char>) -> Option<Ent>;
uninterp spec fn path_of(s: Seq<char>) -> Option<Seq<Seq<char>>>;
impl EntityParser {
    #[verifier::external_body] fn parse_entity(&mut self, s: &str) -> (r: Result<EntityKey, NomError>) ensures match entity_of(s@) { Some(e) => r matches Ok(k) && ent(k) == e, None => r is Err } { unimplemented!() }
    #[verifier::external_body] fn try_intern_path(&mut self, s: &str) -> (r: Result<PathKey, PathError>) ensures match path_of(s@) { Some(p) => r matches Ok(k) && path_at(k) == p, None => r is Err } { unimplemented!() }
}
#[verifier::external_body] fn vx_bad_entity(i: Input, c: Code) -> (r: ActivityArgumentError) ensures r is BadCppEntity { unimplemented!() }
#[verifier::external_body] struct ClangTrace {}
#[verifier::external_body] struct InternedPath<'a> { p: &'a u8 }
#[verifier::external_body] struct EntityView<'a> { p: &'a u8 }
uninterp spec fn ent_view(k: EntityView) -> Ent;
uninterp spec fn path_view(k: InternedPath) -> Seq<Seq<char>>;
impl ClangTrace {
    #[verifier::external_body] fn file_path<'a>(&'a self, k: PathKey) -> (r: InternedPath<'a>) ensures path_view(r) == path_at(k) { unimplemented!() }
    #[verifier::external_body] fn entity<'a>(&'a self, k: EntityKey) -> (r: EntityView<'a>) ensures ent_view(r) == ent(k) { unimplemented!() }
}
""")
    for a, b, w in [
        ("nom::error::Error<Box<str>>", "BoxedError", "type not looked into"), ("Option<Rc<str>>", "Option<Text>", "text type"), ("Rc<str>", "Text", "text type"), ("Box<str>", "Text", "text type"), ("&mut String", "&mut Buf", "text type"),
        ("#[from]", "", "derive attribute"),
    ]: u.rule(a, b, w)
    u.item(ARG, "const", "CPP_DEMANGLE_RECURSION_LIMIT")
    for k, n in [("struct", "RawActivityArgument"), ("enum", "ParsedActivityArgument"), ("enum", "ParsedSymbol"), ("enum", "ActivityArgument"), ("enum", "Symbol"), ("enum", "ActivityArgumentError")]: u.item(ARG, k, n)
    u.raw(ASPEC)
    u.raw(MSPEC)
    SM = [("MangledSymbol::new_with_options($a, $b).map(|$i_s| { $b_c })", "(match MangledSymbol::new_with_options($a, $b) { Ok($i_s) => Ok({ $b_c }), Err(vx_e) => Err(vx_e) })", "Result::map spelled out"),
          ("&*symbol,", "symbol.vx_str(),", "deref of Rc<str>"), ("Rc::from(&$i_s[1..$i_s.len() - 1])", "Text::vx_of(vx_inner($i_s.vx_str()))", "slicing off the first and the last byte"),
          ("$i_s.starts_with('(')", "vx_first_is($i_s.vx_str(), '(')", "trusted std function"), ("$i_s.ends_with(')')", "vx_last_is($i_s.vx_str(), ')')", "trusted std function"),
          ("$i_b.clone().into()", "$i_b.vx_text()", "text conversion"), ("parse_demangled($x)", "Self::parse_demangled($x, parser)", "lifted closure"),
          ("match &*$i_s { $x | $y => $p, _ => $q, }", "if vx_same($i_s.vx_str(), $x) || vx_same($i_s.vx_str(), $y) { $p } else { $q }", "match on texts spelled out"),
          ("warn!($x)", "()", "logging"), ("info!($x)", "()", "logging")]
    ent = "ensures match entity_of(s@) { Some(e) => r matches Ok(k) && ent(k) == e, None => r is Err && r->Err_0 is BadCppEntity },"
    u.fn(ARG, "parse_entity", impl="RawActivityArgument", ret="r", contract=ent,
         rewrites=[("$i_p.parse_entity($s).map_err(|$i_e| { $b_f })", "(match $i_p.parse_entity($s) { Ok(vx_k) => Ok(vx_k), Err($i_e) => Err({ $b_f }) })", "Result::map_err spelled out"),
                   ("ActivityArgumentError::from(nom::error::Error::new(Box::<str>::from($a), $b))", "vx_bad_entity($a, $b)", "error conversion")])
    u.fn(ARG, "parse_symbol", impl="RawActivityArgument", closure=("parse_demangled", "entity: Rc<str>"), header="impl RawActivityArgument",
         sig="fn parse_demangled(entity: Text, parser: &mut EntityParser) -> (r: ParsedSymbol)", contract="ensures sym(r) == readable(entity@),", rewrites=[("&entity, ", "entity.vx_str(), ", "deref of Rc<str>")])
    u.fn(ARG, "parse_symbol", impl="RawActivityArgument", ret="r", lifted=["parse_demangled"], rewrites=SM, contract="ensures r matches Ok(p) && sym(p) == symbol_of(symbol@),",
         start="let ghost s0 = symbol@;", hints=[("before", "let demangling_result", "assert(symbol@ == unwrapped(s0));")])
    u.fn(ARG, "parse_unnamed_loop", impl="RawActivityArgument", ret="r", contract="ensures match loop_of(loop_name@) { Ok(_) => r is Ok, Err(b) => r matches Err(e) && bad(e) == b },",
         pre=text_eq, rewrites=[("let $i_a: &str = &$i_a;", "", "deref of Rc<str>"), ("vx_same(&$i_a, $s)", "vx_same($i_a.vx_str(), $s)", "deref of Rc<str>"), ("loop_name.into()", "vx_into(loop_name)", "text conversion")])
    CAP = "detail: &mut Option<Text>"
    R = [("let detail = RefCell::new(self.detail);", "let mut vx_det = self.detail;", "RefCell of a local variable read as the variable"), ("detail.borrow().is_some()", "detail.is_some()", "RefCell of a local variable read as the variable"),
         ("detail.borrow_mut().take()", "detail.take()", "RefCell of a local variable read as the variable")]
    imp = dict(impl="RawActivityArgument", header="impl RawActivityArgument")
    u.fn(ARG, "parse_impl", closure=("has_detail", ""), sig="fn has_detail(detail: &Option<Text>) -> (r: bool)", contract="ensures r == (detail is Some),", rewrites=R, **imp)
    u.fn(ARG, "parse_impl", closure=("detail_opt", ""), sig=f"fn detail_opt({CAP}) -> (r: Option<Text>)", contract="ensures r == *old(detail), *final(detail) is None,", rewrites=R, **imp)
    u.fn(ARG, "parse_impl", closure=("detail", ""), sig=f"fn vx_detail({CAP}) -> (r: Text)", contract="requires *old(detail) is Some, ensures r == old(detail)->0, *final(detail) is None,",
         rewrites=[("detail_opt()", "Self::detail_opt(detail)", "lifted closure"), (".expect($x)", ".unwrap()", "panic message")], **imp)
    u.fn(ARG, "parse_impl", closure=("symbol_arg", "parser: &mut EntityParser"), sig=f"fn symbol_arg(parser: &mut EntityParser, {CAP}, demangling_buf: &mut Buf) -> (r: Result<ParsedSymbol, ActivityArgumentError>)",
         contract="requires *old(detail) is Some, ensures r matches Ok(p) && sym(p) == symbol_of((old(detail)->0)@),", rewrites=[("detail()", "Self::vx_detail(detail)", "lifted closure")], **imp)
    u.fn(ARG, "parse_impl", closure=("parse_unnamed_loop_arg", ""), sig=f"fn parse_unnamed_loop_arg({CAP}) -> (r: Result<(), ActivityArgumentError>)",
         contract="requires *old(detail) is Some, ensures match loop_of((old(detail)->0)@) { Ok(_) => r is Ok, Err(b) => r matches Err(e) && bad(e) == b },", rewrites=[("detail()", "Self::vx_detail(detail)", "lifted closure")], **imp)
    u.fn(ARG, "parse_impl", impl="RawActivityArgument", ret="r", lifted=["has_detail", "detail_opt", "detail", "symbol_arg", "parse_unnamed_loop_arg"], pre=text_eq,
         rewrites=R + [("debug_assert_eq!($a, None);", "{ let vx_a = $a; assert(vx_a is None); }", "debug assertion as an obligation"),
            ("Self::parse_entity(&detail(), parser).map(ParsedActivityArgument::CppEntity)", "(match Self::parse_entity(Self::vx_detail(&mut vx_det).vx_str(), parser) { Ok(vx_k) => Ok(ParsedActivityArgument::CppEntity(vx_k)), Err(vx_e) => Err(vx_e) })", "Result::map spelled out"),
            ("symbol_arg(parser).map(ParsedActivityArgument::Symbol)", "(match Self::symbol_arg(parser, &mut vx_det, demangling_buf) { Ok(vx_k) => Ok(ParsedActivityArgument::Symbol(vx_k)), Err(vx_e) => Err(vx_e) })", "Result::map spelled out, lifted closure"),
            ("parse_unnamed_loop_arg().map(|()| $f)", "(match Self::parse_unnamed_loop_arg(&mut vx_det) { Ok(()) => Ok($f), Err(vx_e) => Err(vx_e) })", "Result::map spelled out, lifted closure"),
            ("has_detail()", "Self::has_detail(&vx_det)", "lifted closure"), ("detail_opt()", "Self::detail_opt(&mut vx_det)", "lifted closure"), ("detail()", "Self::vx_detail(&mut vx_det)", "lifted closure"),
            ("vx_same(&$i_a, $s)", "vx_same($i_a.vx_str(), $s)", "deref of Rc<str>"),
            ("$i_p.try_intern_path(&$i_d)?", "(match $i_p.try_intern_path($i_d.vx_str()) { Ok(vx_k) => vx_k, Err(vx_e) => return Err(ActivityArgumentError::BadFilePath(vx_e)) })", "error conversion written out")],
         contract="requires complete(self.arg_type, self.detail is Some), ensures match parsed(self.arg_type, txt(self.detail)) { Ok(a) => r matches Ok(p) && arg(p) == a, Err(b) => r matches Err(e) && bad(e) == b },")
    u.fn(ARG, "resolve", impl="ParsedSymbol", ret="r", contract="ensures shown_sym(r) == sym(*self),", rewrites=[("Symbol::Demangled($s)", "Symbol::Demangled($s.vx_str())", "deref of Rc<str>"), ("Symbol::MaybeMangled($s)", "Symbol::MaybeMangled($s.vx_str())", "deref of Rc<str>"),
         ("ParsedSymbol::Demangled(s.vx_str())", "ParsedSymbol::Demangled(s)", "pattern"), ("ParsedSymbol::MaybeMangled(s.vx_str())", "ParsedSymbol::MaybeMangled(s)", "pattern")])
    u.fn(ARG, "resolve", impl="ParsedActivityArgument", ret="r", contract="ensures shown(r) == arg(*self),", rewrites=[("=> ActivityArgument::String($s)", "=> ActivityArgument::String($s.vx_str())", "deref of Rc<str>")])
    return u
