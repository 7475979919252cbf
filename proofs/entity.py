"""C22: how C++ entities are displayed: in full down to the depth they announce, list by list elided above it."""
import re
from vx.unit import Unit
from vx import extract as X

R = "cpparser/src/"
S = R + "subparsers/"
DISP = R + "display.rs"
SLICE = R + "interning/slice.rs"
LIB = R + "lib.rs"
QUAL, SPEC, TYPES, DECL = S + "types/qualifiers.rs", S + "types/specifiers/mod.rs", S + "types/mod.rs", S + "types/declarators.rs"
LEGACY = S + "types/specifiers/legacy.rs"
FUN, TPL, ANON, VAL, LIT = S + "functions.rs", S + "templates.rs", S + "anonymous.rs", S + "values/mod.rs", S + "values/literals.rs"
OPS, USE, UNQ, SCO, ATOM = S + "operators/mod.rs", S + "operators/usage.rs", S + "names/unqualified.rs", S + "names/scopes.rs", S + "names/atoms.rs"

# the views that are lists (aliases of SliceView), how many items they have and what they show is left to the unit on lists
LISTS = ["FunctionArgumentsView", "FunctionParametersView", "DeclaratorView", "ScopesView", "ValueTrailerView", "TemplateParameterListView"]

# view: how EntityParser makes it (file, method, parameter and type of the key)
MAKERS = {
    "TypeView": (TYPES, "type_like", "t: TypeKey"), "TypeSpecifierView": (SPEC, "type_specifier", "ts: TypeSpecifier"),
    "SimpleTypeView": (SPEC, "simple_type", "st: SimpleType"), "DeclaratorView": (DECL, "declarator", "d: DeclaratorKey"),
    "FunctionArgumentsView": (FUN, "function_arguments", "a: FunctionArgumentsKey"), "FunctionParametersView": (FUN, "function_parameters", "a: FunctionParametersKey"),
    "FunctionSignatureView": (FUN, "function_signature", "s: FunctionSignature"), "TemplateParametersView": (TPL, "template_parameters", "tp: TemplateParameters"),
    "TemplateParameterListView": (TPL, "template_parameter_list", "key: TemplateParameterListKey"), "AnonymousEntityView": (ANON, "anonymous", "a: AnonymousEntity"),
    "ClangLambdaView": (ANON, "clang_lambda", "l: ClangLambda"), "LibibertyLambdaView": (ANON, "libiberty_lambda", "l: LibibertyLambda"),
    "ClangAnonymousEntityView": (ANON, "clang_anonymous", "a: ClangAnonymousEntity"), "SourceLocationView": (ANON, "source_location", "sl: SourceLocation"),
    "ValueView": (VAL, "value_like", "v: ValueKey"), "ValueHeaderView": (VAL, "value_header", "vh: ValueHeader"), "ValueTrailerView": (VAL, "value_trailer", "vt: ValueTrailerKey"),
    "LiteralView": (LIT, "literal", "l: Literal"), "OperatorView": (OPS, "operator", "op: Operator"), "NewExpressionView": (USE, "new_expression", "ne: NewExpression"),
    "UnqualifiedIdView": (UNQ, "unqualified_id", "id: UnqualifiedId"), "IdExpressionView": (SCO, "id_expression", "id: IdExpression"),
    "NestedNameSpecifierView": (SCO, "nested_name_specifier", "nns: NestedNameSpecifier"), "ScopesView": (SCO, "scope_sequence", "key: ScopesKey"),
    "IdentifierView": (ATOM, "identifier", "key: IdentifierKey"), "InternedPath": (LIB, "path", "key: PathKey"),
}
# what the items of a list are, and what surrounds and separates them
MARKS = {"FunctionArgumentsView": ("(", ", ", ")"), "FunctionParametersView": ("(", ", ", ""), "DeclaratorView": ("", "", ""), "ScopesView": ("", "", ""),
         "ValueTrailerView": ("", "", ""), "TemplateParameterListView": ("<", ", ", ">")}
COPY = "#[derive(Clone, Copy, PartialEq, Eq, Structural)]"

ERASE = [("$i_x<'entities>>", "$i_x>", "lifetime erased"), ("impl<'entities>", "impl", "lifetime erased"), ("$i_x<'entities>", "$i_x", "lifetime erased"), ("$i_x<'_>", "$i_x", "lifetime erased"),
         ("&'entities EntityParser", "EntityParser", "shared reference to the interned entities taken as a handle"),
         ("ARef<'entities, $i_t>", "$i_t", "shared borrow of an interned item as the item")]

GUARD = [("if let Ok($i_g) = state.recurse() { $b_x } else", "if state.vx_enter() { let vx_v = { $b_x }; state.vx_leave(); vx_v } else", "guard dropped at the end of its block"),
         ("state: &DisplayState", "state: &mut DisplayState", "interior mutability made explicit"),
         ("Result<(), fmt::Error>", "fmt::Result", "alias")]
OPTMAP = [("self.inner.noexcept.map(|$i_o| $i_p.map(|$i_v| self.entities.value_like($i_w)))",
           "(match self.inner.noexcept { Some($i_o) => Some(match $i_p { Some($i_v) => Some(self.entities.value_like($i_w)), None => None }), None => None })", "Option::map"),
          ("self.inner.$i_f.map(|$i_x| $e)", "(match self.inner.$i_f { Some($i_x) => Some($e), None => None })", "Option::map"),
          ("inner.map(|$i_x| $e)", "(match inner { Some($i_x) => Some($e), None => None })", "Option::map"),
          ("template_parameters.map(|$i_x| $e)", "(match template_parameters { Some($i_x) => Some($e), None => None })", "Option::map"),
          ("v.map(|$i_x| $e)", "(match v { Some($i_x) => Some($e), None => None })", "Option::map")]
MAX = [(".max($e)", ".vx_max($e)", "usize::max")] * 4

def base(name):
    u = Unit(name, rlimit=150)
    for r in ERASE: u.rule(*r)
    u.trust("formatting macros: write! concatenates its literal and displayed pieces; fmt::Formatter takes what is written to it; Display of integers, identifiers and paths is left open", r"""
global size_of usize == 8;
#[verifier::external_body] pub struct VxText { s: String }
impl VxText { pub uninterp spec fn view(&self) -> Seq<char>; }
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
#[verifier::external_body] pub fn vx_lit(s: &str) -> (r: VxText) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_cat(a: VxText, b: VxText) -> (r: VxText) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_fmt<T: VxShow + ?Sized>(x: &T) -> (r: VxText) ensures r@ == x.shown() { unimplemented!() }
pub mod fmt { use vstd::prelude::*; verus! { #[verifier::external_body] pub struct Error {} pub type Result = core::result::Result<(), Error>; } }
#[verifier::external_body] pub struct Formatter { x: u8 }
impl Formatter {
    pub uninterp spec fn out(&self) -> Seq<char>;
    #[verifier::external_body] pub fn vx_write(&mut self, t: VxText) -> (r: fmt::Result) ensures r is Ok ==> final(self).out() == old(self).out() + t@ { unimplemented!() }
}
pub uninterp spec fn decimal(x: int) -> Seq<char>;
pub uninterp spec fn quoted(c: char) -> Seq<char>;
impl VxShow for u32 { open spec fn shown(&self) -> Seq<char> { decimal(*self as int) } }
impl VxShow for i64 { open spec fn shown(&self) -> Seq<char> { decimal(*self as int) } }
impl VxShow for u64 { open spec fn shown(&self) -> Seq<char> { decimal(*self as int) } }
impl VxShow for char { open spec fn shown(&self) -> Seq<char> { seq![*self] } }
#[verifier::external_body] pub fn vx_fmt_debug(x: &&char) -> (r: VxText) ensures r@ == quoted(**x) { unimplemented!() }
""")
    u.raw(r"""
pub open spec fn mx(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
pub trait VxMax: Sized { spec fn n(&self) -> nat; fn vx_max(self, o: Self) -> (r: Self) ensures r.n() == mx(self.n(), o.n()); }
impl VxMax for usize { open spec fn n(&self) -> nat { *self as nat } fn vx_max(self, o: usize) -> (r: usize) { if o > self { o } else { self } } }
""")
    u.raw(r"""
broadcast proof fn seq_assoc(x: Seq<char>, y: Seq<char>, z: Seq<char>) ensures #[trigger] (x + (y + z)) == (x + y) + z { assert(x + (y + z) =~= (x + y) + z); }
broadcast proof fn seq_empty(x: Seq<char>) ensures #[trigger] (x + Seq::<char>::empty()) == x { assert(x + Seq::<char>::empty() =~= x); }
broadcast group vx_seq { seq_assoc, seq_empty }
""")
    u.done = set()
    return u

def keys(u, *names):
    for n in names: u.raw(f"#[verifier::external_body] #[derive(Clone, Copy)] pub struct {n} {{ x: u8 }}")
    u.done |= set(names)

def state(u):
    u.trust("`if let Ok(guard) = state.recurse()` enters its block with the limit lowered by one, if it is not zero, and the guard's drop at the end of the block puts it back (Rust's drop order; recurse and drop themselves are under contract)", r"""
#[verifier::external_body] pub struct DisplayState { x: u8 }
impl DisplayState {
    pub uninterp spec fn r(&self) -> nat;
    #[verifier::external_body] pub fn can_recurse(&self) -> (b: bool) ensures b == (self.r() > 0) { unimplemented!() }
    #[verifier::external_body] pub fn vx_enter(&mut self) -> (b: bool) ensures b == (old(self).r() > 0), b ==> final(self).r() == old(self).r() - 1, !b ==> final(self).r() == old(self).r() { unimplemented!() }
    #[verifier::external_body] pub fn vx_leave(&mut self) ensures final(self).r() == old(self).r() + 1 { unimplemented!() }
}
""")
    u.raw(r"""
// C22: what an entity shows when the limit is r, and the depth it announces
pub uninterp spec fn st<T: ?Sized>(x: &T, r: nat) -> Seq<char>;
pub uninterp spec fn sd<T: ?Sized>(x: &T) -> nat;
pub trait CustomDisplay {
    fn recursion_depth(&self) -> (d: usize) ensures d == sd(self);
    fn display_impl(&self, f: &mut Formatter, state: &mut DisplayState) -> (x: fmt::Result)
        ensures x is Ok ==> final(f).out() == old(f).out() + st(self, old(state).r()) && final(state).r() == old(state).r();
}
""")
    u.trust("induction on the nesting of an entity: its parts (interned before it) are shown in full at the depth they announce", r"""
pub broadcast axiom fn ax_full<T: ?Sized>(x: &T, r: nat) ensures r >= sd(x) ==> #[trigger] st(x, r) == st(x, sd(x));
""")
    u.trust("an absent option shows nothing, a present one its content (the contract discharged on display.rs)", r"""
pub broadcast axiom fn ax_none<T>(x: &Option<T>, r: nat) ensures x is None ==> #[trigger] st(x, r) == Seq::<char>::empty();
pub broadcast axiom fn ax_some<T>(x: &Option<T>, r: nat) ensures x is Some ==> #[trigger] st(x, r) == st(&x->0, r);
pub broadcast axiom fn ax_depth<T>(x: &Option<T>) ensures #[trigger] sd(x) == (if x is Some { sd(&x->0) } else { 0 });
impl<T: CustomDisplay> CustomDisplay for Option<T> {
    #[verifier::external_body] fn recursion_depth(&self) -> usize { unimplemented!() }
    #[verifier::external_body] fn display_impl(&self, f: &mut Formatter, state: &mut DisplayState) -> fmt::Result { unimplemented!() }
}
""")
    u.raw(r"""
#[verifier::external_body] #[derive(Clone, Copy)] pub struct EntityParser { x: u8 }
// number of items of a list
pub uninterp spec fn vlen<T: ?Sized>(x: &T) -> nat;
pub trait VxList {}
pub trait VxMarks { spec fn open_mark(&self) -> Seq<char>; spec fn close_mark(&self) -> Seq<char>; }
""")
    u.trust("lists (the contract discharged on interning/slice.rs): an empty one is flat and shows its marks, another one is at least one level deep", r"""
pub broadcast axiom fn ax_list<T: VxMarks>(x: &T, r: nat) ensures vlen(x) == 0 ==> #[trigger] st(x, r) == x.open_mark() + x.close_mark();
pub broadcast axiom fn ax_flat<T: VxMarks>(x: &T) ensures (vlen(x) == 0) == (#[trigger] sd(x) == 0);
""")
    u.raw("broadcast group vx_ax { ax_full, ax_none, ax_some, ax_depth, ax_list, ax_flat }")
    u.opaque = set()

def opaque_impl(u, name):
    u.raw(f"""impl CustomDisplay for {name} {{
    #[verifier::external_body] fn recursion_depth(&self) -> usize {{ unimplemented!() }}
    #[verifier::external_body] fn display_impl(&self, f: &mut Formatter, state: &mut DisplayState) -> fmt::Result {{ unimplemented!() }}
}}""")

def opaque(u, *names):
    """a view proved elsewhere: what it shows and announces is left open here"""
    for n in names:
        _p, m, key = MAKERS[n]
        k = key.split(": ")[1]
        if k not in u.done: keys(u, k)
        u.raw(f"""#[verifier::external_body] pub struct {n} {{ x: u8 }}
pub uninterp spec fn v_{n}(e: EntityParser, k: {k}) -> {n};
impl EntityParser {{ #[verifier::external_body] pub fn {m}(&self, k: {k}) -> (r: {n}) ensures r == v_{n}(*self, k) {{ unimplemented!() }} }}""")
        if n in ("IdentifierView", "InternedPath", "LiteralView", "ClangLambdaView", "ClangAnonymousEntityView", "SourceLocationView"):
            u.raw(f"pub uninterp spec fn sh_{n}(x: {n}) -> Seq<char>; impl VxShow for {n} {{ open spec fn shown(&self) -> Seq<char> {{ sh_{n}(*self) }} }}")
        elif n == "OperatorView":
            u.raw(r"""pub uninterp spec fn so(x: &OperatorView, c: DisplayContext, r: nat) -> Seq<char>;
impl OperatorView {
    #[verifier::external_body] pub fn recursion_depth(&self) -> (d: usize) ensures d == sd(self) { unimplemented!() }
    #[verifier::external_body] pub fn display(&self, f: &mut Formatter, state: &mut DisplayState, context: DisplayContext) -> (x: fmt::Result)
        ensures x is Ok ==> final(f).out() == old(f).out() + so(self, context, old(state).r()) && final(state).r() == old(state).r() { unimplemented!() }
}
pub broadcast axiom fn ax_op(x: &OperatorView, c: DisplayContext, r: nat) ensures r >= sd(x) ==> #[trigger] so(x, c, r) == so(x, c, sd(x));
""")
        else:
            opaque_impl(u, n)
        if n in LISTS:
            o, _s, c = MARKS[n]
            u.raw(f"""impl VxMarks for {n} {{ open spec fn open_mark(&self) -> Seq<char> {{ "{o}"@ }} open spec fn close_mark(&self) -> Seq<char> {{ "{c}"@ }} }}
impl {n} {{ #[verifier::external_body] pub fn is_empty(&self) -> (b: bool) ensures b == (vlen(self) == 0) {{ unimplemented!() }} }}""")
        u.opaque.add(n)

def lits(*specs):
    out = []
    for s in specs:
        for m in re.findall(r'"(?:[^"\\]|\\.)*"', s):
            if m not in out and m != '""': out.append(m)
    return out

def pieces_of(toks):
    from vx import fmt as F
    return [t.t for t in F.expand(list(toks), {}) if t.k == "str"]

def reveal(spec, path, fn, impl, trait=None):
    out = lits(spec)
    for l in pieces_of(X.find_fn(path, fn, impl, trait).body):
        if l not in out and l != '""': out.append(l)
    return " ".join(f"reveal_strlit({l});" for l in out) + ' reveal_strlit("");'

def cat(*parts): return "Seq::<char>::empty()" + "".join(f" + {p}" for p in parts)

def made(u, path, name, spec, maker=True, rewrites=()):
    """the constructor of a view and the method of EntityParser that calls it, under contract"""
    f = X.find_fn(path, "new", name)
    k0 = re.search(r"\bnew\s*\(\s*(\w+)", X.text(f.sig)).group(1)
    _p, m, key = MAKERS[name]
    kt = key.split(": ")[1]
    u.raw(f"spec fn v_{name}(e: EntityParser, k: {kt}) -> {name} {{ {spec} }}")
    u.fn(path, "new", impl=name, ret="vx_r", contract=f"ensures vx_r == v_{name}(entities, {k0}),", rewrites=OPTMAP + list(rewrites))
    if maker:
        u.fn(path, m, impl="EntityParser", ret="vx_r", contract=f"ensures vx_r == v_{name}(*self, {key.split(': ')[0]}),",
             rewrites=[("::new($i_a, self)", "::new($i_a, *self)", "handle")])

def accessor(u, path, impl, name, spec, rewrites=()):
    u.fn(path, name, impl=impl, ret="vx_r", contract=f"ensures vx_r == ({spec}),", rewrites=OPTMAP + list(rewrites))

def shows(u, path, name, text, rewrites=(), hints=()):
    """Display of a part that does not nest"""
    u.raw(f"spec fn s_{name}(v: {name}) -> Seq<char> {{ {text} }}\nimpl VxShow for {name} {{ closed spec fn shown(&self) -> Seq<char> {{ s_{name}(*self) }} }}")
    u.fn(path, "fmt", impl=name, trait="Display", header=f"impl {name}", rename="vx_display_fmt", ret="x", fmt=True, rewrites=GUARD + list(rewrites), hints=hints,
         contract=f"ensures x is Ok ==> final(f).out() == old(f).out() + s_{name}(*self),",
         outer=f"let ghost out0 = f.out(); proof {{ {reveal(text, path, 'fmt', name, 'Display')} }}",
         tail=f"if vx_ret is Ok {{ assert(f.out() =~= out0 + s_{name}(*self)); }}")

def view(u, path, name, depth, text, rewrites=(), ax="", attrs=""):
    """put the display of a view under contract: its depth and text, each from those of its parts; and the lemma that it is full at its depth"""
    bu = "broadcast use vx_ax;" + (f" broadcast use {ax};" if ax else "")
    u.raw(f"""
spec fn d_{name}(v: {name}) -> nat {{ {depth} }}
spec fn t_{name}(v: {name}, r: nat) -> Seq<char> {{ {text} }}
// C22: at the depth it announces, and above, it is shown in full
proof fn c22_full_{name}(v: {name}, r: nat) requires r >= d_{name}(v), ensures t_{name}(v, r) == t_{name}(v, d_{name}(v)) {{ {bu} }}
""")
    tr = dict(impl=name, trait="CustomDisplay", header=f"impl {name}")
    u.fn(path, "recursion_depth", rename="vx_recursion_depth", ret="d", rewrites=MAX + list(rewrites), contract=f"ensures d == d_{name}(*self),", start=bu, **tr)
    u.fn(path, "display_impl", rename="vx_display_impl", ret="x", fmt=True, attrs=attrs, rewrites=GUARD + list(rewrites),
        contract=f"ensures x is Ok ==> final(f).out() == old(f).out() + t_{name}(*self, old(state).r()) && final(state).r() == old(state).r(),",
        outer=f"let ghost out0 = f.out(); let ghost r0 = state.r(); {bu} broadcast use vx_seq; proof {{ {reveal(text, path, 'display_impl', name, 'CustomDisplay')} }}",
        tail=f"if vx_ret is Ok {{ assert(f.out() == out0 + t_{name}(*self, r0)); }}", **tr)
    u.opaque.add(name)
    opaque_impl(u, name)

def iff(c, t, e="Seq::<char>::empty()"): return f"(if {c} {{ {t} }} else {{ {e} }})"

def make_types():
    u = base("entity_types")
    state(u)
    keys(u, "TypeKey", "DeclaratorKey", "FunctionArgumentsKey", "IdExpression", "LegacyName")
    u.raw("pub uninterp spec fn sh_legacy(l: LegacyName) -> Seq<char>; impl VxShow for LegacyName { open spec fn shown(&self) -> Seq<char> { sh_legacy(*self) } }")
    opaque(u, "FunctionArgumentsView", "DeclaratorView", "IdExpressionView")
    qualifiers(u, own=True)
    u.item(SPEC, "enum", "SimpleType", prefix="#[derive(Clone, Copy)]")
    u.item(SPEC, "struct", "TypeSpecifier", prefix="#[derive(Clone, Copy)]")
    u.item(TYPES, "struct", "TypeLike", prefix="#[derive(Clone, Copy)]")
    u.done |= {"SimpleType", "TypeSpecifier", "TypeLike"}
    u.item(SPEC, "enum", "SimpleTypeView"); u.item(SPEC, "struct", "TypeSpecifierView"); u.item(TYPES, "struct", "TypeView")
    u.trust("the interner gives back the type it was given (the asylum contracts of C05)", """
pub uninterp spec fn raw_type(e: EntityParser, k: TypeKey) -> TypeLike;
impl EntityParser { #[verifier::external_body] pub fn raw_type_like(&self, k: TypeKey) -> (r: TypeLike) ensures r == raw_type(*self, k) { unimplemented!() } }""")
    made(u, SPEC, "SimpleTypeView", "match k { SimpleType::IdExpression(i) => SimpleTypeView::IdExpression(v_IdExpressionView(e, i)), SimpleType::LegacyName(l) => SimpleTypeView::LegacyName(l), SimpleType::LibibertyAuto(n) => SimpleTypeView::LibibertyAuto(n) }")
    view(u, SPEC, "SimpleTypeView", "match v { SimpleTypeView::IdExpression(i) => sd(&i), _ => 0 }",
         'match v { SimpleTypeView::IdExpression(i) => st(&i, r), SimpleTypeView::LegacyName(l) => l.shown(), SimpleTypeView::LibibertyAuto(n) => "auto:"@ + decimal(n as int) }')
    made(u, SPEC, "TypeSpecifierView", "TypeSpecifierView { inner: k, entities: e }")
    accessor(u, SPEC, "TypeSpecifierView", "cv", "self.inner.cv")
    accessor(u, SPEC, "TypeSpecifierView", "simple_type", "v_SimpleTypeView(self.entities, self.inner.simple_type)")
    view(u, SPEC, "TypeSpecifierView", "sd(&v_SimpleTypeView(v.entities, v.inner.simple_type))",
         iff("v.inner.cv != no_cv()", 's_ConstVolatile(v.inner.cv) + " "@') + " + st(&v_SimpleTypeView(v.entities, v.inner.simple_type), r)")
    made(u, TYPES, "TypeView", "TypeView { key: k, inner: raw_type(e, k), entities: e }")
    A, T, D = "v_FunctionArgumentsView(v.entities, v.inner.attributes)", "v_TypeSpecifierView(v.entities, v.inner.type_specifier)", "v_DeclaratorView(v.entities, v.inner.declarator)"
    accessor(u, TYPES, "TypeView", "attributes", A.replace("v.", "self."))
    accessor(u, TYPES, "TypeView", "type_specifier", T.replace("v.", "self."))
    accessor(u, TYPES, "TypeView", "declarator", D.replace("v.", "self."))
    view(u, TYPES, "TypeView", f"mx(mx(sd(&{A}), sd(&{T})), sd(&{D}))",
         iff(f"vlen(&{A}) > 0", f'"__attribute__("@ + st(&{A}, r) + ") "@') + f" + st(&{T}, r) + st(&{D}, r)")
    marks(u, TYPES, "TypeView", "FunctionParametersView")
    return u


def cv_default(u):
    u.trust("the derived default of ConstVolatile is neither const nor volatile", r"""
spec fn no_cv() -> ConstVolatile { ConstVolatile { is_const: false, is_volatile: false } }
impl ConstVolatile { #[verifier::external_body] fn default() -> (r: Self) ensures r == no_cv() { unimplemented!() } }
""")

def qualifiers(u, own=False):
    """ConstVolatile and Reference; own: with their Display under contract"""
    u.item(QUAL, "struct", "ConstVolatile", prefix=COPY)
    u.item(QUAL, "enum", "Reference", prefix=COPY)
    u.done |= {"ConstVolatile", "Reference"}
    cv_default(u)
    CVT = iff("v.is_const", '"const"@') + " + " + iff("v.is_const && v.is_volatile", '" "@') + " + " + iff("v.is_volatile", '"volatile"@')
    RT = 'match v { Reference::None => Seq::<char>::empty(), Reference::LValue => "&"@, Reference::RValue => "&&"@ }'
    if own:
        shows(u, QUAL, "ConstVolatile", CVT)
        shows(u, QUAL, "Reference", RT)
    else:
        u.trust("Display of cv and reference qualifiers (discharged in the unit on types)")
        for n, t in (("ConstVolatile", CVT), ("Reference", RT)):
            u.raw(f"spec fn s_{n}(v: {n}) -> Seq<char> {{ {t} }}\nimpl VxShow for {n} {{ closed spec fn shown(&self) -> Seq<char> {{ s_{n}(*self) }} }}")

def own(u, path, kind, *names):
    for n in names:
        u.item(path, kind, n, prefix="#[derive(Clone, Copy)]")
        u.done.add(n)

def make_declarators():
    u = base("entity_declarators")
    state(u)
    qualifiers(u)
    keys(u, "NestedNameSpecifier", "ScopesKey", "ValueKey", "FunctionSignature", "DeclaratorKey")
    opaque(u, "NestedNameSpecifierView", "ScopesView", "ValueView", "FunctionSignatureView", "DeclaratorView")
    u.trust("whether a nested name specifier is rooted, and its scopes (discharged in the unit on names)", r"""
pub uninterp spec fn rooted(x: &NestedNameSpecifierView) -> bool;
pub uninterp spec fn scopes_of(x: &NestedNameSpecifierView) -> ScopesView;
impl NestedNameSpecifierView {
    #[verifier::external_body] pub fn is_rooted(&self) -> (b: bool) ensures b == rooted(self) { unimplemented!() }
    #[verifier::external_body] pub fn scopes(&self) -> (r: ScopesView) ensures r == scopes_of(self) { unimplemented!() }
}""")
    own(u, DECL, "enum", "DeclOperator")
    u.item(DECL, "enum", "DeclOperatorView")
    MAKERS["DeclOperatorView"] = (DECL, "decl_operator", "dop: DeclOperator")
    made(u, DECL, "DeclOperatorView", """match k {
    DeclOperator::ConstVolatile(cv) => DeclOperatorView::ConstVolatile(cv),
    DeclOperator::Pointer { path, cv, restrict } => DeclOperatorView::Pointer { path: v_NestedNameSpecifierView(e, path), cv, restrict },
    DeclOperator::Reference(r) => DeclOperatorView::Reference(r),
    DeclOperator::Array(v) => DeclOperatorView::Array(match v { Some(v) => Some(v_ValueView(e, v)), None => None }),
    DeclOperator::Function(f) => DeclOperatorView::Function(v_FunctionSignatureView(e, f)),
    DeclOperator::Parenthesized(d) => DeclOperatorView::Parenthesized(v_DeclaratorView(e, d)),
    DeclOperator::VectorSize(v) => DeclOperatorView::VectorSize(v_ValueView(e, v)) }""", maker=False)
    view(u, DECL, "DeclOperatorView", """match v { DeclOperatorView::Pointer { path, .. } => sd(&path), DeclOperatorView::Array(a) => sd(&a), DeclOperatorView::Function(f) => sd(&f),
    DeclOperatorView::Parenthesized(d) => sd(&d), DeclOperatorView::VectorSize(s) => sd(&s), _ => 0 }""",
    """match v { DeclOperatorView::ConstVolatile(cv) => " "@ + cv.shown(),
    DeclOperatorView::Pointer { path, cv, restrict } => (if rooted(&path) || vlen(&scopes_of(&path)) > 0 { " "@ + st(&path, r) } else { Seq::<char>::empty() }) + "*"@
        + (if cv != no_cv() { " "@ + cv.shown() } else { Seq::<char>::empty() }) + (if restrict { " restrict"@ } else { Seq::<char>::empty() }),
    DeclOperatorView::Reference(q) => q.shown(),
    DeclOperatorView::Array(a) => "["@ + st(&a, r) + "]"@,
    DeclOperatorView::Function(f) => st(&f, r),
    DeclOperatorView::Parenthesized(d) => " ("@ + st(&d, r) + ")"@,
    DeclOperatorView::VectorSize(s) => " __vector("@ + st(&s, r) + ")"@ }""")
    marks(u, DECL, "DeclOperatorView", "DeclaratorView")
    return u

def marks(u, path, item, lst):
    """the marks of the list of these items, as the source gives them"""
    got = []
    for c in ("HEADER", "SEPARATOR", "TRAILER"):
        got.append(X.find_const(path, f"DISPLAY_{c}", item, "SliceItemView"))
    want = [f'"{m}"' for m in MARKS[lst]]
    r = " ".join(f"reveal_strlit({l});" for l in dict.fromkeys(got + want))
    body = " ".join(f"assert({a}@ =~= {b}@);" for a, b in zip(got, want))
    u.raw(f"// C22: what surrounds and separates the items of {lst}\nproof fn c22_marks_{lst}() ensures {', '.join(f'{a}@ == {b}@' for a, b in zip(got, want))} {{ {r} {body} }}")
    u.items.append(f"{path}::SliceItemView for {item}")

def make_functions():
    u = base("entity_functions")
    state(u)
    qualifiers(u)
    keys(u, "IdentifierKey", "FunctionParametersKey", "ValueKey", "TypeKey", "TemplateParameterListKey")
    opaque(u, "IdentifierView", "FunctionParametersView", "ValueView", "TypeView", "TemplateParameterListView")
    own(u, FUN, "struct", "FunctionParameterSet", "FunctionSignature")
    u.item(FUN, "struct", "FunctionSignatureView")
    made(u, FUN, "FunctionSignatureView", "FunctionSignatureView { inner: k, entities: e }")
    opt = lambda f, w: f"(match v.inner.{f} {{ Some(k) => Some({w}(v.entities, k)), None => None }})"
    ABI, RET = opt("abi", "v_IdentifierView"), opt("trailing_return", "v_TypeView")
    NX = "(match v.inner.noexcept { Some(o) => Some(match o { Some(k) => Some(v_ValueView(v.entities, k)), None => None }), None => None })"
    P = "v_FunctionParametersView(v.entities, v.inner.parameter_set.parameters)"
    sf = lambda t: t.replace("v.", "self.")
    accessor(u, FUN, "FunctionSignatureView", "abi", sf(ABI))
    accessor(u, FUN, "FunctionSignatureView", "parameters", sf(P))
    accessor(u, FUN, "FunctionSignatureView", "variadic", "self.inner.parameter_set.variadic")
    accessor(u, FUN, "FunctionSignatureView", "cv", "self.inner.cv")
    accessor(u, FUN, "FunctionSignatureView", "reference", "self.inner.reference")
    accessor(u, FUN, "FunctionSignatureView", "noexcept", sf(NX))
    accessor(u, FUN, "FunctionSignatureView", "trailing_return", sf(RET))
    E = "Seq::<char>::empty()"
    view(u, FUN, "FunctionSignatureView", f"mx(mx(sd(&{P}), sd(&{NX})), sd(&{RET}))",
        f"""(match {ABI} {{ Some(a) => "[abi:"@ + a.shown() + "]"@, None => {E} }}) + st(&{P}, r)
    + (if v.inner.parameter_set.variadic {{ if vlen(&{P}) == 0 {{ "..."@ }} else if r > 0 {{ ", ..."@ }} else {{ {E} }} }} else {{ {E} }}) + ")"@
    + (if v.inner.cv != no_cv() {{ " "@ + v.inner.cv.shown() }} else {{ {E} }}) + (if v.inner.reference != Reference::None {{ " "@ + v.inner.reference.shown() }} else {{ {E} }})
    + (match {NX} {{ Some(o) => " noexcept"@ + (match o {{ Some(x) => "("@ + st(&x, r) + ")"@, None => {E} }}), None => {E} }})
    + (match {RET} {{ Some(t) => " -> "@ + st(&t, r), None => {E} }})""")
    # templates
    u.raw("pub type TemplateParameters = Option<TemplateParameterListKey>;")
    own(u, TPL, "enum", "TemplateParameter")
    u.item(TPL, "struct", "TemplateParametersView"); u.item(TPL, "enum", "TemplateParameterView")
    MAKERS["TemplateParameterView"] = (TPL, "template_parameter", "tp: TemplateParameter")
    made(u, TPL, "TemplateParameterView", "match k { TemplateParameter::TypeLike(t) => TemplateParameterView::TypeLike(v_TypeView(e, t)), TemplateParameter::ValueLike(v) => TemplateParameterView::ValueLike(v_ValueView(e, v)) }", maker=False)
    view(u, TPL, "TemplateParameterView", "match v { TemplateParameterView::TypeLike(t) => sd(&t), TemplateParameterView::ValueLike(x) => sd(&x) }",
         "match v { TemplateParameterView::TypeLike(t) => st(&t, r), TemplateParameterView::ValueLike(x) => st(&x, r) }")
    made(u, TPL, "TemplateParametersView", "TemplateParametersView(match k { Some(l) => Some(v_TemplateParameterListView(e, l)), None => None })")
    view(u, TPL, "TemplateParametersView", "match v.0 { Some(l) => sd(&l), None => 1 }", 'match v.0 { Some(l) => st(&l, r), None => if r > 0 { "<, void>"@ } else { "<…>"@ } }')
    marks(u, TPL, "TemplateParameterView", "TemplateParameterListView")
    return u

def make_names():
    u = base("entity_names")
    state(u)
    keys(u, "IdentifierKey", "Operator", "TemplateParameters", "ValueKey", "AnonymousEntity", "FunctionSignature", "ScopesKey")
    u.item(OPS, "enum", "DisplayContext", prefix=COPY)
    u.raw("mod operators { pub(crate) use super::DisplayContext; }")
    opaque(u, "IdentifierView", "OperatorView", "TemplateParametersView", "ValueView", "AnonymousEntityView", "FunctionSignatureView", "ScopesView")
    own(u, UNQ, "enum", "UnqualifiedId")
    own(u, SCO, "struct", "NestedNameSpecifier", "IdExpression", "Scope")
    u.item(UNQ, "enum", "UnqualifiedIdView")
    u.item(SCO, "struct", "NestedNameSpecifierView"); u.item(SCO, "struct", "IdExpressionView"); u.item(SCO, "struct", "ScopeView")
    TP = "(match template_parameters { Some(tp) => Some(v_TemplateParametersView(e, tp)), None => None })"
    made(u, UNQ, "UnqualifiedIdView", f"""match k {{
    UnqualifiedId::Named {{ is_destructor, id, template_parameters }} => UnqualifiedIdView::Named {{ is_destructor, id: v_IdentifierView(e, id), template_parameters: {TP} }},
    UnqualifiedId::Operator {{ operator, template_parameters }} => UnqualifiedIdView::Operator {{ operator: v_OperatorView(e, operator), template_parameters: {TP} }},
    UnqualifiedId::Decltype(v) => UnqualifiedIdView::Decltype(v_ValueView(e, v)),
    UnqualifiedId::Anonymous(a) => UnqualifiedIdView::Anonymous(v_AnonymousEntityView(e, a)) }}""")
    view(u, UNQ, "UnqualifiedIdView", """match v { UnqualifiedIdView::Named { template_parameters, .. } => sd(&template_parameters),
    UnqualifiedIdView::Operator { operator, template_parameters } => mx(sd(&operator), sd(&template_parameters)),
    UnqualifiedIdView::Decltype(x) => sd(&x), UnqualifiedIdView::Anonymous(a) => sd(&a) }""",
    """match v { UnqualifiedIdView::Named { is_destructor, id, template_parameters } => (if is_destructor { "~"@ } else { Seq::<char>::empty() }) + id.shown() + st(&template_parameters, r),
    UnqualifiedIdView::Operator { operator, template_parameters } => so(&operator, DisplayContext::Declaration, r) + st(&template_parameters, r),
    UnqualifiedIdView::Decltype(x) => "decltype("@ + st(&x, r) + ")"@, UnqualifiedIdView::Anonymous(a) => st(&a, r) }""", ax="ax_op")
    made(u, SCO, "NestedNameSpecifierView", "NestedNameSpecifierView { inner: k, entities: e }")
    accessor(u, SCO, "NestedNameSpecifierView", "is_rooted", "self.inner.rooted")
    S_ = "v_ScopesView(v.entities, v.inner.scopes)"
    accessor(u, SCO, "NestedNameSpecifierView", "scopes", S_.replace("v.", "self."))
    view(u, SCO, "NestedNameSpecifierView", f"sd(&{S_})", f"""if r > 0 || vlen(&{S_}) == 0 {{ (if v.inner.rooted {{ "::"@ }} else {{ Seq::<char>::empty() }}) + st(&{S_}, r) }} else {{ "…::"@ }}""")
    made(u, SCO, "IdExpressionView", "IdExpressionView { inner: k, entities: e }")
    N, I = "v_NestedNameSpecifierView(v.entities, v.inner.path)", "v_UnqualifiedIdView(v.entities, v.inner.id)"
    accessor(u, SCO, "IdExpressionView", "path", N.replace("v.", "self."))
    accessor(u, SCO, "IdExpressionView", "id", I.replace("v.", "self."))
    view(u, SCO, "IdExpressionView", f"mx(sd(&{N}), sd(&{I}))", f"st(&{N}, r) + st(&{I}, r)")
    F_ = "(match v.inner.function_signature { Some(s) => Some(v_FunctionSignatureView(v.entities, s)), None => None })"
    MAKERS["ScopeView"] = (SCO, "scope", "scope: Scope")
    made(u, SCO, "ScopeView", "ScopeView { inner: k, entities: e }", maker=False)
    accessor(u, SCO, "ScopeView", "id", I.replace("v.", "self."))
    accessor(u, SCO, "ScopeView", "function_signature", F_.replace("v.", "self."))
    view(u, SCO, "ScopeView", f"mx(sd(&{I}), sd(&{F_}))", f'st(&{I}, r) + st(&{F_}, r) + "::"@')
    marks(u, SCO, "ScopeView", "ScopesView")
    return u

def make_values():
    u = base("entity_values")
    state(u)
    keys(u, "Literal", "ValueKey", "Operator", "NewExpression", "IdExpression", "TypeKey", "ValueTrailerKey", "FunctionArgumentsKey", "UnqualifiedId")
    u.item(OPS, "enum", "DisplayContext", prefix=COPY)
    u.raw("mod operators { pub(crate) use super::DisplayContext; }")
    opaque(u, "LiteralView", "OperatorView", "NewExpressionView", "IdExpressionView", "TypeView", "ValueTrailerView", "FunctionArgumentsView", "UnqualifiedIdView")
    own(u, VAL, "enum", "ValueHeader", "AfterValue"); own(u, VAL, "struct", "ValueLike")
    u.item(VAL, "struct", "ValueView"); u.item(VAL, "enum", "ValueHeaderView"); u.item(VAL, "enum", "AfterValueView")
    u.trust("the interner gives back the value it was given (the asylum contracts of C05)", """
pub uninterp spec fn raw_value(e: EntityParser, k: ValueKey) -> ValueLike;
impl EntityParser { #[verifier::external_body] fn raw_value_like(&self, k: ValueKey) -> (r: ValueLike) ensures r == raw_value(*self, k) { unimplemented!() } }""".replace("pub uninterp", "uninterp"))
    made(u, VAL, "ValueView", "ValueView { key: k, inner: raw_value(e, k), entities: e }")
    made(u, VAL, "ValueHeaderView", """match k { ValueHeader::Literal(l) => ValueHeaderView::Literal(v_LiteralView(e, l)), ValueHeader::Parenthesized(v) => ValueHeaderView::Parenthesized(v_ValueView(e, v)),
    ValueHeader::UnaryOp(o, v) => ValueHeaderView::UnaryOp(v_OperatorView(e, o), v_ValueView(e, v)), ValueHeader::NewExpression(n) => ValueHeaderView::NewExpression(v_NewExpressionView(e, n)),
    ValueHeader::IdExpression(i) => ValueHeaderView::IdExpression(v_IdExpressionView(e, i)), ValueHeader::Ellipsis => ValueHeaderView::Ellipsis,
    ValueHeader::SizeOf(t) => ValueHeaderView::SizeOf(v_TypeView(e, t)), ValueHeader::DeclVal(t) => ValueHeaderView::DeclVal(v_TypeView(e, t)) }""")
    H, T = "v_ValueHeaderView(v.entities, v.inner.header)", "v_ValueTrailerView(v.entities, v.inner.trailer)"
    accessor(u, VAL, "ValueView", "header", H.replace("v.", "self."))
    accessor(u, VAL, "ValueView", "trailer", T.replace("v.", "self."))
    view(u, VAL, "ValueView", f"mx(sd(&{H}), sd(&{T}))", f"st(&{H}, r) + st(&{T}, r)")
    view(u, VAL, "ValueHeaderView", """match v { ValueHeaderView::Literal(_) => 0, ValueHeaderView::Parenthesized(x) => sd(&x), ValueHeaderView::UnaryOp(o, x) => mx(sd(&o), sd(&x)),
    ValueHeaderView::NewExpression(n) => sd(&n), ValueHeaderView::IdExpression(i) => sd(&i), ValueHeaderView::Ellipsis => 0, ValueHeaderView::SizeOf(t) => sd(&t), ValueHeaderView::DeclVal(t) => sd(&t) }""",
    """match v { ValueHeaderView::Literal(l) => l.shown(), ValueHeaderView::Parenthesized(x) => "("@ + st(&x, r) + ")"@, ValueHeaderView::UnaryOp(o, x) => so(&o, DisplayContext::PrefixUsage, r) + st(&x, r),
    ValueHeaderView::NewExpression(n) => st(&n, r), ValueHeaderView::IdExpression(i) => st(&i, r), ValueHeaderView::Ellipsis => "..."@,
    ValueHeaderView::SizeOf(t) => "sizeof("@ + st(&t, r) + ")"@, ValueHeaderView::DeclVal(t) => "declval("@ + st(&t, r) + ")"@ }""", ax="ax_op")
    MAKERS["AfterValueView"] = (VAL, "after_value", "av: AfterValue")
    made(u, VAL, "AfterValueView", """match k { AfterValue::ArrayIndex(v) => AfterValueView::ArrayIndex(v_ValueView(e, v)), AfterValue::FunctionCall(a) => AfterValueView::FunctionCall(v_FunctionArgumentsView(e, a)),
    AfterValue::BinaryOp(o, v) => AfterValueView::BinaryOp(v_OperatorView(e, o), v_ValueView(e, v)), AfterValue::TernaryOp(a, b) => AfterValueView::TernaryOp(v_ValueView(e, a), v_ValueView(e, b)),
    AfterValue::MemberAccess(m) => AfterValueView::MemberAccess(v_UnqualifiedIdView(e, m)), AfterValue::PostfixOp(o) => AfterValueView::PostfixOp(v_OperatorView(e, o)),
    AfterValue::Ellipsis => AfterValueView::Ellipsis }""", maker=False)
    view(u, VAL, "AfterValueView", """match v { AfterValueView::ArrayIndex(i) => sd(&i), AfterValueView::FunctionCall(a) => sd(&a), AfterValueView::BinaryOp(o, x) => mx(sd(&o), sd(&x)),
    AfterValueView::TernaryOp(a, b) => mx(sd(&a), sd(&b)), AfterValueView::MemberAccess(m) => sd(&m), AfterValueView::PostfixOp(o) => sd(&o), AfterValueView::Ellipsis => 0 }""",
    """match v { AfterValueView::ArrayIndex(i) => "["@ + st(&i, r) + "]"@, AfterValueView::FunctionCall(a) => st(&a, r), AfterValueView::BinaryOp(o, x) => so(&o, DisplayContext::BinaryUsage, r) + st(&x, r),
    AfterValueView::TernaryOp(a, b) => " ? "@ + st(&a, r) + " : "@ + st(&b, r), AfterValueView::MemberAccess(m) => "."@ + st(&m, r),
    AfterValueView::PostfixOp(o) => so(&o, DisplayContext::PostfixUsage, r), AfterValueView::Ellipsis => "..."@ }""", ax="ax_op")
    marks(u, VAL, "AfterValueView", "ValueTrailerView")
    marks(u, VAL, "ValueView", "FunctionArgumentsView")
    return u

def make_operators():
    u = base("entity_operators")
    state(u)
    keys(u, "IdentifierKey", "TypeKey", "FunctionArgumentsKey")
    opaque(u, "IdentifierView", "TypeView", "FunctionArgumentsView")
    u.item(OPS, "enum", "Symbol", prefix=COPY)
    u.item(OPS, "enum", "DisplayContext", prefix=COPY)
    own(u, OPS, "enum", "Operator"); u.item(OPS, "enum", "OperatorView")
    own(u, USE, "struct", "NewExpression"); u.item(USE, "struct", "NewExpressionView")
    sym = dict(AddPlus="+", SubNeg="-", MulDeref="*", Div="/", Mod="%", Xor="^", AndRef="&", Or="|", BitNot="~", Not="!", AssignEq="=", Less="<", Greater=">", Comma=",")
    shows(u, OPS, "Symbol", "match v { " + ", ".join(f"Symbol::{k} => seq!['{c}']" for k, c in sym.items()) + " }")
    made(u, OPS, "OperatorView", """match k { Operator::Basic { symbol, twice, equal } => OperatorView::Basic { symbol, twice, equal }, Operator::Deref { star } => OperatorView::Deref { star },
    Operator::Spaceship => OperatorView::Spaceship, Operator::CallIndex { is_index } => OperatorView::CallIndex { is_index }, Operator::CustomLiteral(i) => OperatorView::CustomLiteral(v_IdentifierView(e, i)),
    Operator::NewDelete { is_delete, array } => OperatorView::NewDelete { is_delete, array }, Operator::CoAwait => OperatorView::CoAwait, Operator::Conversion(t) => OperatorView::Conversion(v_TypeView(e, t)) }""")
    D, P, B = ("c == DisplayContext::" + x for x in ("Declaration", "PrefixUsage", "BinaryUsage"))
    E = "Seq::<char>::empty()"
    text = f"""(if {D} {{ "operator"@ }} else {{ {E} }}) + match v {{
    OperatorView::Basic {{ symbol, twice, equal }} => (if {B} {{ " "@ }} else {{ {E} }}) + symbol.shown() + (if twice {{ symbol.shown() }} else {{ {E} }}) + (if equal {{ "="@ }} else {{ {E} }}) + (if {B} {{ " "@ }} else {{ {E} }}),
    OperatorView::Deref {{ star }} => "->"@ + (if star {{ "*"@ }} else {{ {E} }}),
    OperatorView::Spaceship => (if {B} {{ " "@ }} else {{ {E} }}) + "<=>"@ + (if {B} {{ " "@ }} else {{ {E} }}),
    OperatorView::CallIndex {{ is_index }} => if is_index {{ "[]"@ }} else {{ "()"@ }},
    OperatorView::CustomLiteral(i) => (if {D} {{ "\\"\\" "@ }} else {{ {E} }}) + i.shown(),
    OperatorView::NewDelete {{ is_delete, array }} => (if {D} {{ " "@ }} else {{ {E} }}) + (if is_delete {{ "delete"@ }} else {{ "new"@ }}) + (if array {{ "[]"@ }} else {{ {E} }}) + (if {P} {{ " "@ }} else {{ {E} }}),
    OperatorView::CoAwait => (if {D} {{ " "@ }} else {{ {E} }}) + "co_await"@ + (if {P} {{ " "@ }} else {{ {E} }}),
    OperatorView::Conversion(t) => (if {D} {{ " "@ }} else if {P} {{ "("@ }} else {{ {E} }}) + st(&t, r) + (if {P} {{ ")"@ }} else {{ {E} }}) }}"""
    u.raw(f"""
spec fn d_OperatorView(v: OperatorView) -> nat {{ match v {{ OperatorView::Conversion(t) => sd(&t), _ => 0 }} }}
spec fn t_OperatorView(v: OperatorView, c: DisplayContext, r: nat) -> Seq<char> {{ {text} }}
// C22: at the depth it announces, and above, an operator is shown in full
proof fn c22_full_OperatorView(v: OperatorView, c: DisplayContext, r: nat) requires r >= d_OperatorView(v), ensures t_OperatorView(v, c, r) == t_OperatorView(v, c, d_OperatorView(v)) {{ broadcast use vx_ax; }}
""")
    u.fn(OPS, "recursion_depth", impl="OperatorView", ret="d", contract="ensures d == d_OperatorView(*self),", start="broadcast use vx_ax;")
    u.fn(OPS, "display", impl="OperatorView", ret="x", fmt=True, rewrites=GUARD,
         contract="ensures x is Ok ==> final(f).out() == old(f).out() + t_OperatorView(*self, context, old(state).r()) && final(state).r() == old(state).r(),",
         outer=f"let ghost out0 = f.out(); let ghost r0 = state.r(); broadcast use vx_ax; broadcast use vx_seq; proof {{ {reveal(text, OPS, 'display', 'OperatorView')} }}",
         tail="if vx_ret is Ok { assert(f.out() == out0 + t_OperatorView(*self, context, r0)); }")
    made(u, USE, "NewExpressionView", "NewExpressionView { inner: k, entities: e }")
    P_, T_, C_ = ("(match v.inner.placement { Some(a) => Some(v_FunctionArgumentsView(v.entities, a)), None => None })", "v_TypeView(v.entities, v.inner.ty)",
                  "(match v.inner.constructor { Some(a) => Some(v_FunctionArgumentsView(v.entities, a)), None => None })")
    accessor(u, USE, "NewExpressionView", "rooted", "self.inner.rooted")
    for n, x in (("placement", P_), ("ty", T_), ("constructor", C_)): accessor(u, USE, "NewExpressionView", n, x.replace("v.", "self."))
    view(u, USE, "NewExpressionView", f"mx(mx(sd(&{P_}), sd(&{T_})), sd(&{C_}))",
         f"""(if v.inner.rooted {{ "::"@ }} else {{ {E} }}) + "new"@ + st(&{P_}, r) + " "@ + st(&{T_}, r) + st(&{C_}, r)""")
    return u

def make_anonymous():
    u = base("entity_anonymous")
    state(u)
    keys(u, "IdentifierKey", "PathKey", "FunctionSignature", "TypeKey")
    opaque(u, "IdentifierView", "InternedPath", "FunctionSignatureView", "TypeView")
    u.raw("pub type Line = u32; pub type Column = u32;")
    u.item(ANON, "struct", "SourceLocation", prefix="#[derive(Clone, Copy)]")
    own(u, ANON, "struct", "ClangLambda", "LibibertyLambda", "ClangAnonymousEntity", "LibibertyUnnamedType"); own(u, ANON, "enum", "AnonymousEntity")
    for n in ("SourceLocationView", "ClangLambdaView", "LibibertyLambdaView", "ClangAnonymousEntityView"): u.item(ANON, "struct", n)
    u.item(ANON, "enum", "AnonymousEntityView")
    E = "Seq::<char>::empty()"
    sf = lambda t: t.replace("v.", "self.")
    made(u, ANON, "SourceLocationView", "SourceLocationView { inner: k, entities: e }")
    accessor(u, ANON, "SourceLocationView", "file", "v_InternedPath(self.entities, self.inner.file)")
    accessor(u, ANON, "SourceLocationView", "location", "self.inner.location")
    shows(u, ANON, "SourceLocationView", 'v_InternedPath(v.entities, v.inner.file).shown() + ":"@ + decimal(v.inner.location.0 as int) + ":"@ + decimal(v.inner.location.1 as int)')
    made(u, ANON, "ClangLambdaView", "ClangLambdaView { inner: k, entities: e }")
    accessor(u, ANON, "ClangLambdaView", "source_location", "v_SourceLocationView(self.entities, self.inner.0)")
    shows(u, ANON, "ClangLambdaView", '"(lambda at "@ + v_SourceLocationView(v.entities, v.inner.0).shown() + ")"@')
    made(u, ANON, "LibibertyLambdaView", "LibibertyLambdaView { inner: k, entities: e }")
    S_ = "v_FunctionSignatureView(v.entities, v.inner.signature)"
    accessor(u, ANON, "LibibertyLambdaView", "signature", sf(S_))
    accessor(u, ANON, "LibibertyLambdaView", "id", "self.inner.id")
    view(u, ANON, "LibibertyLambdaView", f"sd(&{S_})", f'"{{lambda"@ + st(&{S_}, r) + "#"@ + decimal(v.inner.id as int) + "}}"@')
    made(u, ANON, "ClangAnonymousEntityView", "ClangAnonymousEntityView { inner: k, entities: e }")
    ID = "(match v.inner.identifier { Some(i) => Some(v_IdentifierView(v.entities, i)), None => None })"
    LO = "(match v.inner.location { Some(l) => Some(v_SourceLocationView(v.entities, l)), None => None })"
    accessor(u, ANON, "ClangAnonymousEntityView", "identifier", sf(ID))
    accessor(u, ANON, "ClangAnonymousEntityView", "source_location", sf(LO))
    shows(u, ANON, "ClangAnonymousEntityView", f"""\"(anonymous"@ + (match {ID} {{ Some(i) => " "@ + i.shown(), None => if v.inner.location is Some {{ " entity"@ }} else {{ {E} }} }})
    + (match {LO} {{ Some(l) => " at "@ + l.shown(), None => {E} }}) + ")"@""")
    shows(u, ANON, "LibibertyUnnamedType", '"{unnamed type#"@ + decimal(v.0 as int) + "}"@')
    made(u, ANON, "AnonymousEntityView", """match k { AnonymousEntity::ClangLambda(c) => AnonymousEntityView::ClangLambda(v_ClangLambdaView(e, c)), AnonymousEntity::ClangOther(o) => AnonymousEntityView::ClangOther(v_ClangAnonymousEntityView(e, o)),
    AnonymousEntity::LibibertyLambda(l) => AnonymousEntityView::LibibertyLambda(v_LibibertyLambdaView(e, l)), AnonymousEntity::LibibertyUnnamed(n) => AnonymousEntityView::LibibertyUnnamed(n) }""")
    view(u, ANON, "AnonymousEntityView", "match v { AnonymousEntityView::LibibertyLambda(l) => sd(&l), _ => 0 }",
         "match v { AnonymousEntityView::ClangLambda(c) => c.shown(), AnonymousEntityView::ClangOther(o) => o.shown(), AnonymousEntityView::LibibertyLambda(l) => st(&l, r), AnonymousEntityView::LibibertyUnnamed(n) => n.shown() }")
    # the entity as a whole
    u.raw("pub type EntityKey = Option<TypeKey>;")
    u.item(LIB, "struct", "EntityView")
    MAKERS["EntityView"] = (LIB, "entity", "key: EntityKey")
    made(u, LIB, "EntityView", "EntityView(match k { Some(t) => Some(v_TypeView(e, t)), None => None })")
    view(u, LIB, "EntityView", "match v.0 { Some(t) => sd(&t), None => 0 }", 'match v.0 { Some(t) => st(&t, r), None => "<unknown>"@ }')
    return u

def make_leaves():
    u = base("entity_leaves")
    keys(u, "IdentifierKey")
    u.raw("#[verifier::external_body] #[derive(Clone, Copy)] pub struct EntityParser { x: u8 }")
    u.opaque = set()
    opaque(u, "IdentifierView")
    u.item(LIT, "enum", "LiteralValue", prefix="#[derive(Clone, Copy)]")
    own(u, LIT, "struct", "Literal")
    u.item(LIT, "struct", "LiteralView")
    shows(u, LIT, "LiteralValue", "match v { LiteralValue::I64(i) => decimal(i as int), LiteralValue::U64(n) => decimal(n as int), LiteralValue::Char(c) => quoted(c) }")
    made(u, LIT, "LiteralView", "LiteralView { inner: k, entities: e }")
    SX = "(match v.inner.custom_suffix { Some(i) => Some(v_IdentifierView(v.entities, i)), None => None })"
    accessor(u, LIT, "LiteralView", "value", "self.inner.value")
    accessor(u, LIT, "LiteralView", "custom_suffix", SX.replace("v.", "self."))
    shows(u, LIT, "LiteralView", f"v.inner.value.shown() + (match {SX} {{ Some(i) => i.shown(), None => Seq::<char>::empty() }})")
    u.item(LEGACY, "enum", "LegacyName", prefix="#[derive(Clone, Copy)]")
    leg = dict(SignedShort="short", UnsignedShort="unsigned short", SignedInt="int", UnsignedInt="unsigned int", SignedLong="long", UnsignedLong="unsigned long", SignedLongLong="long long",
               UnsignedLongLong="unsigned long long", SignedInt128="__int128", UnsignedInt128="unsigned __int128", Char="char", SignedChar="signed char", UnsignedChar="unsigned char", Float="float",
               Double="double", LongDouble="long double", FloatComplex="float _Complex", DoubleComplex="double _Complex", LongDoubleComplex="long double _Complex")
    shows(u, LEGACY, "LegacyName", "match v { " + ", ".join(f'LegacyName::{k} => "{t}"@' for k, t in leg.items()) + " }")
    return u

def make_lists():
    u = base("entity_lists")
    state(u)
    u.trust("std iterators over a slice: map applies its closure to each item in order, peekable/next/peek/count/max as documented", r"""
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VxIter<T> { x: Vec<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn left(&self) -> Seq<T>;
    #[verifier::external_body] pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VxIter<U>) requires forall|x: T| self.left().contains(x) ==> call_requires(f, (x,)),
        ensures r.left().len() == self.left().len(), forall|i: int| #![trigger r.left()[i]] #![trigger self.left()[i]] 0 <= i < r.left().len() ==> call_ensures(f, (self.left()[i],), r.left()[i]) { unimplemented!() }
    #[verifier::external_body] pub fn peekable(self) -> (r: Self) ensures r.left() == self.left() { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<T>) ensures old(self).left().len() == 0 ==> r is None && final(self).left() == old(self).left(),
        old(self).left().len() > 0 ==> r == Some(old(self).left()[0]) && final(self).left() == old(self).left().drop_first() { unimplemented!() }
    #[verifier::external_body] pub fn peek(&mut self) -> (r: Option<VxSome>) ensures r is Some == (old(self).left().len() > 0), final(self).left() == old(self).left() { unimplemented!() }
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self.left().len() { unimplemented!() }
}
#[verifier::external_body] pub struct VxSome { x: u8 }
impl VxIter<usize> {
    #[verifier::external_body] pub fn max(self) -> (r: Option<usize>) ensures (r is None) == (self.left().len() == 0),
        r is Some ==> self.left().contains(r->0) && forall|i: int| 0 <= i < self.left().len() ==> #[trigger] self.left()[i] <= r->0 { unimplemented!() }
}
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VxItems<T> { x: Vec<T> }
impl<T> VxItems<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub fn iter(&self) -> (r: VxIter<&T>) ensures r.left().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *(#[trigger] r.left()[i]) == self@[i] { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
pub trait SliceItemView: CustomDisplay + Sized {
    type Inner;
    spec fn made(i: Self::Inner, e: EntityParser) -> Self;
    spec fn header() -> Seq<char>; spec fn separator() -> Seq<char>; spec fn trailer() -> Seq<char>;
    fn vx_new(inner: Self::Inner, entities: EntityParser) -> (r: Self) ensures r == Self::made(inner, entities);
    fn vx_header() -> (r: &'static str) ensures r@ == Self::header();
    fn vx_separator() -> (r: &'static str) ensures r@ == Self::separator();
    fn vx_trailer() -> (r: &'static str) ensures r@ == Self::trailer();
}
#[verifier::external_body] pub fn vx_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
""")
    u.trust("an entity is nested less than usize::MAX deep")
    u.raw(r"""
#[verifier::reject_recursive_types(ItemView)] pub struct SliceView<ItemView: SliceItemView> { inner: VxItems<ItemView::Inner>, entities: EntityParser }
impl<ItemView: SliceItemView> SliceView<ItemView> {
    spec fn n(&self) -> nat { self.inner@.len() }
    spec fn at(&self, i: int) -> ItemView { ItemView::made(self.inner@[i], self.entities) }
    // the deepest of the first k items, and one more
    spec fn deep(&self, k: nat) -> nat decreases k { if k == 0 { 0 } else { mx(self.deep((k - 1) as nat), sd(&self.at(k - 1)) + 1) } }
    spec fn d(&self) -> nat { self.deep(self.n()) }
    // the first k items, separated
    spec fn joined(&self, k: nat, r: nat) -> Seq<char> decreases k {
        if k == 0 { Seq::empty() } else { self.joined((k - 1) as nat, r) + (if k > 1 { ItemView::separator() } else { Seq::empty() }) + st(&self.at(k - 1), r) }
    }
    spec fn t(&self, r: nat) -> Seq<char> {
        ItemView::header() + (if r > 0 { self.joined(self.n(), (r - 1) as nat) } else if self.n() > 0 { "…"@ } else { Seq::empty() }) + ItemView::trailer()
    }
    proof fn deep_bounds(&self, k: nat, i: int) requires 0 <= i < k, ensures sd(&self.at(i)) + 1 <= self.deep(k) decreases k { if i < k - 1 { self.deep_bounds((k - 1) as nat, i); } }
    proof fn deep_is(&self, k: nat, m: nat) requires forall|i: int| 0 <= i < k ==> sd(&#[trigger] self.at(i)) + 1 <= m, ensures self.deep(k) <= m decreases k { if k > 0 { let _ = self.at(k - 1); self.deep_is((k - 1) as nat, m); } }
    proof fn joined_full(&self, k: nat, r: nat, q: nat) requires forall|i: int| 0 <= i < k ==> r >= sd(&#[trigger] self.at(i)) && q >= sd(&self.at(i)), ensures self.joined(k, r) == self.joined(k, q) decreases k {
        broadcast use ax_full;
        if k > 0 { let x = self.at(k - 1); assert(st(&x, r) == st(&x, q)); self.joined_full((k - 1) as nat, r, q); }
    }
    // C22: a list is flat if and only if it is empty
    proof fn c22_flat_if_empty(&self) ensures (self.n() == 0) == (self.d() == 0) { if self.n() > 0 { self.deep_bounds(self.n(), 0); } }
    // C22: an empty list shows its marks
    proof fn c22_empty_marks(&self, r: nat) requires self.n() == 0, ensures self.t(r) == ItemView::header() + ItemView::trailer() { assert(self.joined(0, 0) =~= Seq::empty()); assert(self.t(r) =~= ItemView::header() + ItemView::trailer()); }
    // C22: at the depth it announces, and above, a list is shown in full
    proof fn c22_full_list(&self, r: nat) requires r >= self.d(), ensures self.t(r) == self.t(self.d()) {
        if self.n() == 0 { self.c22_empty_marks(r); self.c22_empty_marks(self.d()); }
        else {
            assert forall|i: int| 0 <= i < self.n() implies r - 1 >= sd(&#[trigger] self.at(i)) && self.d() - 1 >= sd(&self.at(i)) by { self.deep_bounds(self.n(), i); }
            self.deep_bounds(self.n(), 0);
            self.joined_full(self.n(), (r - 1) as nat, (self.d() - 1) as nat);
        }
    }
    // C22: at depth 0 a list of something shows an ellipsis between its marks
    proof fn c22_elided_list(&self) requires self.n() > 0, ensures self.t(0) == ItemView::header() + "…"@ + ItemView::trailer() {}
}
""")
    H = "impl<ItemView: SliceItemView> SliceView<ItemView>"
    tr = dict(header=H)
    CONSTS = [("ItemView::DISPLAY_HEADER", "ItemView::vx_header()", "associated constant"), ("ItemView::DISPLAY_SEPARATOR", "ItemView::vx_separator()", "associated constant"),
              ("ItemView::DISPLAY_TRAILER", "ItemView::vx_trailer()", "associated constant"),
              ("while let Some($i_v) = $i_it.next() { $b_x }", "loop { match $i_it.next() { Some($i_v) => { $b_x } None => { break; } } }", "while let")]
    u.fn(SLICE, "is_empty", impl="SliceView", ret="b", contract="ensures b == (self.n() == 0),", **tr)
    u.fn(SLICE, "len", impl="SliceView", ret="k", contract="ensures k == self.n(),", **tr)
    u.fn(SLICE, "iter", impl="SliceView", sig="fn iter(&self) -> (vx_r: VxIter<ItemView>)", contract="ensures vx_r.left().len() == self.n(), forall|i: int| #![trigger vx_r.left()[i]] #![trigger self.at(i)] 0 <= i < self.n() ==> vx_r.left()[i] == self.at(i),",
         rewrites=[("move |$i_x| ItemView::new($i_y.clone(), self.entities)", "|$i_x: &ItemView::Inner| -> (vx_v: ItemView) ensures vx_v == ItemView::made(*$i_x, self.entities) { ItemView::vx_new(vx_clone($i_y), self.entities) }", "closure typed, its postcondition stated"),
                   ("move |$i_x| $e", "|$i_x: &ItemView::Inner| -> (vx_v: ItemView) ensures vx_v == ItemView::made(*$i_x, self.entities) { $e }", "closure typed, its postcondition stated")], **tr)
    u.fn(SLICE, "recursion_depth", impl="SliceView", trait="CustomDisplay", rename="vx_recursion_depth", ret="vx_d",
         rewrites=[(".map(|$i_x| $e)", ".map(|$i_x: ItemView| -> (vx_v: usize) requires sd(&$i_x) < usize::MAX ensures vx_v == sd(&$i_x) + 1 { $e })", "closure typed, its postcondition stated")],
         contract="requires forall|i: int| 0 <= i < self.n() ==> sd(&#[trigger] self.at(i)) < usize::MAX, ensures vx_d == self.d(),",
         outer="""proof { assert forall|k: int| 0 <= k < self.n() implies sd(&#[trigger] self.at(k)) + 1 <= self.d() by { self.deep_bounds(self.n(), k); }
             assert forall|m: nat| (forall|i: int| 0 <= i < self.n() ==> sd(&#[trigger] self.at(i)) + 1 <= m) implies #[trigger] vx_id(m) && self.deep(self.n()) <= m by { self.deep_is(self.n(), m); } }""",
         tail="""assert(vx_id(vx_ret as nat));""", **tr)
    u.raw("pub open spec fn vx_id(m: nat) -> bool { true }")
    u.fn(SLICE, "display_impl", impl="SliceView", trait="CustomDisplay", rename="vx_display_impl", ret="x", fmt=True, attrs="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]",
         rewrites=GUARD + CONSTS,
         contract="ensures x is Ok ==> final(f).out() == old(f).out() + self.t(old(state).r()) && final(state).r() == old(state).r(),",
         loops=[dict(kw="loop", inv="""invariant_except_break 0 <= k <= self.n(), iterator.left() == all.skip(k), state.r() == r0 - 1, r0 > 0, all.len() == self.n(),
                 f.out() == out0 + ItemView::header() + self.joined(k as nat, (r0 - 1) as nat) + (if 0 < k < self.n() { ItemView::separator() } else { Seq::empty() }),
             ensures state.r() == r0 - 1, f.out() == out0 + ItemView::header() + self.joined(self.n(), (r0 - 1) as nat),""",
             before="let ghost all = iterator.left(); let ghost mut k: int = 0; proof { assert(all.skip(0) =~= all); }",
             start="let ghost vx_o = f.out(); proof { if k < self.n() { assert(all.skip(k)[0] == all[k]); assert(all.skip(k).drop_first() =~= all.skip(k + 1)); } k = k + 1; }")],
         outer="""let ghost out0 = f.out(); let ghost r0 = state.r(); broadcast use vx_seq; proof { reveal_strlit("…"); }""",
         tail="if vx_ret is Ok { assert(f.out() == out0 + self.t(r0)); }", **tr)
    return u

def make_limits():
    u = Unit("entity_limits", rlimit=30)
    for r in ERASE: u.rule(*r)
    u.trust("RefCell: the limit is never borrowed twice at once (it would panic)")
    for r in [("RefCell<DisplayStateInner>", "DisplayStateInner", "cell erased"), ("RefCell::new(DisplayStateInner { $i_f })", "(DisplayStateInner { $i_f })", "cell erased"),
              ("let mut state = self.0.borrow_mut();", "let state = &mut self.0;", "cell erased"), ("let mut state = self.state.0.borrow_mut();", "let state = &mut vx_state.0;", "cell erased"),
              ("self.0.borrow_mut()", "self.0", "cell erased"), ("self.state.0.borrow_mut()", "vx_state.0", "cell erased"), ("self.0.borrow()", "self.0", "cell erased"),
              ("RecursionGuard { state: self }", "RecursionGuard { }", "the guard's reference to the state is passed to its drop")]: u.rule(*r)
    u.raw("""global size_of usize == 8;
pub struct RecursionGuard {}
pub struct RecursionLimitReached;""")
    u.item(DISP, "struct", "DisplayStateInner"); u.item(DISP, "struct", "DisplayState")
    u.raw("""impl DisplayState { spec fn r(&self) -> nat { self.0.max_recursion as nat } }""")
    u.fn(DISP, "new", impl="DisplayState", ret="s", contract="ensures s.r() == max_recursion,")
    u.fn(DISP, "max_recursion", impl="DisplayState", ret="m", contract="ensures m == self.r(),")
    u.fn(DISP, "can_recurse", impl="DisplayState", ret="b", contract="ensures b == (self.r() > 0),")
    u.fn(DISP, "recurse", impl="DisplayState", ret="x", rewrites=[("fn recurse(&self)", "fn recurse(&mut self)", "interior mutability made explicit")],
         contract="ensures x is Ok == (old(self).r() > 0), x is Ok ==> final(self).r() == old(self).r() - 1, x is Err ==> final(self).r() == old(self).r(),")
    u.fn(DISP, "drop", impl="RecursionGuard", trait="Drop", header="impl RecursionGuard", rename="vx_drop", sig="fn drop(&mut self, vx_state: &mut DisplayState)",
         contract="requires old(vx_state).r() < usize::MAX, ensures final(vx_state).r() == old(vx_state).r() + 1,")
    u.fn(DISP, "default", impl="DisplayStateInner", trait="Default", header="impl DisplayStateInner", ret="s", contract="ensures s.max_recursion == usize::MAX,")
    # optional parts
    u.raw(r"""
pub uninterp spec fn st<T: ?Sized>(x: &T, r: nat) -> Seq<char>;
pub uninterp spec fn sd<T: ?Sized>(x: &T) -> nat;
pub mod fmt { use vstd::prelude::*; verus! { #[verifier::external_body] pub struct Error {} pub type Result = core::result::Result<(), Error>; } }
#[verifier::external_body] pub struct Formatter { x: u8 }
impl Formatter { pub uninterp spec fn out(&self) -> Seq<char>; }
trait CustomDisplay {
    fn recursion_depth(&self) -> (d: usize) ensures d == sd(self);
    fn display_impl(&self, f: &mut Formatter, state: &mut DisplayState) -> (x: fmt::Result)
        ensures x is Ok ==> final(f).out() == old(f).out() + st(self, old(state).r()) && final(state).r() == old(state).r();
}
struct VxOption<T> { o: Option<T> }
""")
    u.fn(DISP, "recursion_depth", impl="Option", trait="CustomDisplay", header="impl<T: CustomDisplay> VxOption<T>", ret="d",
         rewrites=[("self.as_ref().map(|$i_x| $e).unwrap_or(0)", "(match &self.o { Some($i_x) => $e, None => 0 })", "Option::map and unwrap_or")],
         contract="ensures d == (if self.o is Some { sd(&self.o->0) } else { 0 }),")
    u.fn(DISP, "display_impl", impl="Option", trait="CustomDisplay", header="impl<T: CustomDisplay> VxOption<T>", ret="x",
         rewrites=GUARD + [("= self {", "= &self.o {", "the option itself")],
         contract="ensures x is Ok ==> final(f).out() == old(f).out() + (if self.o is Some { st(&self.o->0, old(state).r()) } else { Seq::empty() }) && final(state).r() == old(state).r(),",
         tail="assert(f.out() =~= f.out() + Seq::<char>::empty());")
    return u
