"""C23: every text a parser of C++ entities accepts spells what it is read as, down to the characters."""
import re
from vx.unit import Unit
from vx import extract as X
from proofs.entity import R, S, LIB, QUAL, SPEC, TYPES, DECL, LEGACY, FUN, TPL, ANON, VAL, LIT, OPS, USE, UNQ, SCO, ATOM, COPY
OVER = S + "operators/overloads.rs"

E = 'Seq::<char>::empty()'
CP = "#[derive(Clone, Copy)]"

# how the parser combinators are written in the verified text
RULES = [
    ("|$i_s| { self.$i_f($i_t) }", "self.vxp().$i_f()", "a parser method as a parser"),
    ("|$i_s| { self.$i_f($i_t, $a, $b) }", "self.vxp().$i_f($a, $b)", "a parser method as a parser"),
    ("|s| self.$i_f(s, $a, $b)", "self.vxp().$i_f($a, $b)", "a parser method as a parser"),
    ("|s| self.$i_f(s, $a)", "self.vxp().$i_f($a)", "a parser method as a parser"),
    ("|s| self.$i_f(s)", "self.vxp().$i_f()", "a parser method as a parser"),
    ("|s| Self::$i_f(s, $a, $b)", "vx_static().$i_f($a, $b)", "a parser function as a parser"),
    ("Self::parse_cv.", "vx_static().parse_cv().", "a parser function as a parser"),
    ("Self::parse_cv,", "vx_static().parse_cv(),", "a parser function as a parser"),
    ("Self::parse_cv)", "vx_static().parse_cv())", "a parser function as a parser"),
    ("Self::parse_reference.", "vx_static().parse_reference().", "a parser function as a parser"),
    ("Self::parse_increment_decrement", "vx_static().parse_increment_decrement()", "a parser function as a parser"),
    ("Self::parse_unknown_entity", "vx_static().parse_unknown_entity()", "a parser function as a parser"),
    ("EntityParser::keyword_parser($e)", "vx_keyword($e)", "a parser function as a parser"),
    ("Self::keyword_parser($e)", "vx_keyword($e)", "a parser function as a parser"),
    ("multispace0", "layout()", "white space"), ("multispace1", "layout()", "white space"),
    ("tuple(($a, $b, $c, $d, $e, $f,))", "tuple6($a, $b, $c, $d, $e, $f)", "by arity"),
    ("tuple(($a, $b, $c,))", "tuple3($a, $b, $c)", "by arity"), ("tuple(($a, $b, $c))", "tuple3($a, $b, $c)", "by arity"),
    ("self.values.borrow_mut().intern($e)", "vx_intern_value($e)", "interior mutability of the interner left out"),
    ("self.types.borrow_mut().intern($e)", "vx_intern_type($e)", "interior mutability of the interner left out"),
    ("self.$i_f.entry()", "vx_entries().$i_f()", "interior mutability of the interner left out"),
    ("(mut $i_e, mut $i_v, $i_b), $i_i| {", "vx_e, $i_i| -> (vx_o: _) ensures VX_STEP { let (mut $i_e, mut $i_v, $i_b) = vx_e;", "contract of the closure"),
    ("|mut $i_e, $i_i| { $b_x }", "|vx_e, $i_i| -> (vx_o: _) ensures vx_pushed(vx_e, $i_i, vx_o) { let mut $i_e = vx_e; $b_x }", "contract of the closure"),
    (".map(Some)", ".vx_map(|vx_i| -> (vx_o: _) ensures vx_is(vx_o, Some(vx_i)) { Some(vx_i) })", "constructor as a function"),
    (".map($i_t)", ".vx_map(|vx_i| -> (vx_o: $i_t) ensures vx_o == $i_t(vx_i) { $i_t(vx_i) })", "constructor as a function"),
    (".map(Operator::from)", ".vx_map(|vx_i| -> (vx_o: Operator) ensures vx_from(vx_i, vx_o) { Operator::from(vx_i) })", "contract of the closure"),
    (".map($i_t::$i_c)", ".vx_map(|vx_i| -> (vx_o: $i_t) ensures vx_o == $i_t::$i_c(vx_i) { $i_t::$i_c(vx_i) })", "constructor as a function"),
    (".map(|$p| $i_t { $b_x },)", ".vx_map(|vx_i| -> (vx_o: _) ensures vx_is(vx_o, { let $p = vx_i; $i_t { $b_x } }) { let $p = vx_i; $i_t { $b_x } })", "the body of the closure as its contract"),
    (".map(|$p| { $e })", ".vx_map(|vx_i| -> (vx_o: _) ensures vx_is(vx_o, { let $p = vx_i; $e }) { let $p = vx_i; $e })", "the body of the closure as its contract"),
    (".map(|$p| $e)", ".vx_map(|vx_i| -> (vx_o: _) ensures vx_is(vx_o, { let $p = vx_i; $e }) { let $p = vx_i; $e })", "the body of the closure as its contract"),
    (".map(move |$p| $e,)", ".vx_map(move |vx_i| -> (vx_o: _) ensures vx_is(vx_o, { let $p = vx_i; $e }) { let $p = vx_i; $e })", "the body of the closure as its contract"),
    (".map(move |$p| $e)", ".vx_map(move |vx_i| -> (vx_o: _) ensures vx_is(vx_o, { let $p = vx_i; $e }) { let $p = vx_i; $e })", "the body of the closure as its contract"),
    (".value($e)", ".vx_value($e)", "name"),
    (", &$i_p)", ", $i_p)", "a shared reference to a parser as the parser"), (", &$i_p,)", ", $i_p,)", "a shared reference to a parser as the parser"),
    ("(&$i_p,", "($i_p,", "a shared reference to a parser as the parser"),
    ("s.as_bytes().first()", "vx_first(s)", "first byte"),
]
ANYP = (".verify($e)", ".vx_some_of()", "which of the results are accepted is left out")

PRELUDE = r"""
global size_of usize == 8;
#[verifier::external_body] pub struct VxErr {}
type IResult<'a, O> = Result<(&'a str, O), VxErr>;
#[verifier::external_body] #[verifier::reject_recursive_types(O)] struct P<O> { o: core::marker::PhantomData<O> }
impl<O> Clone for P<O> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<O> Copy for P<O> {}
spec fn vx_is<T>(a: T, b: T) -> bool { a == b }
spec fn none() -> Seq<char> { Seq::empty() }
// what a parser reads: sp(o, t) when the text t, layout left out, spells o
trait Rd<O> { spec fn sp(o: O, t: Seq<char>) -> bool; }
// the end of a word: no letter, digit, underscore or dollar comes next
spec fn word_end() -> char { '\u{10ffff}' }
spec fn word(t: Seq<char>) -> Seq<char> { t + seq![word_end()] }
spec fn id_start(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || c == '_' || c == '$' }
spec fn id_continue(c: char) -> bool { id_start(c) || ('0' <= c && c <= '9') }
spec fn is_identifier(t: Seq<char>) -> bool { t.len() > 0 && id_start(t[0]) && forall|i: int| 0 <= i < t.len() ==> id_continue(#[trigger] t[i]) }
spec fn at_boundary(rest: Seq<char>) -> bool { rest.len() > 0 ==> !id_continue(rest[0]) }
// p, with rest after it, is the text t with white space added in places, and with words that end where t says
spec fn is_layout(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }
spec fn spaced(p: Seq<char>, t: Seq<char>, rest: Seq<char>) -> bool decreases p.len() + t.len() {
    (p.len() == 0 && t.len() == 0)
    || (t.len() > 0 && t.last() == word_end() && at_boundary(rest) && spaced(p, t.drop_last(), rest))
    || (p.len() > 0 && t.len() > 0 && p.last() == t.last() && spaced(p.drop_last(), t.drop_last(), seq![p.last()] + rest))
    || (p.len() > 0 && is_layout(p.last()) && spaced(p.drop_last(), t, seq![p.last()] + rest)) }
// s without its tail rest is the text t, with white space added in places
#[verifier::opaque] spec fn reads(s: Seq<char>, rest: Seq<char>, t: Seq<char>) -> bool { exists|p: Seq<char>| #[trigger] spaced(p, t, rest) && s == p + rest }
proof fn spaced_more(p1: Seq<char>, t1: Seq<char>, p2: Seq<char>, t2: Seq<char>, rest: Seq<char>) requires spaced(p1, t1, p2 + rest), spaced(p2, t2, rest) ensures spaced(p1 + p2, t1 + t2, rest) decreases p2.len() + t2.len()
{
    if p2.len() == 0 && t2.len() == 0 { assert(p1 + p2 =~= p1); assert(t1 + t2 =~= t1); assert(p2 + rest =~= rest); }
    else if t2.len() > 0 && t2.last() == word_end() && at_boundary(rest) && spaced(p2, t2.drop_last(), rest) { spaced_more(p1, t1, p2, t2.drop_last(), rest); assert((t1 + t2).drop_last() =~= t1 + t2.drop_last()); assert((t1 + t2).last() == t2.last()); }
    else {
        let after = seq![p2.last()] + rest; assert(p2 + rest =~= p2.drop_last() + after); assert((p1 + p2).drop_last() =~= p1 + p2.drop_last()); assert((p1 + p2).last() == p2.last());
        if t2.len() > 0 && p2.last() == t2.last() && spaced(p2.drop_last(), t2.drop_last(), after) { spaced_more(p1, t1, p2.drop_last(), t2.drop_last(), after); assert((t1 + t2).drop_last() =~= t1 + t2.drop_last()); assert((t1 + t2).last() == t2.last()); }
        else { spaced_more(p1, t1, p2.drop_last(), t2, after); }
    }
}
proof fn spaced_same(p: Seq<char>, rest: Seq<char>) ensures spaced(p, p, rest) decreases p.len() { if p.len() > 0 { spaced_same(p.drop_last(), seq![p.last()] + rest); } }
broadcast proof fn reads_more(s: Seq<char>, mid: Seq<char>, rest: Seq<char>, t1: Seq<char>, t2: Seq<char>) requires #[trigger] reads(s, mid, t1), #[trigger] reads(mid, rest, t2) ensures reads(s, rest, t1 + t2)
{
    reveal(reads);
    let p1 = choose|p: Seq<char>| #[trigger] spaced(p, t1, mid) && s == p + mid; let p2 = choose|p: Seq<char>| #[trigger] spaced(p, t2, rest) && mid == p + rest;
    spaced_more(p1, t1, p2, t2, rest); assert(p1 + (p2 + rest) =~= (p1 + p2) + rest);
}
proof fn reads_text(t: Seq<char>, rest: Seq<char>) ensures reads(t + rest, rest, t) { reveal(reads); spaced_same(t, rest); }
proof fn reads_word(t: Seq<char>, rest: Seq<char>) requires at_boundary(rest) ensures reads(t + rest, rest, word(t)) { reveal(reads); spaced_same(t, rest); assert(word(t).drop_last() =~= t); assert(word(t).last() == word_end()); assert(spaced(t, word(t), rest)); }
proof fn is_ok<O, R: Rd<O>>(s: Seq<char>, rest: &str, o: O, t: Seq<char>) requires R::sp(o, t), reads(s, rest@, t) ensures ok::<O, R>(Ok((rest, o)), s) { let r: IResult<O> = Ok((rest, o)); let rr = r->Ok_0; assert(rr.0@ == rest@); assert(R::sp(rr.1, t)); assert(reads(s, rr.0@, t)); }
proof fn reads_none(s: Seq<char>) ensures reads(s, s, none()) { reads_text(none(), s); assert(none() + s =~= s); }
spec fn ok<O, R: Rd<O>>(r: IResult<O>, s: Seq<char>) -> bool { r matches Ok((rest, o)) ==> exists|t: Seq<char>| R::sp(o, t) && #[trigger] reads(s, rest@, t) }
spec fn gives<O, R: Rd<O>>(p: P<O>) -> bool { forall|o: O, t: Seq<char>| #[trigger] p.tt(o, t) ==> vx_t(o, t) && R::sp(o, t) }
spec fn vx_gives<O>(p: P<O>, sp: spec_fn(O, Seq<char>) -> bool) -> bool { forall|o: O, t: Seq<char>| #[trigger] p.tt(o, t) ==> sp(o, t) }
broadcast proof fn seq_assoc(x: Seq<char>, y: Seq<char>, z: Seq<char>) ensures #[trigger] (x + (y + z)) == (x + y) + z { assert(x + (y + z) =~= (x + y) + z); }
broadcast proof fn seq_empty(x: Seq<char>) ensures #[trigger] (x + Seq::<char>::empty()) == x { assert(x + Seq::<char>::empty() =~= x); }
broadcast proof fn seq_empty2(x: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + x) == x { assert(Seq::<char>::empty() + x =~= x); }
proof fn one_char() ensures ONECHARS { REVEALS }
broadcast group vx_seq { seq_assoc, seq_empty, seq_empty2 }
"""

NOM = r"""
#[verifier::external_body] #[verifier::when_used_as_spec(s_unwrap_or)] fn vx_unwrap_or<T>(o: Option<T>, d: T) -> (r: T) ensures r == s_unwrap_or(o, d) { unimplemented!() }
spec fn s_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
#[verifier::external_body] fn vx_first(s: &str) -> (r: Option<&u8>) ensures r == Some(&126u8) ==> s@.len() > 0 && s@[0] == '~' { unimplemented!() }
#[verifier::external_body] fn vx_id_path() -> (r: P<&'static str>) ensures forall|u: &'static str, t: Seq<char>| #[trigger] r.tt(u, t) ==> t == u@ { unimplemented!() }
spec fn vx_t<O>(o: O, t: Seq<char>) -> bool { true }   // names a text for the solver
// numbers
spec fn digit(c: char, base: int) -> int { let d = if '0' <= c && c <= '9' { c as int - '0' as int } else if 'a' <= c && c <= 'f' { c as int - 'a' as int + 10 } else if 'A' <= c && c <= 'F' { c as int - 'A' as int + 10 } else { base }; if d < base { d } else { -1 } }
spec fn digits(t: Seq<char>, base: int) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> digit(#[trigger] t[i], base) >= 0 }
spec fn number(t: Seq<char>, base: int) -> int decreases t.len() { if t.len() == 0 { 0 } else { number(t.drop_last(), base) * base + digit(t.last(), base) } }
spec fn reads_int(v: int, t: Seq<char>) -> bool { (digits(t, 10) && v == number(t, 10)) || (t.len() > 0 && digits(t.skip(1), 10) && ((t[0] == '-' && v == -number(t.skip(1), 10)) || (t[0] == '+' && v == number(t.skip(1), 10)))) }
impl<O> P<O> {
    // some text that is t, layout left out, is read as o
    uninterp spec fn tt(self, o: O, t: Seq<char>) -> bool;
    #[verifier::external_body] fn parse<'a, R: Rd<O>>(&self, s: &'a str) -> (r: IResult<'a, O>) requires gives::<O, R>(*self), ensures ok::<O, R>(r, s@) { unimplemented!() }
    #[verifier::external_body] fn vx_map<U, F: Fn(O) -> U>(self, f: F) -> (r: P<U>) requires forall|o: O| call_requires(f, (o,)), ensures forall|u: U, t: Seq<char>| #[trigger] r.tt(u, t) ==> vx_t(u, t) && exists|o: O| #[trigger] self.tt(o, t) && call_ensures(f, (o,), u) { unimplemented!() }
    #[verifier::external_body] fn and<U>(self, q: P<U>) -> (r: P<(O, U)>) ensures forall|u: (O, U), t: Seq<char>| #[trigger] r.tt(u, t) ==> vx_t(u, t) && exists|t1: Seq<char>, t2: Seq<char>| #[trigger] self.tt(u.0, t1) && #[trigger] q.tt(u.1, t2) && t == t1 + t2 { unimplemented!() }
    #[verifier::external_body] fn or(self, q: P<O>) -> (r: P<O>) ensures forall|u: O, t: Seq<char>| #[trigger] r.tt(u, t) ==> self.tt(u, t) || q.tt(u, t) { unimplemented!() }
    #[verifier::external_body] fn terminated<U>(self, q: P<U>) -> (r: P<O>) ensures forall|u: O, t: Seq<char>| #[trigger] r.tt(u, t) ==> exists|v: U, t1: Seq<char>, t2: Seq<char>| #[trigger] self.tt(u, t1) && #[trigger] q.tt(v, t2) && t == t1 + t2 { unimplemented!() }
    #[verifier::external_body] fn vx_value<U>(self, v: U) -> (r: P<U>) ensures forall|u: U, t: Seq<char>| #[trigger] r.tt(u, t) ==> vx_t(u, t) && u == v && exists|o: O| #[trigger] self.tt(o, t) { unimplemented!() }
    #[verifier::external_body] fn vx_some_of(self) -> (r: P<O>) ensures forall|u: O, t: Seq<char>| #[trigger] r.tt(u, t) ==> self.tt(u, t) { unimplemented!() }
    #[verifier::external_body] fn vx_verify<F: Fn(&O) -> bool>(self, f: F) -> (r: P<O>) requires forall|o: &O, t: Seq<char>| #[trigger] self.tt(*o, t) ==> call_requires(f, (o,)), ensures forall|u: O, t: Seq<char>| #[trigger] r.tt(u, t) ==> self.tt(u, t) && call_ensures(f, (&u,), true) { unimplemented!() }
    #[verifier::external_body] fn map_res<U, X, F: Fn(O) -> Result<U, X>>(self, f: F) -> (r: P<U>) requires forall|o: O, t: Seq<char>| #[trigger] self.tt(o, t) ==> call_requires(f, (o,)), ensures forall|u: U, t: Seq<char>| #[trigger] r.tt(u, t) ==> exists|o: O| #[trigger] self.tt(o, t) && call_ensures(f, (o,), Ok(u)) { unimplemented!() }
}
#[verifier::external_body] fn map_opt<O, U, F: Fn(O) -> Option<U>>(p: P<O>, f: F) -> (r: P<U>) requires forall|o: O| call_requires(f, (o,)), ensures forall|u: U, t: Seq<char>| #[trigger] r.tt(u, t) ==> exists|o: O| #[trigger] p.tt(o, t) && call_ensures(f, (o,), Some(u)) { unimplemented!() }
#[verifier::external_body] fn map_res<O, U, X, F: Fn(O) -> Result<U, X>>(p: P<O>, f: F) -> (r: P<U>) requires forall|o: O| call_requires(f, (o,)), ensures forall|u: U, t: Seq<char>| #[trigger] r.tt(u, t) ==> exists|o: O| #[trigger] p.tt(o, t) && call_ensures(f, (o,), Ok(u)) { unimplemented!() }
#[verifier::external_body] fn opt<O>(p: P<O>) -> (r: P<Option<O>>) ensures forall|u: Option<O>, t: Seq<char>| #[trigger] r.tt(u, t) ==> vx_t(u, t) && match u { Some(o) => p.tt(o, t), None => t == none() } { unimplemented!() }
#[verifier::external_body] fn peek<O>(p: P<O>) -> (r: P<O>) ensures forall|u: O, t: Seq<char>| #[trigger] r.tt(u, t) ==> t == none() { unimplemented!() }
#[verifier::external_body] fn layout() -> (r: P<&'static str>) ensures forall|u: &'static str, t: Seq<char>| #[trigger] r.tt(u, t) ==> t == none() { unimplemented!() }
#[verifier::external_body] fn eof() -> (r: P<&'static str>) ensures forall|u: &'static str, t: Seq<char>| #[trigger] r.tt(u, t) ==> t == none() { unimplemented!() }
#[verifier::external_body] fn char(c: char) -> (r: P<char>) ensures forall|u: char, t: Seq<char>| #[trigger] r.tt(u, t) ==> u == c && t == seq![c] { unimplemented!() }
#[verifier::external_body] fn anychar() -> (r: P<char>) ensures forall|u: char, t: Seq<char>| #[trigger] r.tt(u, t) ==> vx_t(u, t) && t == seq![u] { unimplemented!() }
#[verifier::external_body] fn tag(s: &'static str) -> (r: P<&'static str>) ensures forall|u: &'static str, t: Seq<char>| #[trigger] r.tt(u, t) ==> u@ == s@ && t == s@ { unimplemented!() }
#[verifier::external_body] fn vx_keyword(s: &'static str) -> (r: P<()>) ensures forall|u: (), t: Seq<char>| #[trigger] r.tt(u, t) ==> t == word(s@) { unimplemented!() }
#[verifier::external_body] fn vx_keywords5(a: &'static str, b: &'static str, c: &'static str, d: &'static str, e: &'static str) -> (r: P<()>) ensures forall|u: (), t: Seq<char>| #[trigger] r.tt(u, t) ==> t == word(a@) || t == word(b@) || t == word(c@) || t == word(d@) || t == word(e@) { unimplemented!() }
#[verifier::external_body] fn vx_keywords3(a: &'static str, b: &'static str, c: &'static str) -> (r: P<()>) ensures forall|u: (), t: Seq<char>| #[trigger] r.tt(u, t) ==> t == word(a@) || t == word(b@) || t == word(c@) { unimplemented!() }
#[verifier::external_body] fn vx_u32() -> (r: P<u32>) ensures forall|u: u32, t: Seq<char>| #[trigger] r.tt(u, t) ==> reads_int(u as int, t) { unimplemented!() }
#[verifier::external_body] fn preceded<O, U>(p: P<O>, q: P<U>) -> (r: P<U>) ensures forall|u: U, t: Seq<char>| #[trigger] r.tt(u, t) ==> vx_t(u, t) && exists|o: O, t1: Seq<char>, t2: Seq<char>| #[trigger] p.tt(o, t1) && #[trigger] q.tt(u, t2) && t == t1 + t2 { unimplemented!() }
#[verifier::external_body] fn delimited<O, U, V>(p: P<O>, q: P<U>, x: P<V>) -> (r: P<U>) ensures forall|u: U, t: Seq<char>| #[trigger] r.tt(u, t) ==> exists|o: O, v: V, t1: Seq<char>, t2: Seq<char>, t3: Seq<char>| #[trigger] p.tt(o, t1) && #[trigger] q.tt(u, t2) && #[trigger] x.tt(v, t3) && t == t1 + t2 + t3 { unimplemented!() }
#[verifier::external_body] fn separated_pair<O, U, V>(p: P<O>, x: P<V>, q: P<U>) -> (r: P<(O, U)>) ensures forall|u: (O, U), t: Seq<char>| #[trigger] r.tt(u, t) ==> exists|v: V, t1: Seq<char>, t2: Seq<char>, t3: Seq<char>| #[trigger] p.tt(u.0, t1) && #[trigger] x.tt(v, t2) && #[trigger] q.tt(u.1, t3) && t == t1 + t2 + t3 { unimplemented!() }
#[verifier::external_body] fn tuple3<A, B, C>(p: P<A>, q: P<B>, x: P<C>) -> (r: P<(A, B, C)>) ensures forall|u: (A, B, C), t: Seq<char>| #[trigger] r.tt(u, t) ==> exists|t1: Seq<char>, t2: Seq<char>, t3: Seq<char>| #[trigger] p.tt(u.0, t1) && #[trigger] q.tt(u.1, t2) && #[trigger] x.tt(u.2, t3) && t == t1 + t2 + t3 { unimplemented!() }
#[verifier::external_body] fn tuple6<A, B, C, D, E, F>(p: P<A>, q: P<B>, x: P<C>, y: P<D>, z: P<E>, w: P<F>) -> (r: P<(A, B, C, D, E, F)>) ensures forall|u: (A, B, C, D, E, F), t: Seq<char>| #[trigger] r.tt(u, t) ==> exists|t1: Seq<char>, t2: Seq<char>, t3: Seq<char>, t4: Seq<char>, t5: Seq<char>, t6: Seq<char>| #[trigger] p.tt(u.0, t1) && #[trigger] q.tt(u.1, t2) && #[trigger] x.tt(u.2, t3) && #[trigger] y.tt(u.3, t4) && #[trigger] z.tt(u.4, t5) && #[trigger] w.tt(u.5, t6) && t == t1 + t2 + t3 + t4 + t5 + t6 { unimplemented!() }
// one of a list of words, each read as what goes with it
#[verifier::external_body] fn vx_words<O, const N: usize>(a: [(&'static str, O); N]) -> (r: P<O>) ensures forall|u: O, t: Seq<char>| #[trigger] r.tt(u, t) ==> exists|i: int| 0 <= i < N && u == (#[trigger] a[i]).1 && t == word(a[i].0@) { unimplemented!() }
#[verifier::external_body] fn fold_many1<O, R, I: Fn() -> R, F: Fn(R, O) -> R>(p: P<O>, init: I, f: F, Ghost(inv): Ghost<spec_fn(R, Seq<char>, bool) -> bool>) -> (r: P<R>)
    requires call_requires(init, ()), forall|a: R, o: O| call_requires(f, (a, o)),
        forall|a: R| #[trigger] call_ensures(init, (), a) ==> inv(a, none(), true),
        forall|a: R, o: O, t2: Seq<char>, b: R| inv(a, none(), true) && #[trigger] p.tt(o, t2) && #[trigger] call_ensures(f, (a, o), b) ==> inv(b, none() + t2, false),
        forall|a: R, t1: Seq<char>, o: O, t2: Seq<char>, b: R| inv(a, t1, false) && #[trigger] p.tt(o, t2) && #[trigger] call_ensures(f, (a, o), b) ==> #[trigger] inv(b, t1 + t2, false),
    ensures forall|a: R, t: Seq<char>| #[trigger] r.tt(a, t) ==> inv(a, t, false),
{ unimplemented!() }
// repetitions: whatever relation between accumulator and text the closures establish and keep
#[verifier::external_body] fn fold_many0<O, R, I: Fn() -> R, F: Fn(R, O) -> R>(p: P<O>, init: I, f: F, Ghost(inv): Ghost<spec_fn(R, Seq<char>) -> bool>) -> (r: P<R>)
    requires call_requires(init, ()), forall|a: R, o: O| call_requires(f, (a, o)),
        forall|a: R| #[trigger] call_ensures(init, (), a) ==> inv(a, none()),
        forall|a: R, t1: Seq<char>, o: O, t2: Seq<char>, b: R| inv(a, t1) && #[trigger] p.tt(o, t2) && #[trigger] call_ensures(f, (a, o), b) ==> #[trigger] inv(b, t1 + t2),
    ensures forall|a: R, t: Seq<char>| #[trigger] r.tt(a, t) ==> inv(a, t),
{ unimplemented!() }
#[verifier::external_body] fn many0_count<O>(p: P<O>, Ghost(inv): Ghost<spec_fn(nat, Seq<char>) -> bool>) -> (r: P<usize>)
    requires inv(0, none()), forall|n: nat, t1: Seq<char>, o: O, t2: Seq<char>| inv(n, t1) && #[trigger] p.tt(o, t2) ==> #[trigger] inv(n + 1, t1 + t2),
    ensures forall|a: usize, t: Seq<char>| #[trigger] r.tt(a, t) ==> inv(a as nat, t),
{ unimplemented!() }
// one or more items, separated, and the terminator
#[verifier::external_body] fn parse_separated_terminated<O, X, Y, R, I: Fn() -> R, F: Fn(R, O) -> R>(p: P<O>, sep: P<X>, term: P<Y>, init: I, f: F, Ghost(inv): Ghost<spec_fn(R, bool, Seq<char>) -> bool>) -> (r: P<R>)
    requires call_requires(init, ()), forall|a: R, o: O| call_requires(f, (a, o)),
        forall|a: R| #[trigger] call_ensures(init, (), a) ==> inv(a, true, none()),
        forall|a: R, o: O, t2: Seq<char>, b: R| inv(a, true, none()) && #[trigger] p.tt(o, t2) && #[trigger] call_ensures(f, (a, o), b) ==> #[trigger] inv(b, false, t2),
        forall|a: R, t1: Seq<char>, x: X, tx: Seq<char>, o: O, t2: Seq<char>, b: R| inv(a, false, t1) && #[trigger] sep.tt(x, tx) && #[trigger] p.tt(o, t2) && #[trigger] call_ensures(f, (a, o), b) ==> #[trigger] inv(b, false, t1 + tx + t2),
    ensures forall|a: R, t: Seq<char>| #[trigger] r.tt(a, t) ==> exists|t1: Seq<char>, y: Y, t2: Seq<char>| inv(a, false, t1) && #[trigger] term.tt(y, t2) && t == #[trigger] (t1 + t2),
{ unimplemented!() }
"""

SEQS = [("template_parameter_lists", "TemplateParameter", "TemplateParameterListKey"), ("value_trailers", "AfterValue", "ValueTrailerKey"), ("function_arguments", "ValueKey", "FunctionArgumentsKey"),
        ("function_parameters", "TypeKey", "FunctionParametersKey"), ("scope_sequences", "Scope", "ScopesKey"), ("declarators", "DeclOperator", "DeclaratorKey")]

def entries():
    s = r"""
#[verifier::external_body] #[verifier::reject_recursive_types(I)] #[verifier::reject_recursive_types(K)] struct SequenceEntry<I, K> { o: core::marker::PhantomData<(I, K)> }
impl<I, K> SequenceEntry<I, K> {
    uninterp spec fn items(self) -> Seq<I>;
    spec fn vx_key(self) -> K { key_of::<I, K>(self.items()) }
    #[verifier::external_body] fn push(&mut self, item: I) ensures final(self).items() == old(self).items().push(item) { unimplemented!() }
    #[verifier::external_body] #[verifier::when_used_as_spec(vx_key)] fn intern(self) -> (r: K) ensures r == self.vx_key() { unimplemented!() }
}
// the key a list of items is interned under, and the items under a key
uninterp spec fn key_of<I, K>(items: Seq<I>) -> K;
uninterp spec fn items<I, K>(k: K) -> Seq<I>;
broadcast axiom fn ax_items<I, K>(s: Seq<I>) ensures items::<I, K>(#[trigger] key_of::<I, K>(s)) == s;
spec fn vx_pushed<I, K>(a: SequenceEntry<I, K>, i: I, b: SequenceEntry<I, K>) -> bool { b.items() == a.items().push(i) }
uninterp spec fn no_items<I, K>() -> SequenceEntry<I, K>;
broadcast axiom fn ax_no_items<I, K>() ensures #[trigger] no_items::<I, K>().items() == Seq::<I>::empty();
#[verifier::external_body] struct Entries {}
#[verifier::external_body] #[verifier::when_used_as_spec(the_entries)] fn vx_entries() -> (r: Entries) ensures r == the_entries() { unimplemented!() }
uninterp spec fn the_entries() -> Entries;
"""
    for f, i, k in SEQS:
        s += f"""impl Entries {{ spec fn s_{f}(self) -> SequenceEntry<{i}, {k}> {{ no_items() }}
    #[verifier::external_body] #[verifier::when_used_as_spec(s_{f})] fn {f}(self) -> (r: SequenceEntry<{i}, {k}>) ensures r == self.s_{f}() {{ unimplemented!() }} }}
"""
    s += r"""
uninterp spec fn type_key(t: TypeLike) -> TypeKey;
uninterp spec fn raw_type(k: TypeKey) -> TypeLike;
broadcast axiom fn ax_type(t: TypeLike) ensures raw_type(#[trigger] type_key(t)) == t;
#[verifier::external_body] #[verifier::when_used_as_spec(type_key)] fn vx_intern_type(t: TypeLike) -> (r: TypeKey) ensures r == type_key(t) { unimplemented!() }
uninterp spec fn value_key(t: ValueLike) -> ValueKey;
uninterp spec fn raw_value(k: ValueKey) -> ValueLike;
broadcast axiom fn ax_value(t: ValueLike) ensures raw_value(#[trigger] value_key(t)) == t;
#[verifier::external_body] #[verifier::when_used_as_spec(value_key)] fn vx_intern_value(t: ValueLike) -> (r: ValueKey) ensures r == value_key(t) { unimplemented!() }
broadcast group vx_keys { ax_items, ax_no_items, ax_type, ax_value }
"""
    return s

SYM = {"AddPlus": "+", "SubNeg": "-", "MulDeref": "*", "Div": "/", "Mod": "%", "Xor": "^", "AndRef": "&", "Or": "|", "BitNot": "~", "Not": "!", "AssignEq": "=", "Less": "<", "Greater": ">", "Comma": ","}

# how each kind of thing is spelled
SPELL = r"""
spec fn vx_g<T>(x: T) -> bool { true }   // names a term for the solver
// a list of things, each spelled in turn, with sep between
spec fn joined(ts: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases ts.len() { if ts.len() == 0 { none() } else if ts.len() == 1 { ts[0] } else { joined(ts.drop_last(), sep) + sep + ts.last() } }
spec fn each_sp<O, R: Rd<O>>(items: Seq<O>, ts: Seq<Seq<char>>) -> bool { ts.len() == items.len() && forall|i: int| 0 <= i < items.len() ==> R::sp(items[i], #[trigger] ts[i]) }
spec fn list_sp<O, R: Rd<O>>(items: Seq<O>, sep: Seq<char>, t: Seq<char>) -> bool { exists|ts: Seq<Seq<char>>| #[trigger] each_sp::<O, R>(items, ts) && t == joined(ts, sep) }
proof fn joined_push(ts: Seq<Seq<char>>, sep: Seq<char>, t: Seq<char>) ensures joined(ts.push(t), sep) == (if ts.len() == 0 { t } else { joined(ts, sep) + sep + t }) { assert(ts.push(t).drop_last() =~= ts); }
proof fn list_push<O, R: Rd<O>>(items: Seq<O>, sep: Seq<char>, o: O, t1: Seq<char>, t2: Seq<char>) requires list_sp::<O, R>(items, sep, t1), R::sp(o, t2)
    ensures list_sp::<O, R>(items.push(o), sep, if items.len() == 0 { t2 } else { t1 + sep + t2 })
{ let ts = choose|ts: Seq<Seq<char>>| #[trigger] each_sp::<O, R>(items, ts) && t1 == joined(ts, sep); joined_push(ts, sep, t2); assert(each_sp::<O, R>(items.push(o), ts.push(t2))); }
proof fn list_none<O, R: Rd<O>>(sep: Seq<char>) ensures list_sp::<O, R>(Seq::<O>::empty(), sep, none()) { assert(each_sp::<O, R>(Seq::<O>::empty(), Seq::<Seq<char>>::empty())); }
spec fn inv_list<O, K, R: Rd<O>>(e: SequenceEntry<O, K>, sep: Seq<char>, first: bool, t: Seq<char>) -> bool { list_sp::<O, R>(e.items(), sep, t) && (e.items().len() == 0) == first }
broadcast proof fn inv_push<O, K, R: Rd<O>>(a: SequenceEntry<O, K>, sep: Seq<char>, o: O, b: SequenceEntry<O, K>, t1: Seq<char>, t2: Seq<char>)
    requires #[trigger] inv_list::<O, K, R>(a, sep, false, t1), #[trigger] R::sp(o, t2), #[trigger] vx_pushed(a, o, b) ensures inv_list::<O, K, R>(b, sep, false, t1 + sep + t2)
{ list_push::<O, R>(a.items(), sep, o, t1, t2); }
broadcast proof fn inv_push1<O, K, R: Rd<O>>(a: SequenceEntry<O, K>, sep: Seq<char>, o: O, b: SequenceEntry<O, K>, t1: Seq<char>, t2: Seq<char>)
    requires #[trigger] inv_list::<O, K, R>(a, sep, true, t1), #[trigger] R::sp(o, t2), #[trigger] vx_pushed(a, o, b) ensures inv_list::<O, K, R>(b, sep, false, t2)
{ list_push::<O, R>(a.items(), sep, o, t1, t2); }
spec fn inv_row<O, K, R: Rd<O>>(e: SequenceEntry<O, K>, t: Seq<char>) -> bool { list_sp::<O, R>(e.items(), none(), t) }
broadcast proof fn row_push<O, K, R: Rd<O>>(a: SequenceEntry<O, K>, o: O, b: SequenceEntry<O, K>, t1: Seq<char>, t2: Seq<char>)
    requires #[trigger] inv_row::<O, K, R>(a, t1), #[trigger] R::sp(o, t2), #[trigger] vx_pushed(a, o, b) ensures inv_row::<O, K, R>(b, t1 + t2)
{ broadcast use vx_seq; list_push::<O, R>(a.items(), none(), o, t1, t2); }
broadcast group vx_lists { inv_push, inv_push1, row_push }
spec fn opt_sp<O, R: Rd<O>>(o: Option<O>, t: Seq<char>) -> bool { match o { Some(x) => R::sp(x, t), None => t == none() } }

// qualifiers: any number of const and volatile, in any order
spec fn cv_words(ws: Seq<bool>) -> Seq<char> decreases ws.len() { if ws.len() == 0 { none() } else { cv_words(ws.drop_last()) + word(if ws.last() { "const"@ } else { "volatile"@ }) } }
spec fn sp_cv(c: ConstVolatile, t: Seq<char>) -> bool { exists|ws: Seq<bool>| t == #[trigger] cv_words(ws) && c.is_const == ws.contains(true) && c.is_volatile == ws.contains(false) }
proof fn no_cv() ensures sp_cv(ConstVolatile { is_const: false, is_volatile: false }, none()) { let ws = Seq::<bool>::empty(); assert(cv_words(ws) == none()); assert(!ws.contains(true) && !ws.contains(false)); }
spec fn sp_ref(r: Reference, t: Seq<char>) -> bool { match r { Reference::None => t == none(), Reference::LValue => t == "&"@, Reference::RValue => t == "&&"@ } }
// names as written and interned
uninterp spec fn ident_text(k: IdentifierKey) -> Seq<char>;
spec fn sp_ident(k: IdentifierKey, t: Seq<char>) -> bool { t == word(ident_text(k)) && is_identifier(ident_text(k)) }
uninterp spec fn sp_path(k: PathKey, t: Seq<char>) -> bool;
// legacy names: words in any order
enum LWord { Float, Double, Long, Unsigned, Char, Int, Int128, Signed, Short, Complex }
spec fn lword(w: LWord) -> Seq<char> { match w { LWord::Float => "float"@, LWord::Double => "double"@, LWord::Long => "long"@, LWord::Unsigned => "unsigned"@, LWord::Char => "char"@, LWord::Int => "int"@, LWord::Int128 => "__int128"@,
    LWord::Signed => "signed"@, LWord::Short => "short"@, LWord::Complex => "_Complex"@ } }
spec fn lwords(ws: Seq<LWord>) -> Seq<char> decreases ws.len() { if ws.len() == 0 { none() } else { lwords(ws.drop_last()) + word(lword(ws.last())) } }
spec fn many(ws: Seq<LWord>, w: LWord) -> nat decreases ws.len() { if ws.len() == 0 { 0 } else { many(ws.drop_last(), w) + (if ws.last() == w { 1nat } else { 0 }) } }
// how many of each: base types, sizes, signs
spec fn bases(ws: Seq<LWord>, n_float: nat, n_double: nat, n_char: nat, n_int: nat, n_int128: nat) -> bool { many(ws, LWord::Float) == n_float && many(ws, LWord::Double) == n_double && many(ws, LWord::Char) == n_char && many(ws, LWord::Int) == n_int && many(ws, LWord::Int128) == n_int128 }
spec fn sizes(ws: Seq<LWord>, short: nat, long: nat) -> bool { many(ws, LWord::Short) == short && many(ws, LWord::Long) == long }
spec fn signs(ws: Seq<LWord>, signed: nat, unsigned: nat) -> bool { many(ws, LWord::Signed) == signed && many(ws, LWord::Unsigned) == unsigned }
spec fn complex(ws: Seq<LWord>, n: nat) -> bool { many(ws, LWord::Complex) == n }
spec fn is_legacy(ws: Seq<LWord>, l: LegacyName) -> bool {
    let integer = bases(ws, 0, 0, 0, 0, 0) || bases(ws, 0, 0, 0, 1, 0); let signed = signs(ws, 0, 0) || signs(ws, 1, 0); let unsigned = signs(ws, 0, 1); let plain = complex(ws, 0);
    ws.len() > 0 && match l {
    LegacyName::SignedShort => integer && signed && sizes(ws, 1, 0) && plain, LegacyName::UnsignedShort => integer && unsigned && sizes(ws, 1, 0) && plain,
    LegacyName::SignedInt => integer && signed && sizes(ws, 0, 0) && plain, LegacyName::UnsignedInt => integer && unsigned && sizes(ws, 0, 0) && plain,
    LegacyName::SignedLong => integer && signed && sizes(ws, 0, 1) && plain, LegacyName::UnsignedLong => integer && unsigned && sizes(ws, 0, 1) && plain,
    LegacyName::SignedLongLong => integer && signed && sizes(ws, 0, 2) && plain, LegacyName::UnsignedLongLong => integer && unsigned && sizes(ws, 0, 2) && plain,
    LegacyName::SignedInt128 => bases(ws, 0, 0, 0, 0, 1) && signed && sizes(ws, 0, 0) && plain, LegacyName::UnsignedInt128 => bases(ws, 0, 0, 0, 0, 1) && unsigned && sizes(ws, 0, 0) && plain,
    LegacyName::Char => bases(ws, 0, 0, 1, 0, 0) && signs(ws, 0, 0) && sizes(ws, 0, 0) && plain, LegacyName::SignedChar => bases(ws, 0, 0, 1, 0, 0) && signs(ws, 1, 0) && sizes(ws, 0, 0) && plain,
    LegacyName::UnsignedChar => bases(ws, 0, 0, 1, 0, 0) && unsigned && sizes(ws, 0, 0) && plain,
    LegacyName::Float => bases(ws, 1, 0, 0, 0, 0) && signs(ws, 0, 0) && sizes(ws, 0, 0) && plain, LegacyName::Double => bases(ws, 0, 1, 0, 0, 0) && signs(ws, 0, 0) && sizes(ws, 0, 0) && plain,
    LegacyName::LongDouble => bases(ws, 0, 1, 0, 0, 0) && signs(ws, 0, 0) && sizes(ws, 0, 1) && plain,
    LegacyName::FloatComplex => bases(ws, 1, 0, 0, 0, 0) && signs(ws, 0, 0) && sizes(ws, 0, 0) && complex(ws, 1), LegacyName::DoubleComplex => bases(ws, 0, 1, 0, 0, 0) && signs(ws, 0, 0) && sizes(ws, 0, 0) && complex(ws, 1),
    LegacyName::LongDoubleComplex => bases(ws, 0, 1, 0, 0, 0) && signs(ws, 0, 0) && sizes(ws, 0, 1) && complex(ws, 1) } }
spec fn sp_legacy(l: LegacyName, t: Seq<char>) -> bool { exists|ws: Seq<LWord>| t == #[trigger] lwords(ws) && is_legacy(ws, l) }
uninterp spec fn sp_type(k: TypeKey, t: Seq<char>) -> bool;
uninterp spec fn sp_value(k: ValueKey, t: Seq<char>) -> bool;
uninterp spec fn sp_declarator(k: DeclaratorKey, t: Seq<char>) -> bool;
spec fn between(a: Seq<char>, b: Seq<char>, z: Seq<char>, t: Seq<char>) -> bool { t == a + b + z }
spec fn sp_in_value(a: Seq<char>, k: ValueKey, z: Seq<char>, t: Seq<char>) -> bool { exists|u: Seq<char>| #[trigger] sp_value(k, u) && t == a + u + z }
spec fn sp_in_type(a: Seq<char>, k: TypeKey, z: Seq<char>, t: Seq<char>) -> bool { exists|u: Seq<char>| #[trigger] sp_type(k, u) && t == a + u + z }
// functions
spec fn sp_args(k: FunctionArgumentsKey, t: Seq<char>) -> bool { exists|u: Seq<char>| #[trigger] list_sp::<ValueKey, R_value>(items(k), ","@, u) && t == "("@ + u + ")"@ }
spec fn sp_params(p: FunctionParameterSet, t: Seq<char>) -> bool {
    vx_g(items::<TypeKey, FunctionParametersKey>(p.parameters)) && exists|u: Seq<char>| #[trigger] list_sp::<TypeKey, R_type>(items(p.parameters), ","@, u)
        && t == "("@ + u + (if !p.variadic { none() } else if items::<TypeKey, FunctionParametersKey>(p.parameters).len() == 0 { "..."@ } else { ",..."@ }) + ")"@ }
spec fn sp_noexcept(n: Option<ValueKey>, t: Seq<char>) -> bool { match n { None => t == word("noexcept"@), Some(v) => sp_in_value(word("noexcept"@) + "("@, v, ")"@, t) } }
spec fn sp_abi(n: IdentifierKey, t: Seq<char>) -> bool { exists|u: Seq<char>| #[trigger] sp_ident(n, u) && t == "[abi:"@ + u + "]"@ }
spec fn sp_signature(f: FunctionSignature, t: Seq<char>) -> bool {
    vx_g(f.abi) && vx_g(f.parameter_set) && vx_g(f.cv) && vx_g(f.reference) && vx_g(f.noexcept) && vx_g(f.trailing_return) && exists|t1: Seq<char>, t2: Seq<char>, t3: Seq<char>, t4: Seq<char>, t5: Seq<char>, t6: Seq<char>| t == t1 + t2 + t3 + t4 + t5 + t6
        && #[trigger] vx_t(f.abi, t1) && R_abi::osp(f.abi, t1) && #[trigger] sp_params(f.parameter_set, t2) && #[trigger] sp_cv(f.cv, t3) && #[trigger] sp_ref(f.reference, t4)
        && #[trigger] vx_t(f.noexcept, t5) && R_noexcept::osp(f.noexcept, t5) && #[trigger] vx_t(f.trailing_return, t6) && R_return::osp(f.trailing_return, t6) }
// templates: `, void` stands for a missing list
spec fn sp_tparam(p: TemplateParameter, t: Seq<char>) -> bool { match p { TemplateParameter::TypeLike(k) => sp_type(k, t), TemplateParameter::ValueLike(k) => sp_value(k, t) } }
spec fn sp_tparams(p: TemplateParameters, t: Seq<char>) -> bool { match p { None => t == "<, void>"@, Some(k) => sp_tlist(k, t) } }
spec fn sp_tlist(k: TemplateParameterListKey, t: Seq<char>) -> bool { exists|u: Seq<char>| #[trigger] list_sp::<TemplateParameter, R_tparam>(items(k), ","@, u) && t == "<"@ + u + ">"@ }
// entities without a name
spec fn sp_loc(l: SourceLocation, t: Seq<char>) -> bool { vx_g(l.file) && vx_g(l.location.0 as int) && vx_g(l.location.1 as int) && exists|a: Seq<char>, b: Seq<char>, c: Seq<char>| #[trigger] sp_path(l.file, a) && #[trigger] reads_int(l.location.0 as int, b) && #[trigger] reads_int(l.location.1 as int, c) && t == a + ":"@ + b + ":"@ + c }
spec fn sp_clang_lambda(l: ClangLambda, t: Seq<char>) -> bool { vx_g(l.0) && exists|u: Seq<char>| #[trigger] sp_loc(l.0, u) && t == "(lambda at "@ + u + ")"@ }
spec fn sp_lib_lambda(l: LibibertyLambda, t: Seq<char>) -> bool { vx_g(l.signature) && vx_g(l.id as int) && exists|u: Seq<char>, v: Seq<char>| #[trigger] sp_signature(l.signature, u) && #[trigger] reads_int(l.id as int, v) && t == "{lambda"@ + u + "#"@ + v + "}"@ }
spec fn sp_clang_anon(a: ClangAnonymousEntity, t: Seq<char>) -> bool {
    vx_g(a.identifier) && vx_g(a.location) && exists|u: Seq<char>, v: Seq<char>| #[trigger] vx_t(a.identifier, u) && R_anon_id::osp(a.identifier, u) && #[trigger] vx_t(a.location, v) && R_anon_loc::osp(a.location, v)
        && (t == "("@ + "anonymous"@ + u + v + ")"@ || t == "("@ + "unnamed"@ + u + v + ")"@) }
spec fn sp_unnamed(a: LibibertyUnnamedType, t: Seq<char>) -> bool { vx_g(a.0 as int) && exists|v: Seq<char>| #[trigger] reads_int(a.0 as int, v) && t == "{unnamed type#"@ + v + "}"@ }
spec fn sp_anon(a: AnonymousEntity, t: Seq<char>) -> bool { match a { AnonymousEntity::ClangLambda(l) => sp_clang_lambda(l, t), AnonymousEntity::ClangOther(o) => sp_clang_anon(o, t), AnonymousEntity::LibibertyLambda(l) => sp_lib_lambda(l, t), AnonymousEntity::LibibertyUnnamed(n) => sp_unnamed(n, t) } }
// operators: the symbols of an operator are all its text has; the others are words, and types in parentheses where they are casts
spec fn sym(s: Symbol) -> Seq<char> { match s { SYMBOLS } }
spec fn op_text(op: Operator) -> Seq<char> { match op {
    Operator::Basic { symbol, twice, equal } => sym(symbol) + (if twice { sym(symbol) } else { none() }) + (if equal { "="@ } else { none() }),
    Operator::Deref { star } => "->"@ + (if star { "*"@ } else { none() }),
    Operator::Spaceship => "<=>"@,
    Operator::CallIndex { is_index } => if is_index { "[]"@ } else { "()"@ },
    Operator::NewDelete { is_delete, array } => word(if is_delete { "delete"@ } else { "new"@ }) + (if array { "[]"@ } else { none() }),
    Operator::CoAwait => word("co_await"@),
    _ => none() } }
spec fn is_basic(op: Operator) -> bool { op matches Operator::Basic { symbol: _, twice: false, equal: false } }
spec fn is_basic2(op: Operator) -> bool { op matches Operator::Basic { symbol: _, twice: true, equal: false } }
spec fn vx_from(s: Symbol, o: Operator) -> bool { o == (Operator::Basic { symbol: s, twice: false, equal: false }) }
spec fn sp_op_use(op: Operator, t: Seq<char>) -> bool { match op { Operator::Conversion(ty) => sp_in_type("("@, ty, ")"@, t), Operator::CustomLiteral(_) => false, _ => t == op_text(op) } }
spec fn sp_op_decl(op: Operator, t: Seq<char>) -> bool { match op { Operator::Conversion(ty) => sp_type(ty, t), Operator::CustomLiteral(i) => sp_after_text("\"\""@, i, t), _ => t == op_text(op) } }
spec fn sp_op_templates(o: (Operator, Option<TemplateParameters>), t: Seq<char>) -> bool { vx_g(o.0) && vx_g(o.1) && exists|t1: Seq<char>, t2: Seq<char>| #[trigger] vx_t(o.0, t1) && sp_op_decl(o.0, t1) && #[trigger] vx_t(o.1, t2) && R_tparams::osp(o.1, t2) && t == t1 + t2 }
spec fn sp_overload(o: (Operator, Option<TemplateParameters>), t: Seq<char>) -> bool { exists|u: Seq<char>| #[trigger] vx_t(o, u) && sp_op_templates(o, u) && t == word("operator"@) + u }
spec fn sp_new(n: NewExpression, t: Seq<char>) -> bool {
    vx_g(n.placement) && vx_g(n.ty) && vx_g(n.constructor) && exists|t1: Seq<char>, t2: Seq<char>, t3: Seq<char>| #[trigger] vx_t(n.placement, t1) && R_args::osp(n.placement, t1) && #[trigger] sp_type(n.ty, t2) && #[trigger] vx_t(n.constructor, t3) && R_args::osp(n.constructor, t3)
        && t == (if n.rooted { "::"@ } else { none() }) + word("new"@) + t1 + t2 + t3 }
// names
spec fn sp_named_tps(p: TemplateParameters, t: Seq<char>) -> bool { exists|c: ConstVolatile, u: Seq<char>, v: Seq<char>| #[trigger] sp_cv(c, u) && #[trigger] sp_tparams(p, v) && t == u + v }
spec fn sp_unqualified(i: UnqualifiedId, t: Seq<char>) -> bool { match i {
    UnqualifiedId::Named { is_destructor, id, template_parameters } => sp_named(is_destructor, id, template_parameters, t),
    UnqualifiedId::Operator { operator, template_parameters } => sp_overload((operator, template_parameters), t),
    UnqualifiedId::Decltype(v) => sp_in_value("decltype("@, v, ")"@, t),
    UnqualifiedId::Anonymous(a) => sp_anon(a, t) } }
// what may stand between a scope and its `::`, and is ignored: qualifiers and reference marks
spec fn all_ignorable(ts: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ts.len() ==> ignorable(#[trigger] ts[i]) }
spec fn ignored(n: nat, t: Seq<char>) -> bool { exists|ts: Seq<Seq<char>>| #[trigger] all_ignorable(ts) && ts.len() == n && t == joined(ts, none()) }
spec fn ignorable(t: Seq<char>) -> bool { (exists|c: ConstVolatile| #[trigger] sp_cv(c, t)) || (exists|r: Reference| #[trigger] sp_ref(r, t)) }
broadcast proof fn ignored_more<O>(n: nat, t1: Seq<char>, o: O, t2: Seq<char>) requires #[trigger] ignored(n, t1), #[trigger] vx_t(o, t2), ignorable(t2) ensures ignored(n + 1, t1 + t2)
{ broadcast use vx_seq; let ts = choose|ts: Seq<Seq<char>>| #[trigger] all_ignorable(ts) && ts.len() == n && t1 == joined(ts, none()); joined_push(ts, none(), t2); assert(all_ignorable(ts.push(t2))); if n == 0 { assert(t1 == none()); } }
proof fn no_words() ensures ignored(0, none()) { let ts = Seq::<Seq<char>>::empty(); assert(all_ignorable(ts)); assert(joined(ts, none()) == none()); }
spec fn sp_scope_tail(f: Option<FunctionSignature>, t: Seq<char>) -> bool { exists|t2: Seq<char>, n: nat, t3: Seq<char>| #[trigger] vx_t(f, t2) && R_signature::osp(f, t2) && #[trigger] ignored(n, t3) && t == t2 + t3 + "::"@ }
spec fn sp_nested_then(p: NestedNameSpecifier, i: UnqualifiedId, t: Seq<char>) -> bool { exists|t1: Seq<char>, t2: Seq<char>| #[trigger] sp_nested(p, t1) && #[trigger] sp_unqualified(i, t2) && t == t1 + t2 }
spec fn sp_tilded(i: UnqualifiedId, t: Seq<char>) -> bool { match i { UnqualifiedId::Named { is_destructor: true, id, template_parameters } => sp_named(false, id, template_parameters, t), _ => false } }
spec fn sp_scope(s: Scope, t: Seq<char>) -> bool { vx_g(s.id) && vx_g(s.function_signature) && exists|t1: Seq<char>, t2: Seq<char>, n: nat, t3: Seq<char>| #[trigger] sp_unqualified(s.id, t1) && #[trigger] vx_t(s.function_signature, t2) && R_signature::osp(s.function_signature, t2) && #[trigger] ignored(n, t3) && t == t1 + t2 + t3 + "::"@ }
spec fn sp_nested(p: NestedNameSpecifier, t: Seq<char>) -> bool { vx_g(items::<Scope, ScopesKey>(p.scopes)) && exists|u: Seq<char>| #[trigger] list_sp::<Scope, R_scope>(items(p.scopes), none(), u) && t == (if p.rooted { "::"@ } else { none() }) + u }
spec fn sp_id(i: IdExpression, t: Seq<char>) -> bool { vx_g(i.path) && vx_g(i.id) && exists|t1: Seq<char>, t2: Seq<char>| #[trigger] sp_nested(i.path, t1) && #[trigger] sp_unqualified(i.id, t2) && t == t1 + t2 }
// types: names may carry a keyword
spec fn sp_simple(s: SimpleType, t: Seq<char>) -> bool { match s {
    SimpleType::IdExpression(i) => sp_tagged(i, t),
    SimpleType::LegacyName(l) => sp_legacy(l, t),
    SimpleType::LibibertyAuto(n) => sp_auto(n, t) } }
spec fn sp_specifier(s: TypeSpecifier, t: Seq<char>) -> bool { vx_g(s.cv) && vx_g(s.simple_type) && exists|u: Seq<char>, v: Seq<char>| #[trigger] sp_cv(s.cv, u) && #[trigger] sp_simple(s.simple_type, v) && t == u + v }
spec fn sp_attributes(k: FunctionArgumentsKey, t: Seq<char>) -> bool { (t == none() && items::<ValueKey, FunctionArgumentsKey>(k).len() == 0) || (exists|u: Seq<char>| #[trigger] sp_args(k, u) && t == "__attribute__("@ + u + ")"@) }
spec fn sp_type_like(x: TypeLike, t: Seq<char>) -> bool { vx_g(x.attributes) && vx_g(x.type_specifier) && vx_g(x.declarator) && exists|t1: Seq<char>, t2: Seq<char>, t3: Seq<char>| #[trigger] vx_t(x.attributes, t1) && sp_attributes(x.attributes, t1) && #[trigger] sp_specifier(x.type_specifier, t2) && #[trigger] sp_declarator(x.declarator, t3) && t == t1 + t2 + t3 }
spec fn restrict_word(t: Seq<char>) -> bool { t == word("__restrict"@) || t == word("__restrict__"@) || t == word("restrict"@) }
spec fn sp_pointer_cv(c: ConstVolatile, restrict: bool, t: Seq<char>) -> bool {
    exists|c1: ConstVolatile, c2: ConstVolatile, t1: Seq<char>, t2: Seq<char>, t3: Seq<char>| #[trigger] sp_cv(c1, t1) && #[trigger] sp_cv(c2, t3) && c == both(c1, c2)
        && t == #[trigger] (t1 + t2 + t3) && (if restrict { restrict_word(t2) } else { t2 == none() }) }
spec fn both(a: ConstVolatile, b: ConstVolatile) -> ConstVolatile { ConstVolatile { is_const: a.is_const || b.is_const, is_volatile: a.is_volatile || b.is_volatile } }
spec fn sp_decl_op(d: DeclOperator, t: Seq<char>) -> bool { match d {
    DeclOperator::ConstVolatile(c) => sp_cv(c, t),
    DeclOperator::Pointer { path, cv, restrict } => sp_pointer(path, cv, restrict, t),
    DeclOperator::Reference(r) => sp_ref(r, t),
    DeclOperator::Array(v) => match v { Some(v) => sp_in_value("["@, v, "]"@, t), None => t == "[]"@ },
    DeclOperator::Function(f) => sp_signature(f, t),
    DeclOperator::Parenthesized(d) => sp_in_parens(d, t),
    DeclOperator::VectorSize(v) => sp_in_value("__vector("@, v, ")"@, t) } }
// values
spec fn suffix_letter(c: char) -> bool { c == 'u' || c == 'U' || c == 'l' || c == 'L' || c == 'z' || c == 'Z' }
spec fn suffix(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> suffix_letter(#[trigger] t[i]) }
spec fn sp_integer(v: int, t: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| #[trigger] reads_int(v, a) && #[trigger] suffix(b) && t == a + b }
spec fn sp_escape(c: char, t: Seq<char>) -> bool { (t == "t"@ && c == '\t') || (t == "r"@ && c == '\r') || (t == "n"@ && c == '\n') || (t == "'"@ && c == '\'') || (t == "\""@ && c == '"') || (t == "\\"@ && c == '\\')
    || (digits(t, 8) && c as int == number(t, 8)) || (t.len() > 0 && (t[0] == 'x' || t[0] == 'u' || t[0] == 'U') && digits(t.skip(1), 16) && c as int == number(t.skip(1), 16)) }
spec fn sp_char_body(c: char, t: Seq<char>) -> bool { t == seq![c] || exists|e: Seq<char>| #[trigger] sp_escape(c, e) && t == "\\"@ + e }
spec fn char_prefix(t: Seq<char>) -> bool { t == none() || t == "u8"@ || t == "u"@ || t == "U"@ || t == "L"@ }
spec fn sp_character(c: char, t: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| #[trigger] char_prefix(a) && #[trigger] vx_t(c, b) && sp_char_body(c, b) && t == a + "'"@ + b + "'"@ }
spec fn sp_literal_value(l: LiteralValue, t: Seq<char>) -> bool { match l { LiteralValue::I64(v) => sp_integer(v as int, t), LiteralValue::U64(v) => sp_integer(v as int, t), LiteralValue::Char(c) => sp_character(c, t) } }
spec fn sp_literal(l: Literal, t: Seq<char>) -> bool { vx_g(l.value) && vx_g(l.custom_suffix) && exists|u: Seq<char>, v: Seq<char>| #[trigger] sp_literal_value(l.value, u) && #[trigger] vx_t(l.custom_suffix, v) && R_ident::osp(l.custom_suffix, v) && t == u + v }
spec fn sp_header(h: ValueHeader, t: Seq<char>) -> bool { match h {
    ValueHeader::Literal(l) => sp_literal(l, t),
    ValueHeader::Parenthesized(v) => sp_in_value("("@, v, ")"@, t),
    ValueHeader::UnaryOp(op, v) => sp_applied(op, v, t),
    ValueHeader::NewExpression(n) => sp_new(n, t),
    ValueHeader::IdExpression(i) => sp_id(i, t),
    ValueHeader::Ellipsis => t == "..."@,
    ValueHeader::SizeOf(k) => sp_in_type("sizeof("@, k, ")"@, t),
    ValueHeader::DeclVal(k) => sp_in_type("declval("@, k, ")"@, t) } }
spec fn sp_after(h: AfterValue, t: Seq<char>) -> bool { match h {
    AfterValue::ArrayIndex(v) => sp_in_value("["@, v, "]"@, t),
    AfterValue::FunctionCall(a) => sp_args(a, t),
    AfterValue::BinaryOp(op, v) => sp_applied(op, v, t),
    AfterValue::TernaryOp(v, w) => sp_choice(v, w, t),
    AfterValue::MemberAccess(i) => sp_member(i, t),
    AfterValue::PostfixOp(op) => sp_op_use(op, t),
    AfterValue::Ellipsis => t == "..."@ } }
spec fn sp_value_like(x: ValueLike, t: Seq<char>) -> bool { vx_g(x.header) && vx_g(items::<AfterValue, ValueTrailerKey>(x.trailer)) && exists|t1: Seq<char>, t2: Seq<char>| #[trigger] sp_header(x.header, t1) && #[trigger] list_sp::<AfterValue, R_after>(items(x.trailer), none(), t2) && t == t1 + t2 }
spec fn sp_after_text(a: Seq<char>, i: IdentifierKey, t: Seq<char>) -> bool { exists|u: Seq<char>| #[trigger] sp_ident(i, u) && t == a + u }
spec fn sp_named(is_destructor: bool, id: IdentifierKey, template_parameters: Option<TemplateParameters>, t: Seq<char>) -> bool { exists|u: Seq<char>, v: Seq<char>| #[trigger] sp_ident(id, u) && #[trigger] vx_t(template_parameters, v) && R_named_tps::osp(template_parameters, v) && t == (if is_destructor { "~"@ } else { none() }) + u + v }
spec fn sp_tagged(i: IdExpression, t: Seq<char>) -> bool { exists|v: Seq<char>| #[trigger] sp_id(i, v) && (t == v || t == word("typename"@) + v || t == word("class"@) + v || t == word("struct"@) + v || t == word("enum"@) + v || t == word("union"@) + v) }
spec fn sp_auto(n: u32, t: Seq<char>) -> bool { exists|u: Seq<char>| #[trigger] reads_int(n as int, u) && t == "auto:"@ + u }
spec fn sp_pointer(path: NestedNameSpecifier, cv: ConstVolatile, restrict: bool, t: Seq<char>) -> bool { exists|u: Seq<char>, v: Seq<char>| #[trigger] sp_nested(path, u) && #[trigger] sp_pointer_cv(cv, restrict, v) && t == u + "*"@ + v }
spec fn sp_in_parens(d: DeclaratorKey, t: Seq<char>) -> bool { exists|u: Seq<char>| #[trigger] sp_declarator(d, u) && t == "("@ + u + ")"@ }
spec fn sp_applied(op: Operator, v: ValueKey, t: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| #[trigger] sp_op_use(op, a) && #[trigger] sp_value(v, b) && t == a + b }
spec fn sp_choice(v: ValueKey, w: ValueKey, t: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| #[trigger] sp_value(v, a) && #[trigger] sp_value(w, b) && t == "?"@ + a + ":"@ + b }
spec fn sp_member(i: UnqualifiedId, t: Seq<char>) -> bool { exists|u: Seq<char>| #[trigger] sp_unqualified(i, u) && t == "."@ + u }
"""
# by recursion on what was interned before
REC = r"""
broadcast axiom fn rec_type(k: TypeKey, t: Seq<char>) ensures #[trigger] sp_type(k, t) == sp_type_like(raw_type(k), t);
broadcast axiom fn rec_value(k: ValueKey, t: Seq<char>) ensures #[trigger] sp_value(k, t) == sp_value_like(raw_value(k), t);
broadcast axiom fn rec_declarator(k: DeclaratorKey, t: Seq<char>) ensures #[trigger] sp_declarator(k, t) == list_sp::<DeclOperator, R_decl_op>(items(k), none(), t);
"""
MARKERS = {  # marker: type read, how it is spelled
    "R_value": ("ValueKey", "sp_value(o, t)"), "R_type": ("TypeKey", "sp_type(o, t)"), "R_ident": ("IdentifierKey", "sp_ident(o, t)"), "R_args": ("FunctionArgumentsKey", "sp_args(o, t)"),
    "R_params": ("FunctionParameterSet", "sp_params(o, t)"), "R_noexcept": ("Option<ValueKey>", "sp_noexcept(o, t)"), "R_abi": ("IdentifierKey", "sp_abi(o, t)"), "R_return": ("TypeKey", 'sp_in_type("->"@, o, none(), t)'),
    "R_signature": ("FunctionSignature", "sp_signature(o, t)"), "R_tparam": ("TemplateParameter", "sp_tparam(o, t)"), "R_tparams": ("TemplateParameters", "sp_tparams(o, t)"), "R_loc": ("SourceLocation", "sp_loc(o, t)"),
    "R_clang_lambda": ("ClangLambda", "sp_clang_lambda(o, t)"), "R_lib_lambda": ("LibibertyLambda", "sp_lib_lambda(o, t)"), "R_clang_anon": ("ClangAnonymousEntity", "sp_clang_anon(o, t)"), "R_unnamed": ("LibibertyUnnamedType", "sp_unnamed(o, t)"),
    "R_anon": ("AnonymousEntity", "sp_anon(o, t)"), "R_anon_id": ("IdentifierKey", 'exists|u: Seq<char>| #[trigger] sp_ident(o, u) && t == " "@ + u'), "R_anon_loc": ("SourceLocation", 'exists|u: Seq<char>| #[trigger] sp_loc(o, u) && t == " at "@ + u'),
    "R_op_use": ("Operator", "sp_op_use(o, t)"), "R_op_decl": ("Operator", "sp_op_decl(o, t)"), "R_symbols": ("Operator", "sp_op_use(o, t) && sp_op_decl(o, t)"), "R_symbol": ("Symbol", "t == sym(o)"), "R_basic": ("Operator", "is_basic(o) && sp_op_use(o, t) && sp_op_decl(o, t)"),
    "R_overload": ("(Operator, Option<TemplateParameters>)", "sp_overload(o, t)"), "R_op_templates": ("(Operator, Option<TemplateParameters>)", "sp_op_templates(o, t)"), "R_new": ("NewExpression", "sp_new(o, t)"),
    "R_named_tps": ("TemplateParameters", "sp_named_tps(o, t)"), "R_unqualified": ("UnqualifiedId", "sp_unqualified(o, t)"), "R_scope": ("Scope", "sp_scope(o, t)"), "R_nested": ("NestedNameSpecifier", "sp_nested(o, t)"),
    "R_id": ("IdExpression", "sp_id(o, t)"), "R_simple": ("SimpleType", "sp_simple(o, t)"), "R_specifier": ("TypeSpecifier", "sp_specifier(o, t)"), "R_declarator": ("DeclaratorKey", "sp_declarator(o, t)"), "R_decl_op": ("DeclOperator", "sp_decl_op(o, t)"),
    "R_cv": ("ConstVolatile", "sp_cv(o, t)"), "R_ref": ("Reference", "sp_ref(o, t)"), "R_legacy": ("LegacyName", "sp_legacy(o, t)"), "R_literal": ("Literal", "sp_literal(o, t)"), "R_literal_value": ("LiteralValue", "sp_literal_value(o, t)"),
    "R_tilded": ("UnqualifiedId", "sp_tilded(o, t)"), "R_scope_tail": ("Option<FunctionSignature>", "sp_scope_tail(o, t)"), "R_sou": ("ScopeOrUnqualifiedId", "match o { ScopeOrUnqualifiedId::Scope(s) => sp_scope(s, t), ScopeOrUnqualifiedId::UnqualifiedId(i) => sp_unqualified(i, t) }"), "R_entity": ("Option<TypeKey>", 'match o { None => t == "<unknown>"@, Some(k) => sp_type(k, t) }'),
    "R_char": ("char", "sp_character(o, t)"),
    "R_proto": ("(NestedNameSpecifier, Option<(&'a str, UnqualifiedId)>)", "match o.1 { None => sp_nested(o.0, t), Some(b) => sp_nested_then(o.0, b.1, t) }"),
    "R_header": ("ValueHeader", "sp_header(o, t)"), "R_after": ("AfterValue", "sp_after(o, t)"), "R_unknown": ("()", 't == "<unknown>"@'),
}
PARSERS = {  # method: marker, further parameters
    "parse_value_like_imut": ("R_value", 2), "parse_type_like_imut": ("R_type", 0), "parse_identifier_imut": ("R_ident", 0), "parse_function_call_imut": ("R_args", 0), "parse_function_parameter_set_imut": ("R_params", 0),
    "parse_noexcept_imut": ("R_noexcept", 0), "parse_function_signature_imut": ("R_signature", 0), "parse_template_parameters_imut": ("R_tparams", 0), "parse_template_parameter_imut": ("R_tparam", 0),
    "parse_source_location_imut": ("R_loc", 0), "parse_clang_lambda_imut": ("R_clang_lambda", 0), "parse_libiberty_lambda_imut": ("R_lib_lambda", 0), "parse_clang_anonymous_imut": ("R_clang_anon", 0), "parse_libiberty_unnamed_imut": ("R_unnamed", 0),
    "parse_anonymous_imut": ("R_anon", 0), "parse_unary_expr_prefix_imut": ("R_op_use", 0), "parse_operator_overload_imut": ("R_overload", 0), "parse_custom_literal_imut": ("R_op_decl", 0), "parse_arith_and_templates_imut": ("R_op_templates", 1), "parse_new_expression_imut": ("R_new", 0),
    "parse_unqualified_id_imut": ("R_unqualified", 0), "parse_nested_name_specifier_imut": ("R_nested", 0), "parse_id_expression_imut": ("R_id", 0), "parse_simple_type_imut": ("R_simple", 0), "parse_type_specifier_imut": ("R_specifier", 0),
    "parse_declarator_imut": ("R_declarator", 0), "parse_decl_operator_imut": ("R_decl_op", 0), "parse_legacy_name": ("R_legacy", 0), "parse_literal_imut": ("R_literal", 0), "parse_value_header_imut": ("R_header", 2), "parse_after_value_imut": ("R_after", 2),
}
STATICS = {"parse_cv": ("R_cv", 0), "parse_reference": ("R_ref", 0), "parse_increment_decrement": ("R_op_use", 0), "parse_unknown_entity": ("R_unknown", 0), "parse_binary_expr_middle": ("R_op_use", 2), "symbol": ("R_symbol", 0),
           "literal_value": ("R_literal_value", 0), "integer": ("R_literal_value", 0), "character": ("R_char", 0), "delete": ("R_symbols", 0), "arith": ("R_symbols", 1), "co_await": ("R_symbols", 0), "new": ("R_symbols", 0), "call_or_index": ("R_symbols", 0)}

def strip_use(toks, log):
    """imports of the parser library are dropped"""
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "use" and toks[i].k == "id" and toks[i+1].t in ("nom", "nom_supreme"):
            while toks[i].t != ";": i += 1
            i += 1; log["use nom…;  ==>    (parser library as trusted specification)"] = 1
            continue
        out.append(toks[i]); i += 1
    return out

PARSERS["parse_proto_id_expression_imut"] = ("R_proto", 0)
PAR = ["", ", n: usize", ", a: bool, b: bool"]; PRE = ["", "requires 1 <= n <= 3 ", ""]; POST = {"arith": "n == 1 ==> gives::<Operator, R_basic>(r), "}
BCAST = "broadcast use vx_seq; broadcast use vx_keys; broadcast use vx_lists;"

def base(name, rec=True):
    u = Unit(name, rlimit=120)
    for r in RULES: u.rule(*r)
    one = "()[]<>,?:.#}*~& ="
    u.raw(PRELUDE.replace("ONECHARS", ", ".join(f"\"{c}\"@ == seq!['{c}']" for c in one)).replace("REVEALS", " ".join(f"reveal_strlit(\"{c}\"); assert(\"{c}\"@ =~= seq!['{c}']);" for c in one)))
    u.trust("nom and nom-supreme: what a combinator returns was read by the parsers it is made of, on the texts they consumed, in the order it names them; "
            "white space (multispace0, multispace1) is layout", NOM)
    for k in ["TypeKey", "ValueKey", "IdentifierKey", "PathKey", "EntityParser"] + [k for _f, _i, k in SEQS]:
        u.raw(f"#[verifier::external_body] {CP} pub struct {k} {{ x: u8 }}")
    u.item(LEGACY, "enum", "LegacyName", prefix=CP); u.item(QUAL, "struct", "ConstVolatile", prefix=CP); u.item(QUAL, "enum", "Reference", prefix=CP)
    for p, k, n in [(OPS, "enum", "Symbol"), (OPS, "enum", "Operator"), (FUN, "struct", "FunctionParameterSet"), (FUN, "struct", "FunctionSignature"), (FUN, "enum", "ParameterOrEllipsis"), (TPL, "enum", "TemplateParameter"),
                    (ANON, "struct", "SourceLocation"), (ANON, "struct", "ClangLambda"), (ANON, "struct", "LibibertyLambda"), (ANON, "struct", "ClangAnonymousEntity"), (ANON, "struct", "LibibertyUnnamedType"), (ANON, "enum", "AnonymousEntity"),
                    (USE, "struct", "NewExpression"), (UNQ, "enum", "UnqualifiedId"), (SCO, "struct", "Scope"), (SCO, "struct", "NestedNameSpecifier"), (SCO, "struct", "IdExpression"), (SCO, "enum", "ScopeOrUnqualifiedId"),
                    (SPEC, "enum", "SimpleType"), (SPEC, "struct", "TypeSpecifier"), (TYPES, "struct", "TypeLike"), (DECL, "enum", "DeclOperator"), (LIT, "enum", "LiteralValue"), (LIT, "struct", "Literal"),
                    (VAL, "enum", "ValueHeader"), (VAL, "enum", "AfterValue"), (VAL, "struct", "ValueLike")]:
        u.item(p, k, n, prefix="#[derive(Clone, Copy, PartialEq, Eq, Structural)]" if n == "Symbol" else CP)
    u.item(ANON, "type", "Line"); u.item(ANON, "type", "Column"); u.item(TPL, "type", "TemplateParameters")
    u.trust("interning: a key stands for what was interned under it (the asylum contracts of C05); an entry holds the items pushed since it was made", entries())
    u.raw(SPELL.replace("SYMBOLS", ", ".join(f"Symbol::{k} => seq!['{c}']" for k, c in SYM.items())))
    u.trust("how types, values and declarators are spelled, by recursion on what was interned before them", REC if rec else "")
    for m, (ty, sp) in MARKERS.items():
        g = "<'a>" if "'a" in ty else ""
        u.raw(f"struct {m} {{}} impl{g} Rd<{ty}> for {m} {{ spec fn sp(o: {ty}, t: Seq<char>) -> bool {{ {sp} }} }} impl {m} {{ spec fn osp{g}(o: Option<{ty}>, t: Seq<char>) -> bool {{ opt_sp::<{ty}, {m}>(o, t) }} }}")
    gen = lambda m: "<'a>" if "'a" in MARKERS[m][0] else ""
    stubs = "".join(f"    #[verifier::external_body] fn {n}{gen(m)}(self{PAR[k]}) -> (r: P<{MARKERS[m][0]}>) {PRE[k]}ensures gives::<{MARKERS[m][0]}, {m}>(r), {POST.get(n, '')}{{ unimplemented!() }}\n" for n, (m, k) in PARSERS.items())
    stat = "".join(f"    #[verifier::external_body] fn {n}(self{PAR[k]}) -> (r: P<{MARKERS[m][0]}>) {PRE[k]}ensures gives::<{MARKERS[m][0]}, {m}>(r), {POST.get(n, '')}{{ unimplemented!() }}\n" for n, (m, k) in STATICS.items())
    u.trust("a parser method passed to a combinator reads what its contract says (discharged method by method; induction on the text left to read)", f"""
#[verifier::external_body] struct Parsers {{}} #[verifier::external_body] struct Statics {{}}
impl EntityParser {{ #[verifier::external_body] fn vxp(&self) -> Parsers {{ unimplemented!() }} }}
#[verifier::external_body] fn vx_static() -> Statics {{ unimplemented!() }}
impl Parsers {{
{stubs}}}
impl Statics {{
{stat}}}""")
    return u

def parser(u, path, name, marker, impl="EntityParser", rewrites=(), start="", inv=None, attrs="", hints=(), tail=None, loops=(), lits=(), hint='', bc='', pre_contract='', post='', **kw):
    ty = MARKERS[marker][0]
    rw = list(rewrites) + [(".parse(s)", f".parse::<{marker}>(s)", "what the parser reads"), (")(s)", f").parse::<{marker}>(s)", "what the parser reads")]
    if inv:
        rw += [("parse_separated_terminated($a, $b, $c, || $d, $e,)", f"parse_separated_terminated($a, $b, $c, || -> (vx_o: _) ensures vx_is(vx_o, $d) {{ $d }}, $e, Ghost({inv}))", "what the repetition keeps"),
               ("fold_many0($a, || $d, $e,)", f"fold_many0($a, || -> (vx_o: _) ensures vx_is(vx_o, $d) {{ $d }}, $e, Ghost({inv}))", "what the repetition keeps")]
    f = X.find_fn(path, name, impl)
    ls = []
    for t in f.body:
        if t.k == "str" and t.t not in ls and t.t != '""': ls.append(t.t)
    rev = "".join(f"reveal_strlit({l});" for l in ls + [x for x in lits if x not in ls])
    u.fn(path, name, impl=impl, ret="vx_r", contract=f"{pre_contract} ensures ok::<{ty}, {marker}>(vx_r, s@), {post}", rewrites=rw, pre=strip_use, start=f"{BCAST} {bc} proof {{ one_char(); {rev} {hint} {start} }}", attrs=attrs, hints=hints, tail=tail, loops=loops, **kw)


def lists(*pairs): return " ".join(f'list_none::<{o}, {m}>({sep});' for o, m, sep in pairs)

def make_functions():
    u = base("reading_functions")
    parser(u, FUN, "parse_function_call_imut", "R_args", inv='|a, first: bool, t: Seq<char>| inv_list::<ValueKey, FunctionArgumentsKey, R_value>(a, ","@, first, t)',
           start=lists(("ValueKey", "R_value", '","@')))
    u.raw(r"""
type ParamState = (SequenceEntry<TypeKey, FunctionParametersKey>, bool, bool);
struct R_param {} impl Rd<ParameterOrEllipsis> for R_param { spec fn sp(o: ParameterOrEllipsis, t: Seq<char>) -> bool { match o { ParameterOrEllipsis::Parameter(p) => sp_type(p, t), ParameterOrEllipsis::Ellipsis => t == "..."@ } } }
spec fn ellipsis(variadic: bool, n: nat) -> Seq<char> { if !variadic { none() } else if n == 0 { "..."@ } else { ",..."@ } }
// C23: a trailing ellipsis is remembered, and nothing may follow it
spec fn vx_step(a: ParamState, i: ParameterOrEllipsis, b: ParamState) -> bool {
    if a.1 || a.2 { b.2 } else { !b.2 && match i { ParameterOrEllipsis::Parameter(p) => b.0.items() == a.0.items().push(p) && !b.1, ParameterOrEllipsis::Ellipsis => b.0.items() == a.0.items() && b.1 } } }
spec fn params_text(a: ParamState, t: Seq<char>) -> bool { vx_g(a.0.items()) && exists|u: Seq<char>| #[trigger] list_sp::<TypeKey, R_type>(a.0.items(), ","@, u) && t == u + ellipsis(a.1, a.0.items().len()) }
spec fn inv_params(a: ParamState, first: bool, t: Seq<char>) -> bool { !a.2 ==> params_text(a, t) && first == (a.0.items().len() == 0 && !a.1) }
broadcast proof fn params_push(a: ParamState, i: ParameterOrEllipsis, b: ParamState, first: bool, t1: Seq<char>, t2: Seq<char>)
    requires #[trigger] inv_params(a, first, t1), #[trigger] vx_t(i, t2), R_param::sp(i, t2), #[trigger] vx_step(a, i, b), first ==> t1 == none() ensures inv_params(b, false, if first { t2 } else { t1 + ","@ + t2 })
{
    broadcast use vx_seq; reveal_strlit(","); reveal_strlit("..."); reveal_strlit(",..."); assert(",..."@ =~= ","@ + "..."@);
    if !b.2 {
        let u = choose|u: Seq<char>| #[trigger] list_sp::<TypeKey, R_type>(a.0.items(), ","@, u) && t1 == u + ellipsis(a.1, a.0.items().len());
        let ts = choose|ts: Seq<Seq<char>>| #[trigger] each_sp::<TypeKey, R_type>(a.0.items(), ts) && u == joined(ts, ","@);
        match i { ParameterOrEllipsis::Parameter(p) => { list_push::<TypeKey, R_type>(a.0.items(), ","@, p, u, t2); }, ParameterOrEllipsis::Ellipsis => { if first { assert(u == none()); } } }
    }
}
""")
    parser(u, FUN, "parse_function_parameter_set_imut", "R_params", inv='|a: ParamState, first: bool, t: Seq<char>| inv_params(a, first, t)',
           rewrites=[("(mut $i_e, mut $i_v, $i_b), $i_i| { $e }", "vx_e: ParamState, $i_i| -> (vx_o: ParamState) ensures vx_step(vx_e, $i_i, vx_o) { let (mut $i_e, mut $i_v, $i_b) = vx_e; $e }", "contract of the closure"),
                     (".verify(|($i_a, $i_b, $i_c)| $e)", ".vx_verify(|vx_i: &ParamState| -> (vx_b: bool) ensures vx_b == !vx_i.2 { let $i_c = vx_i.2; $e })", "contract of the closure")],
           bc="broadcast use params_push;", start=lists(("TypeKey", "R_type", '","@')))
    parser(u, FUN, "parse_noexcept_imut", "R_noexcept")
    parser(u, FUN, "parse_function_signature_imut", "R_signature")
    return u

def make_templates():
    u = base("reading_templates")
    parser(u, TPL, "parse_template_parameters_imut", "R_tparams", inv='|a, first: bool, t: Seq<char>| inv_list::<TemplateParameter, TemplateParameterListKey, R_tparam>(a, ","@, first, t)',
           start=lists(("TemplateParameter", "R_tparam", '","@')), lits=['"<, void>"'], hint='assert("<, void>"@ =~= "<"@ + ", void>"@);')
    parser(u, TPL, "parse_template_parameter_imut", "R_tparam")
    return u

def make_anonymous():
    u = base("reading_anonymous")
    u32 = [("u32, char", "vx_u32(), char", "integer parser"), (", u32,", ", vx_u32(),", "integer parser"), (", u32)", ", vx_u32())", "integer parser"), ("(u32,", "(vx_u32(),", "integer parser")]
    parser(u, ANON, "parse_libiberty_unnamed_imut", "R_unnamed", rewrites=u32)
    parser(u, ANON, "parse_libiberty_lambda_imut", "R_lib_lambda", rewrites=u32)
    parser(u, ANON, "parse_clang_lambda_imut", "R_clang_lambda")
    parser(u, ANON, "parse_clang_anonymous_imut", "R_clang_anon")
    parser(u, ANON, "parse_anonymous_imut", "R_anon")
    u.raw("impl EntityParser { #[verifier::external_body] fn try_intern_path_imut(&self, p: &str) -> (r: Result<PathKey, VxErr>) ensures r matches Ok(k) ==> sp_path(k, p@) { unimplemented!() } }")
    parser(u, ANON, "parse_source_location_imut", "R_loc", rewrites=u32 + [("anychar.", "anychar().", "parser"), ("recognize(opt($i_d).and(take_till1(|c| c == ':')))", "vx_id_path()", "the text up to a colon that is not a disk designator's"),
        ("|path| self.try_intern_path_imut(path)", "|vx_i: &'static str| -> (vx_o: Result<PathKey, VxErr>) ensures vx_o matches Ok(k) ==> sp_path(k, vx_i@) { self.try_intern_path_imut(vx_i) }", "contract of the closure")])
    parser(u, ANON, "parse_unknown_entity", "R_unknown")
    return u

def make_types():
    u = base("reading_types")
    parser(u, TYPES, "parse_type_like_imut", "R_type", rewrites=[("opt.unwrap_or_else(|| $e)", "vx_unwrap_or(opt, $e)", "Option::unwrap_or_else of a pure closure")],
           bc="broadcast use rec_type;")
    parser(u, SPEC, "parse_type_specifier_imut", "R_specifier")
    parser(u, SPEC, "parse_simple_type_imut", "R_simple", rewrites=[(", u32)", ", vx_u32())", "integer parser"), ("Self::keywords_parser([$a, $b, $c, $d, $e])", "vx_keywords5($a, $b, $c, $d, $e)", "one of the words")])
    return u

def make_values():
    u = base("reading_values")
    parser(u, VAL, "parse_value_like_imut", "R_value", inv="|a, t: Seq<char>| inv_row::<AfterValue, ValueTrailerKey, R_after>(a, t)", bc="broadcast use rec_value;",
           start=lists(("AfterValue", "R_after", "none()")))
    parser(u, VAL, "parse_value_header_imut", "R_header")
    parser(u, VAL, "parse_after_value_imut", "R_after")
    parser(u, LIT, "parse_literal_imut", "R_literal", rewrites=[("(literal_value.", "(vx_static().literal_value().", "a parser function as a parser")])
    return u

def make_declarators():
    u = base("reading_declarators")
    u.raw("""
spec fn s_path(k: ScopesKey) -> NestedNameSpecifier { NestedNameSpecifier { rooted: false, scopes: k } }
#[verifier::external_body] #[verifier::when_used_as_spec(s_path)] fn vx_path(k: ScopesKey) -> (r: NestedNameSpecifier) ensures r == s_path(k) { unimplemented!() }
#[verifier::external_body] #[verifier::when_used_as_spec(both)] fn vx_both(a: ConstVolatile, b: ConstVolatile) -> (r: ConstVolatile) ensures r == both(a, b) { unimplemented!() }
spec fn no_path() -> NestedNameSpecifier { s_path(key_of::<Scope, ScopesKey>(Seq::empty())) }
""")
    parser(u, DECL, "parse_declarator_imut", "R_declarator", inv="|a, t: Seq<char>| inv_row::<DeclOperator, DeclaratorKey, R_decl_op>(a, t)", bc="broadcast use rec_declarator;",
           start=lists(("DeclOperator", "R_decl_op", "none()")))
    parser(u, DECL, "parse_decl_operator_imut", "R_decl_op", rewrites=[
        ANYP, ("EntityParser::keywords_parser([$a, $b, $c])", "vx_keywords3($a, $b, $c)", "one of the words"),
        ("let restrict = || $e;", "let restrict = $e;", "a parser made on demand as the parser"), ("restrict()", "restrict", "a parser made on demand as the parser"),
        ("let cv_restrict = || { $b_x };", "let cv_restrict = { $b_x };", "a parser made on demand as the parser"), ("cv_restrict()", "cv_restrict", "a parser made on demand as the parser"),
        ("($i_a | $i_b, $i_c)", "(vx_both($i_a, $i_b), $i_c)", "operator as its method"), ("self.scope_sequences.entry().intern().into()", "vx_path(self.scope_sequences.entry().intern())", "conversion by name"),
        ("opt.is_some()", "(opt matches Some(_))", "Option::is_some")],
        hints=[("before", "let mut basic_pointer", "proof { assert(vx_gives(cv_restrict, |o: (ConstVolatile, bool), t: Seq<char>| sp_pointer_cv(o.0, o.1, t))); }")],
        start=lists(("Scope", "R_scope", "none()")) + " assert(no_items::<Scope, ScopesKey>().items() =~= Seq::<Scope>::empty()); assert(sp_nested(no_path(), none()));",
        lits=['"[]"'], hint='assert("[]"@ =~= "["@ + "]"@);')
    return u

def make_operators():
    u = base("reading_operators")
    text = [('assert("->"@ =~= sym(Symbol::SubNeg) + sym(Symbol::Greater)); assert("->"@ + "*"@ =~= sym(Symbol::SubNeg) + sym(Symbol::Greater) + sym(Symbol::MulDeref)); '
             'assert("<=>"@ =~= sym(Symbol::Less) + sym(Symbol::AssignEq) + sym(Symbol::Greater));')]
    here = [("symbol.", "vx_static().symbol().", "a parser function as a parser"), (".and(symbol)", ".and(vx_static().symbol())", "a parser function as a parser"), ("tuple((symbol, symbol, symbol))", "tuple((vx_static().symbol(), vx_static().symbol(), vx_static().symbol()))", "a parser function as a parser")]
    sup = [("super::arithmetic_or_comparison::<$n>", "vx_static().arith($n)", "a parser function as a parser"), ("super::$i_f", "vx_static().$i_f()", "a parser function as a parser")]
    u.fn(OPS, "from", impl="Operator", trait="From<Symbol>", header="impl Operator", ret="vx_r", contract="ensures vx_from(symbol, vx_r),")
    u.raw("#[verifier::external_body] fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }")
    parser(u, OPS, "symbol", "R_symbol", impl=None, rewrites=[("map_opt(anychar, |c| $e)(s)", "map_opt(anychar(), |c: char| -> (vx_o: Option<Symbol>) ensures vx_o matches Some(s) ==> seq![c] == sym(s) { $e })(s)", "contract of the closure")])
    parser(u, OPS, "arithmetic_or_comparison", "R_symbols", impl=None, rewrites=here + [
        ("map_opt($a, |symbol_pair| match symbol_pair { $b_x })", "map_opt($a, |vx_i: (Symbol, Symbol)| -> (vx_o: Option<Operator>) ensures vx_o matches Some(o) ==> sp_op_use(o, sym(vx_i.0) + sym(vx_i.1)) && sp_op_decl(o, sym(vx_i.0) + sym(vx_i.1)) { match vx_i { $b_x } })", "contract of the closure"),
        ("map_opt($a, |tuple| match tuple { $b_x })", "map_opt($a, |vx_i: (Symbol, Symbol, Symbol)| -> (vx_o: Option<Operator>) ensures vx_o matches Some(o) ==> sp_op_use(o, sym(vx_i.0) + sym(vx_i.1) + sym(vx_i.2)) && sp_op_decl(o, sym(vx_i.0) + sym(vx_i.1) + sym(vx_i.2)) { match vx_i { $b_x } })", "contract of the closure"),
        ("panic!($a)", "vx_panic()", "a panic is unreachable"), ("(Operator::from).parse(s)", "(Operator::from).parse::<R_basic>(s)", "what the parser reads")],
        post="LEN == 1 ==> ok::<Operator, R_basic>(vx_r, s@),", lits=['"->"', '"<=>"', '"*"'], hint=text[0], pre_contract="requires 1 <= LEN <= 3,")
    parser(u, OPS, "delete", "R_symbols", impl=None)
    parser(u, OPS, "co_await", "R_symbols", impl=None)
    parser(u, OVER, "call_or_index", "R_symbols", impl=None)
    parser(u, OVER, "new", "R_symbols", impl=None)
    parser(u, OVER, "parse_custom_literal_imut", "R_op_decl")
    parser(u, OVER, "parse_arith_and_templates_imut", "R_op_templates", rewrites=sup + [("panic!($a)", "vx_panic()", "a panic is unreachable"),
        ("|($i_a, $i_b, $i_c)| { $b_x }", "|vx_i: (Operator, Option<TemplateParameters>, Option<Symbol>)| -> (vx_o: Option<(Operator, Option<TemplateParameters>)>) ensures vx_o matches Some(o) ==> o == (vx_i.0, vx_i.1) { let ($i_a, $i_b, $i_c) = vx_i; $b_x }", "contract of the closure")], pre_contract="requires 1 <= len <= 3,")
    parser(u, OVER, "parse_operator_overload_imut", "R_overload", rewrites=sup + [("(call_or_index", "(vx_static().call_or_index()", "a parser function as a parser"), ("new.or", "vx_static().new().or", "a parser function as a parser")])
    parser(u, USE, "parse_increment_decrement", "R_op_use", hint='assert("++"@ =~= sym(Symbol::AddPlus) + sym(Symbol::AddPlus)); assert("--"@ =~= sym(Symbol::SubNeg) + sym(Symbol::SubNeg));')
    parser(u, USE, "parse_unary_expr_prefix_imut", "R_op_use", rewrites=sup + [ANYP])
    parser(u, USE, "parse_binary_expr_middle", "R_op_use", rewrites=[
        ("super::arithmetic_or_comparison::<1>.verify(|op| $e)", "vx_static().arith(1).vx_verify(|op: &Operator| -> (vx_b: bool) requires is_basic(*op) { $e })", "contract of the closure"),
        ("super::arithmetic_or_comparison::<$n>.verify(|op| $e)", "vx_static().arith($n).vx_verify(|op: &Operator| -> (vx_b: bool) { $e })", "contract of the closure"),
        ("unreachable!()", "vx_panic()", "a panic is unreachable")] + sup)
    parser(u, USE, "parse_new_expression_imut", "R_new")
    return u

def make_names():
    u = base("reading_names")
    u.raw("""
#[verifier::external_body] fn vx_tail<'a>(s: &'a str) -> (r: &'a str) requires s@.len() > 0, s@[0] == '~' ensures s@ == "~"@ + r@ { unimplemented!() }
#[verifier::external_body] fn vx_strip<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures r matches Some(rest) ==> s@ == p@ + rest@ { unimplemented!() }
""")
    parser(u, UNQ, "parse_unqualified_id_imut", "R_unqualified", rewrites=[
        ("|s| { self.parse_template_parameters_imut(s) }", "self.vxp().parse_template_parameters_imut()", "a parser method as a parser"),
        ("let named = |is_destructor| { $b_x };", "let named = |is_destructor: bool| -> (vx_r: P<UnqualifiedId>) ensures vx_gives(vx_r, |o: UnqualifiedId, t: Seq<char>| o is Named && o->is_destructor == is_destructor && sp_named(false, o->Named_id, o->Named_template_parameters, t)) { $b_x };", "contract of the closure"),
        ("named(true).parse(&s[1..])", "{ let rest = vx_tail(s); proof { reads_text(\"~\"@, rest@); } named(true).parse::<R_tilded>(rest) }", "the text after its first byte")],
        start="no_cv();", bc="broadcast use reads_more;", hints=[("before", "let named", "proof { assert(vx_gives(named_template_parameters, |o: TemplateParameters, t: Seq<char>| sp_named_tps(o, t))); }")])
    parser(u, SCO, "parse_id_expression_imut", "R_id", rewrites=[
        ("|($i_a, $i_b)| $i_b.map(|($i_c, $i_d)| $e)", "|vx_i: (NestedNameSpecifier, Option<(&'source str, UnqualifiedId)>)| -> (vx_o: Option<IdExpression>) ensures vx_o matches Some(o) ==> vx_i.1 matches Some(b) && o == (IdExpression { path: vx_i.0, id: b.1 }) { let ($i_a, $i_b) = vx_i; match $i_b { Some(($i_c, $i_d)) => Some($e), None => None } }", "Option::map as a match, and the contract of the closure")])
    u.raw("""type Proto<'a> = (NestedNameSpecifier, Option<(&'a str, UnqualifiedId)>);
spec fn root(rooted: bool) -> Seq<char> { if rooted { "::"@ } else { none() } }
// the scopes read so far, and where their text ends
spec fn walked(s: Seq<char>, at: Seq<char>, rooted: bool, scopes: Seq<Scope>) -> bool { exists|t: Seq<char>| #[trigger] list_sp::<Scope, R_scope>(scopes, none(), t) && reads(s, at, root(rooted) + t) }
proof fn walked_more(s: Seq<char>, at: Seq<char>, rest: Seq<char>, rooted: bool, scopes: Seq<Scope>, sc: Scope) requires walked(s, at, rooted, scopes), exists|t2: Seq<char>| sp_scope(sc, t2) && #[trigger] reads(at, rest, t2) ensures walked(s, rest, rooted, scopes.push(sc))
{ broadcast use vx_seq; let t = choose|t: Seq<char>| #[trigger] list_sp::<Scope, R_scope>(scopes, none(), t) && reads(s, at, root(rooted) + t); let t2 = choose|t2: Seq<char>| sp_scope(sc, t2) && #[trigger] reads(at, rest, t2);
  list_push::<Scope, R_scope>(scopes, none(), sc, t, t2); reads_more(s, at, rest, root(rooted) + t, t2); if scopes.len() == 0 { let ts = choose|ts: Seq<Seq<char>>| #[trigger] each_sp::<Scope, R_scope>(scopes, ts) && t == joined(ts, none()); assert(t == none()); } assert(list_sp::<Scope, R_scope>(scopes.push(sc), none(), t + t2)); assert(root(rooted) + (t + t2) == root(rooted) + t + t2); }
proof fn walked_first(s: Seq<char>, at: Seq<char>, rooted: bool) requires s == root(rooted) + at ensures walked(s, at, rooted, Seq::<Scope>::empty())
{ broadcast use vx_seq; reads_text(root(rooted), at); list_none::<Scope, R_scope>(none()); }
spec fn at_end(s: Seq<char>, rest: Seq<char>, path: NestedNameSpecifier) -> bool { exists|t: Seq<char>| sp_nested(path, t) && #[trigger] reads(s, rest, t) }
spec fn at_id(s: Seq<char>, back: Seq<char>, rest: Seq<char>, path: NestedNameSpecifier, id: UnqualifiedId) -> bool { at_end(s, back, path) && exists|t: Seq<char>| sp_unqualified(id, t) && #[trigger] reads(back, rest, t) }
// so that the parser of the whole reads what it says
proof fn proto_reads(s: Seq<char>, r: IResult<Proto>) requires r matches Ok((rest, (path, o))) ==> match o { None => at_end(s, rest@, path), Some((back, id)) => at_id(s, back@, rest@, path, id) } ensures ok::<Proto, R_proto>(r, s)
{ if let Ok((rest, (path, Some((back, id))))) = r { let t1 = choose|t: Seq<char>| sp_nested(path, t) && #[trigger] reads(s, back@, t); let t2 = choose|t: Seq<char>| sp_unqualified(id, t) && #[trigger] reads(back@, rest@, t);
  reads_more(s, back@, rest@, t1, t2); assert(sp_nested_then(path, id, t1 + t2)); } }
proof fn walked_path(s: Seq<char>, at: Seq<char>, rooted: bool, scopes: Seq<Scope>) requires walked(s, at, rooted, scopes) ensures at_end(s, at, NestedNameSpecifier { rooted, scopes: key_of::<Scope, ScopesKey>(scopes) })
{ broadcast use vx_keys; let t = choose|t: Seq<char>| #[trigger] list_sp::<Scope, R_scope>(scopes, none(), t) && reads(s, at, root(rooted) + t); assert(sp_nested(NestedNameSpecifier { rooted, scopes: key_of::<Scope, ScopesKey>(scopes) }, root(rooted) + t)); }
""")
    bc = "broadcast use vx_seq; broadcast use vx_keys; broadcast use vx_lists;"
    u.raw("""proof fn scope_text(s: Seq<char>, mid: Seq<char>, rest: Seq<char>, id: UnqualifiedId, f: Option<FunctionSignature>, t1: Seq<char>, t2: Seq<char>)
    requires sp_unqualified(id, t1), sp_scope_tail(f, t2), reads(s, mid, t1), reads(mid, rest, t2) ensures sp_scope(Scope { id, function_signature: f }, t1 + t2), reads(s, rest, t1 + t2)
{ reads_more(s, mid, rest, t1, t2); broadcast use vx_seq; let (t, n, t3) = choose|t: Seq<char>, n: nat, t3: Seq<char>| #[trigger] vx_t(f, t) && R_signature::osp(f, t) && #[trigger] ignored(n, t3) && t2 == t + t3 + "::"@; let sc = Scope { id, function_signature: f };
  assert(sp_unqualified(sc.id, t1) && vx_t(sc.function_signature, t) && R_signature::osp(sc.function_signature, t) && ignored(n, t3) && t1 + t2 == t1 + t + t3 + "::"@); }
""")
    parser(u, SCO, "parse_scope_or_unqualified_id_imut", "R_sou", bc="broadcast use ignored_more;", rewrites=[
        ("Ok(($i_a, $i_f)) => Ok(($i_a, $e,)),", "Ok(($i_a, $i_f)) => { proof { let t1 = choose|t: Seq<char>| R_unqualified::sp(id, t) && #[trigger] reads(s@, after_id@, t); let t2 = choose|t: Seq<char>| R_scope_tail::sp($i_f, t) && #[trigger] reads(after_id@, $i_a@, t); scope_text(s@, after_id@, $i_a@, id, $i_f, t1, t2); is_ok::<ScopeOrUnqualifiedId, R_sou>(s@, $i_a, $e, t1 + t2); } Ok(($i_a, $e,)) }", "a block around the result, for the proof"),
        ("Err(_) => Ok(($i_a, $e)),", "Err(_) => { proof { let t1 = choose|t: Seq<char>| R_unqualified::sp(id, t) && #[trigger] reads(s@, after_id@, t); is_ok::<ScopeOrUnqualifiedId, R_sou>(s@, $i_a, $e, t1); } Ok(($i_a, $e)) }", "a block around the result, for the proof"),
        ANYP, ("many0_count($e,)", "many0_count($e, Ghost(|n: nat, t: Seq<char>| ignored(n, t)))", "what the repetition keeps"), (".parse(after_id)", ".parse::<R_scope_tail>(after_id)", "what the parser reads")],
        start="no_words();")
    u.fn(SCO, "parse_proto_id_expression_imut", impl="EntityParser", ret="vx_r", attrs="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::exec_allows_no_decreases_clause]",
         contract="""ensures vx_r matches Ok((rest, (path, o))) ==> match o {
        None => at_end(input@, rest@, path), Some((back, id)) => at_id(input@, back@, rest@, path, id) },
        """,
         rewrites=[("$i_x.strip_prefix($a)", "vx_strip($i_x, $a)", "str::strip_prefix"),
                   ("let make_output = |scopes: SequenceEntry<Scope, ScopesKey>, id_opt| { $e };", "let make_output = |scopes: SequenceEntry<Scope, ScopesKey>, id_opt: Option<(&'source str, UnqualifiedId)>| -> (vx_o: Proto<'source>) ensures vx_is(vx_o, { $e }) { $e };", "the body of the closure as its contract"),
                   ("while let Ok(($i_a, $i_b)) = $e { $b_x }", "loop { match $e { Ok(($i_a, $i_b)) => { $b_x } Err(_) => break } }", "while let as a loop with a match")],
         hints=[("after", "let mut scopes = vx_entries().scope_sequences();", "proof { assert(scopes.items() == Seq::<Scope>::empty()); walked_first(s0, input@, rooted); }"),
                ("before", "match scope_or_id {", "proof { walked_path(s0, input@, rooted, scopes.items()); if let ScopeOrUnqualifiedId::Scope(sc) = scope_or_id { walked_more(s0, input@, rest@, rooted, scopes.items(), sc); } }")],
         loops=[dict(kw="loop", inv=" invariant_except_break walked(s0, input@, rooted, scopes.items()), ensures walked(s0, input@, rooted, scopes.items()),", after=" proof { walked_path(s0, input@, rooted, scopes.items()); }")],
         start=bc + " let ghost s0 = input@; proof { broadcast use seq_empty2; }")
    u.raw("spec fn may_nest(r: IResult<NestedNameSpecifier>, s: Seq<char>) -> bool { r matches Ok((rest, path)) ==> at_end(s, rest@, path) }")
    u.fn(SCO, "parse_nested_name_specifier_imut", impl="EntityParser", ret="vx_r", contract="ensures may_nest(vx_r, s@),")
    u.raw("""proof fn nested_reads(s: Seq<char>, r: IResult<NestedNameSpecifier>) requires may_nest(r, s) ensures ok::<NestedNameSpecifier, R_nested>(r, s)
{ if let Ok((rest, path)) = r { let t = choose|t: Seq<char>| sp_nested(path, t) && #[trigger] reads(s, rest@, t); is_ok::<NestedNameSpecifier, R_nested>(s, rest, path, t); } }""")
    return u

def make_legacy():
    u = base("reading_legacy")
    for n in ("Base", "Size", "Signedness"): u.item(LEGACY, "enum", n, prefix="#[derive(Clone, Copy, PartialEq, Eq, Structural)]")
    u.item(LEGACY, "struct", "LegacyNameBuilder", prefix=CP)
    u.item(LEGACY, "enum", "ParseError", prefix=CP, rewrites=[("#[error($e)]", "", "error messages left out")])
    u.raw(r"""
impl LegacyNameBuilder { spec fn blank() -> Self { LegacyNameBuilder { base: None, signedness: None, size: None, complex: false } } }
#[verifier::external_body] #[verifier::when_used_as_spec(s_blank)] fn vx_blank() -> (r: LegacyNameBuilder) ensures r == LegacyNameBuilder::blank() { unimplemented!() }
spec fn s_blank() -> LegacyNameBuilder { LegacyNameBuilder::blank() }
#[verifier::external_body] fn vx_or<T>(a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (match a { Some(_) => a, None => b }) { unimplemented!() }
#[verifier::external_body] fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
// what the words so far say
spec fn says(b: LegacyNameBuilder, ws: Seq<LWord>) -> bool {
    (match b.base { None => bases(ws, 0, 0, 0, 0, 0), Some(Base::Float) => bases(ws, 1, 0, 0, 0, 0), Some(Base::Double) => bases(ws, 0, 1, 0, 0, 0), Some(Base::Char) => bases(ws, 0, 0, 1, 0, 0), Some(Base::Int) => bases(ws, 0, 0, 0, 1, 0), Some(Base::Int128) => bases(ws, 0, 0, 0, 0, 1) })
    && (match b.signedness { None => signs(ws, 0, 0), Some(Signedness::Signed) => signs(ws, 1, 0), Some(Signedness::Unsigned) => signs(ws, 0, 1) })
    && (match b.size { None => sizes(ws, 0, 0), Some(Size::Short) => sizes(ws, 1, 0), Some(Size::Long) => sizes(ws, 0, 1), Some(Size::LongLong) => sizes(ws, 0, 2) })
    && complex(ws, if b.complex { 1 } else { 0 }) }
spec fn of_word(w: LWord) -> LegacyNameBuilder { match w {
    LWord::Float => LegacyNameBuilder { base: Some(Base::Float), ..LegacyNameBuilder::blank() }, LWord::Double => LegacyNameBuilder { base: Some(Base::Double), ..LegacyNameBuilder::blank() }, LWord::Char => LegacyNameBuilder { base: Some(Base::Char), ..LegacyNameBuilder::blank() },
    LWord::Int => LegacyNameBuilder { base: Some(Base::Int), ..LegacyNameBuilder::blank() }, LWord::Int128 => LegacyNameBuilder { base: Some(Base::Int128), ..LegacyNameBuilder::blank() }, LWord::Long => LegacyNameBuilder { size: Some(Size::Long), ..LegacyNameBuilder::blank() },
    LWord::Short => LegacyNameBuilder { size: Some(Size::Short), ..LegacyNameBuilder::blank() }, LWord::Signed => LegacyNameBuilder { signedness: Some(Signedness::Signed), ..LegacyNameBuilder::blank() },
    LWord::Unsigned => LegacyNameBuilder { signedness: Some(Signedness::Unsigned), ..LegacyNameBuilder::blank() }, LWord::Complex => LegacyNameBuilder { complex: true, ..LegacyNameBuilder::blank() } } }
spec fn is_word(b: LegacyNameBuilder, t: Seq<char>) -> bool { exists|w: LWord| b == of_word(w) && t == word(#[trigger] lword(w)) }
// C23: one more word: nothing is lost, and nothing said twice (except long)
spec fn merged(a: LegacyNameBuilder, i: LegacyNameBuilder, b: LegacyNameBuilder) -> bool {
    !(a.base is Some && i.base is Some) && b.base == (match a.base { Some(_) => a.base, None => i.base })
    && !(a.signedness is Some && i.signedness is Some) && b.signedness == (match a.signedness { Some(_) => a.signedness, None => i.signedness })
    && !(a.complex && i.complex) && b.complex == (a.complex || i.complex)
    && (match (a.size, i.size) { (Some(Size::Long), Some(Size::Long)) => b.size == Some(Size::LongLong), (Some(_), Some(_)) => false, (Some(_), None) => b.size == a.size, (None, _) => b.size == i.size }) }
type Built = Result<LegacyNameBuilder, ParseError>;
spec fn vx_merge(a: Built, i: LegacyNameBuilder, o: Built) -> bool { o matches Ok(b) ==> a matches Ok(x) && merged(x, i, b) }
spec fn said(a: Built, t: Seq<char>, first: bool) -> bool { a matches Ok(b) ==> exists|ws: Seq<LWord>| t == #[trigger] lwords(ws) && says(b, ws) && (ws.len() == 0) == first }
proof fn one_more(a: LegacyNameBuilder, ws: Seq<LWord>, w: LWord, b: LegacyNameBuilder) requires says(a, ws), merged(a, of_word(w), b) ensures says(b, ws.push(w)), lwords(ws.push(w)) == lwords(ws) + word(lword(w))
{ assert(ws.push(w).drop_last() =~= ws); assert forall|v: LWord| #[trigger] many(ws.push(w), v) == many(ws, v) + (if w == v { 1nat } else { 0 }) by { assert(ws.push(w).last() == w); } }
broadcast proof fn said_more(a: Built, t1: Seq<char>, first: bool, i: LegacyNameBuilder, t2: Seq<char>, b: Built) requires #[trigger] said(a, t1, first), #[trigger] vx_t(i, t2), is_word(i, t2), #[trigger] vx_merge(a, i, b) ensures said(b, t1 + t2, false)
{ if let Ok(y) = b { let x = a->Ok_0; let ws = choose|ws: Seq<LWord>| t1 == #[trigger] lwords(ws) && says(x, ws) && (ws.len() == 0) == first; let w = choose|w: LWord| i == of_word(w) && t2 == word(#[trigger] lword(w)); one_more(x, ws, w, y); } }
proof fn said_nothing(a: Built) requires a == Built::Ok(LegacyNameBuilder::blank()) ensures said(a, none(), true) { let ws = Seq::<LWord>::empty(); assert(lwords(ws) == none()); assert(says(LegacyNameBuilder::blank(), ws)); }
spec fn named_by(b: LegacyNameBuilder, l: LegacyName) -> bool { forall|ws: Seq<LWord>| ws.len() > 0 && #[trigger] says(b, ws) ==> is_legacy(ws, l) }
spec fn something(b: LegacyNameBuilder) -> bool { b.base is Some || b.signedness is Some || b.size is Some || b.complex }
// no type is made of these words
spec fn no_type(b: LegacyNameBuilder) -> bool { forall|ws: Seq<LWord>, l: LegacyName| #[trigger] says(b, ws) ==> !#[trigger] is_legacy(ws, l) }
""")
    u.fn(LEGACY, "build", impl="LegacyNameBuilder", ret="vx_r", contract="requires something(self), ensures match vx_r { Ok(l) => named_by(self, l), Err(_) => no_type(self) },", rewrites=[("unreachable!($e)", "vx_panic()", "a panic is unreachable")])
    u.raw("""spec fn or_of<T>(a: Option<T>, b: Option<T>) -> Option<T> { match a { Some(_) => a, None => b } }""")
    words = ["float", "double", "long", "unsigned", "char", "int", "__int128", "signed", "short", "_Complex"]
    kinds = ["Float", "Double", "Long", "Unsigned", "Char", "Int", "Int128", "Signed", "Short", "Complex"]
    known = " ".join(f'assert(lword(LWord::{k}) == "{w}"@);' for w, k in zip(words, kinds))
    parser(u, LEGACY, "legacy_name_parser", "R_legacy", impl=None, sig="fn legacy_name_parser<'a>(s: &'a str) -> (vx_r: IResult<'a, LegacyName>)", rewrites=[
        ("move |s| { $b_x }", "$b_x", "the function returned as the body, given its argument"),
        ("EntityParser::keywords_parser($e)", "vx_words($e)", "one of a list of words"), ("..Default::default()", "..vx_blank()", "derived default"),
        ("(&keyword).", "keyword.", "a shared reference to a parser as the parser"),
        ("|| Ok(LegacyNameBuilder::default()),", "|| -> (vx_o: Built) ensures vx_o == Built::Ok(LegacyNameBuilder::blank()) { Ok(vx_blank()) },", "contract of the closure"),
        ("|acc, item| { $b_x },)", "|acc: Built, item: LegacyNameBuilder| -> (vx_o: Built) ensures vx_merge(acc, item, vx_o) { $b_x }, Ghost(|a: Built, t: Seq<char>, first: bool| said(a, t, first)))", "contract of the closure"),
        ("let mut acc = acc?;", "let mut acc = match acc { Ok(x) => x, Err(e) => return Err(e) };", "? written out"),
        ("acc.$i_f.or(item.$i_g)", "vx_or(acc.$i_f, item.$i_g)", "Option::or"), ("acc.complex |= $e;", "acc.complex = acc.complex || $e;", "|= on booleans"),
        (".map_res(|x| x)", ".map_res(|x: Built| -> (vx_o: Built) ensures vx_o == x { x })", "contract of the closure"),
        (".map_res(LegacyNameBuilder::build)", ".map_res(|x: LegacyNameBuilder| -> (vx_o: Result<LegacyName, ParseError>) requires something(x) ensures vx_o matches Ok(l) ==> named_by(x, l) { x.build() })", "contract of the closure")],
        hints=[("after", "let keyword = $e;", f"proof {{ {known} assert(vx_gives(keyword, |o: LegacyNameBuilder, t: Seq<char>| vx_t(o, t) && is_word(o, t))); }}")],
        start="said_nothing(Built::Ok(LegacyNameBuilder::blank()));", bc="broadcast use said_more;")
    u.fn(LEGACY, "parse_legacy_name", impl="EntityParser", ret="vx_r", contract="ensures ok::<LegacyName, R_legacy>(vx_r, s@),", rewrites=[("(self.legacy_name_parser)", "legacy_name_parser", "the boxed parser as the function it is made by")])  #, "R_legacy", rewrites=[("(self.legacy_name_parser)", "vx_legacy_field", "the boxed parser as the function it is made by")])
    return u

LEAVES = r"""
impl<O> P<O> {
    // what may come after what is read
    uninterp spec fn leaves(self, rest: Seq<char>) -> bool;
    #[verifier::external_body] fn vx_parse<'a>(&self, s: &'a str, Ghost(sp): Ghost<spec_fn(O, Seq<char>) -> bool>) -> (r: IResult<'a, O>) requires vx_gives(*self, sp), ensures r matches Ok((rest, o)) ==> self.leaves(rest@) && exists|t: Seq<char>| sp(o, t) && s@ == t + #[trigger] rest@ { unimplemented!() }
}
"""

def make_cv():
    u = base("reading_cv")
    u.raw("""
// C23: a qualifier said twice is said once, and none is lost
proof fn more_cv(ws: Seq<bool>, w: bool) ensures cv_words(ws.push(w)) == cv_words(ws) + word(if w { "const"@ } else { "volatile"@ }), ws.push(w).contains(true) == (ws.contains(true) || w), ws.push(w).contains(false) == (ws.contains(false) || !w)
{ assert(ws.push(w).drop_last() =~= ws); assert(ws.push(w)[ws.len() as int] == w);
  if ws.contains(true) { let i = choose|i: int| 0 <= i < ws.len() && ws[i] == true; assert(ws.push(w)[i] == true); } if ws.contains(false) { let i = choose|i: int| 0 <= i < ws.len() && ws[i] == false; assert(ws.push(w)[i] == false); }
  if ws.push(w).contains(true) && !w { let i = choose|i: int| 0 <= i < ws.push(w).len() && ws.push(w)[i] == true; assert(ws[i] == true); } if ws.push(w).contains(false) && w { let i = choose|i: int| 0 <= i < ws.push(w).len() && ws.push(w)[i] == false; assert(ws[i] == false); } }
spec fn a_const() -> ConstVolatile { ConstVolatile { is_const: true, is_volatile: false } }
spec fn a_volatile() -> ConstVolatile { ConstVolatile { is_const: false, is_volatile: true } }
spec fn no_qualifier() -> ConstVolatile { ConstVolatile { is_const: false, is_volatile: false } }
spec fn cv_word(c: ConstVolatile, t: Seq<char>) -> bool { (c == a_const() && t == word("const"@)) || (c == a_volatile() && t == word("volatile"@)) }
spec fn vx_both(a: ConstVolatile, b: ConstVolatile, c: ConstVolatile) -> bool { c == both(a, b) }
broadcast proof fn cv_more(a: ConstVolatile, t1: Seq<char>, i: ConstVolatile, t2: Seq<char>, b: ConstVolatile) requires #[trigger] sp_cv(a, t1), #[trigger] cv_word(i, t2), #[trigger] vx_both(a, i, b) ensures sp_cv(b, t1 + t2)
{ let ws = choose|ws: Seq<bool>| t1 == #[trigger] cv_words(ws) && a.is_const == ws.contains(true) && a.is_volatile == ws.contains(false); more_cv(ws, t2 == word("const"@)); reveal_strlit("const"); reveal_strlit("volatile"); assert(word("const"@).len() != word("volatile"@).len()); assert(t1 + t2 == cv_words(ws.push(t2 == word("const"@)))); }
#[verifier::external_body] #[verifier::when_used_as_spec(no_qualifier)] fn vx_no_qualifier() -> (r: ConstVolatile) ensures r == no_qualifier() { unimplemented!() }
""")
    u.raw("fn vx_bor(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }")
    for n in ("CONST", "VOLATILE"): u.item(QUAL, "const", n)
    u.fn(QUAL, "bitor", impl="ConstVolatile", trait="BitOr", header="impl ConstVolatile", ret="vx_r", contract="ensures vx_both(self, rhs, vx_r),", rewrites=[("$i_x.$i_a | $i_y.$i_b", "vx_bor($i_x.$i_a, $i_y.$i_b)", "| on booleans by name")])
    parser(u, QUAL, "parse_cv", "R_cv", rewrites=[("Self::keywords_parser($e)", "vx_words($e)", "one of a list of words"), ("ConstVolatile::CONST", "CONST", "associated constant"), ("ConstVolatile::VOLATILE", "VOLATILE", "associated constant"),
        ("ConstVolatile::default, |$i_a, $i_b| $e,)", "|| -> (vx_o: ConstVolatile) ensures vx_o == no_qualifier() { vx_no_qualifier() }, |$i_a: ConstVolatile, $i_b: ConstVolatile| -> (vx_o: ConstVolatile) ensures vx_both($i_a, $i_b, vx_o) { $e }, Ghost(|a: ConstVolatile, t: Seq<char>| sp_cv(a, t)))", "contracts of the closures"),
        ("acc | cv", "acc.bitor(cv)", "operator as its method")],
        hints=[("after", "let keyword = $e;", "proof { assert(vx_gives(keyword, |o: ConstVolatile, t: Seq<char>| cv_word(o, t))); }")], start="no_cv();", bc="broadcast use cv_more;")
    u.raw("spec fn marks(n: nat, t: Seq<char>) -> bool { t.len() == n && forall|i: int| 0 <= i < n ==> #[trigger] t[i] == '&' }\nspec fn ref_of(n: usize, r: Reference) -> bool { match r { Reference::None => n == 0, Reference::LValue => n == 1, Reference::RValue => n == 2 } }")
    parser(u, QUAL, "parse_reference", "R_ref", rewrites=[("many0_count($e)", "many0_count($e, Ghost(|n: nat, t: Seq<char>| marks(n, t)))", "what the repetition keeps"),
        ("|num| $e)", "|num: usize| -> (vx_o: Option<Reference>) ensures vx_o matches Some(r) ==> ref_of(num, r) { $e })", "contract of the closure")],
        lits=['"&"', '"&&"'], hint='assert forall|t: Seq<char>| #[trigger] marks(2, t) implies t == "&&"@ by { assert(t =~= "&&"@); } assert forall|t: Seq<char>| #[trigger] marks(1, t) implies t == "&"@ by { assert(t =~= "&"@); } assert forall|t: Seq<char>| #[trigger] marks(0, t) implies t == none() by { assert(t =~= none()); }')
    u.fn(SCO, "from", impl="NestedNameSpecifier", trait="From<ScopesKey>", header="impl NestedNameSpecifier", ret="vx_r", contract="ensures !vx_r.rooted, vx_r.scopes == scopes,")
    return u

def make_literals():
    u = base("reading_literals")
    u.raw(LEAVES)
    u.raw(r"""
spec fn upper(c: char) -> char { if 'a' <= c && c <= 'z' { (c as u32 - 32) as char } else { c } }
spec fn starts(c: char, t: Seq<char>) -> bool { t == seq![c] }
// C23: what is kept while suffix letters are skipped
spec fn suffixes(n: nat, t: Seq<char>) -> bool { suffix(t) }
broadcast proof fn suffix_more(n: nat, t: Seq<char>, c: char) requires #[trigger] suffixes(n, t), suffix_letter(c) ensures suffixes(n + 1, #[trigger] (t + seq![c])) {}
proof fn no_suffix() ensures suffixes(0, none()) {}
spec fn escaped(c: char, t: Seq<char>) -> bool { sp_escape(c, t) }
broadcast proof fn code_escape(l: char, t: Seq<char>, c: char) requires l == 'x' || l == 'u' || l == 'U', digits(t, 16), c as int == number(t, 16) ensures #[trigger] sp_escape(c, seq![l] + t) { assert((seq![l] + t).skip(1) =~= t); }
""")
    u.trust("standard library: letter case, digits and code points", r"""
#[verifier::external_body] fn vx_upper(c: char) -> (r: char) ensures c == 'u' || c == 'l' || c == 'z' ==> r as u32 == c as u32 - 32, !('a' <= c && c <= 'z') ==> r == c, 'a' <= c && c <= 'z' ==> r as u32 == c as u32 - 32 { unimplemented!() }
#[verifier::external_body] fn vx_u8_radix(t: &str, base: u32) -> (r: Result<u8, VxErr>) ensures r matches Ok(b) ==> (digits(t@, base as int) ==> b as int == number(t@, base as int)) { unimplemented!() }
#[verifier::external_body] fn vx_u32_radix(t: &str, base: u32) -> (r: Result<u32, VxErr>) ensures r matches Ok(b) ==> (digits(t@, base as int) ==> b as int == number(t@, base as int)) { unimplemented!() }
#[verifier::external_body] fn vx_char(u: u32) -> (r: Result<char, VxErr>) ensures r matches Ok(c) ==> c as u32 == u { unimplemented!() }
""")
    u.trust("nom's character parsers read what they are named after", r"""
#[verifier::external_body] fn vx_i64() -> (r: P<i64>) ensures forall|u: i64, t: Seq<char>| #[trigger] r.tt(u, t) ==> reads_int(u as int, t) { unimplemented!() }
#[verifier::external_body] fn vx_u64() -> (r: P<u64>) ensures forall|u: u64, t: Seq<char>| #[trigger] r.tt(u, t) ==> reads_int(u as int, t) { unimplemented!() }
#[verifier::external_body] fn oct_digit1() -> (r: P<&'static str>) ensures forall|u: &'static str, t: Seq<char>| #[trigger] r.tt(u, t) ==> t == u@ && digits(t, 8) { unimplemented!() }
#[verifier::external_body] fn hex_digit1() -> (r: P<&'static str>) ensures forall|u: &'static str, t: Seq<char>| #[trigger] r.tt(u, t) ==> t == u@ && digits(t, 16) { unimplemented!() }
#[verifier::external_body] fn satisfy<F: Fn(char) -> bool>(f: F) -> (r: P<char>) requires forall|c: char| call_requires(f, (c,)), ensures forall|u: char, t: Seq<char>| #[trigger] r.tt(u, t) ==> t == seq![u] && call_ensures(f, (u,), true) { unimplemented!() }
""")
    parser(u, LIT, "literal_value", "R_literal_value", impl=None, rewrites=[("character.map", "vx_static().character().map", "a parser function as a parser"), ("integer.", "vx_static().integer().", "a parser function as a parser")])
    parser(u, LIT, "integer", "R_literal_value", impl=None, rewrites=[("i64.map", "vx_i64().map", "integer parser"), ("u64.map", "vx_u64().map", "integer parser"),
        ("many0_count($e)", "many0_count($e, Ghost(|n: nat, t: Seq<char>| suffixes(n, t)))", "what the repetition keeps"),
        ("satisfy(|c| { $b_x })", "satisfy(|c: char| -> (vx_b: bool) ensures vx_b ==> suffix_letter(c) { $b_x })", "contract of the closure"), ("c.to_ascii_uppercase()", "vx_upper(c)", "standard library")],
        start="no_suffix();", bc="broadcast use suffix_more;")
    parser(u, LIT, "character", "R_char", impl=None, rewrites=[("anychar)", "anychar())", "parser"), ("anychar,", "anychar(),", "parser"), ("oct_digit1.", "oct_digit1().", "parser"), ("hex_digit1.", "hex_digit1().", "parser"),
        ("map_res(|s: &str| $e.map(|b| $f))", "map_res(|s: &'static str| -> (vx_o: Result<char, VxErr>) ensures vx_o matches Ok(c) ==> (digits(s@, 8) ==> c as int == number(s@, 8)) { match $e { Ok(b) => Ok($f), Err(e) => Err(e) } })", "Result::map as a match, and the contract of the closure"),
        ("map_res(|s: &str| $e)", "map_res(|s: &'static str| -> (vx_o: Result<u32, VxErr>) ensures vx_o matches Ok(c) ==> (digits(s@, 16) ==> c as int == number(s@, 16)) { $e })", "contract of the closure"),
        ("map_res(|u| $e)", "map_res(|u: u32| -> (vx_o: Result<char, VxErr>) ensures vx_o matches Ok(c) ==> c as u32 == u { $e })", "contract of the closure"),
        ("u8::from_str_radix($a, $b)", "vx_u8_radix($a, $b)", "standard library"), ("u32::from_str_radix($a, $b)", "vx_u32_radix($a, $b)", "standard library"), ("char::from_u32($e).ok_or(())", "vx_char($e)", "standard library")],
        lits=["\"'\"", '"t"', '"r"', '"n"', '"\\""', '"\\\\"', '"u"', '"U"', '"L"'], hint=" ".join(f'assert("{c}"@ =~= seq![\'{d}\']);' for c, d in [("'", "\\'"), ("t", "t"), ("r", "r"), ("n", "n"), ('\\"', '"'), ("\\\\", "\\\\"), ("u", "u"), ("U", "U"), ("L", "L")]),
        hints=[("before", "delimited(", "proof { assert(vx_gives(prefix, |o: Option<char>, t: Seq<char>| char_prefix(t))); assert(vx_gives(escape_sequence, |o: char, t: Seq<char>| sp_escape(o, t))); }")], bc="broadcast use code_escape;")
    return u

def make_atoms():
    u = base("reading_atoms")
    u.raw(LEAVES + r"""
spec fn start_byte(b: u8) -> bool { (97 <= b && b <= 122) || (65 <= b && b <= 90) || b == 95 || b == 36 }
spec fn continue_byte(b: u8) -> bool { start_byte(b) || (48 <= b && b <= 57) }
spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as u32 <= 127 }
""")
    u.trust("standard library: bytes of ASCII text; names are ASCII text (what the code asserts in debug builds)", r"""
#[verifier::external_body] fn vx_assume_ascii(s: &str) ensures ascii(s@) { unimplemented!() }
#[verifier::external_body] fn vx_bytes<'a>(s: &'a str) -> (r: &'a [u8]) requires ascii(s@) ensures r@.len() == s@.len(), r@.len() <= 0x7fff_ffff_ffff_ffff, forall|i: int| 0 <= i < s@.len() ==> (#[trigger] r@[i]) as u32 == s@[i] as u32 && r@[i] <= 127 { unimplemented!() }
#[verifier::external_body] fn vx_split_first<'a>(b: &'a [u8]) -> (r: Option<(&'a u8, &'a [u8])>) ensures match r { None => b@.len() == 0, Some((x, o)) => b@.len() > 0 && *x == b@[0] && o@ == b@.skip(1) } { unimplemented!() }
#[verifier::external_body] fn vx_first_copied(b: &[u8]) -> (r: Option<u8>) ensures match r { None => b@.len() == 0, Some(x) => b@.len() > 0 && x == b@[0] } { unimplemented!() }
#[verifier::external_body] fn vx_position<F: Fn(u8) -> bool>(b: &[u8], f: F) -> (r: Option<usize>) requires forall|i: int| 0 <= i < b@.len() ==> call_requires(f, (#[trigger] b@[i],)),
    ensures match r { None => forall|i: int| 0 <= i < b@.len() ==> call_ensures(f, (#[trigger] b@[i],), false), Some(n) => n < b@.len() && call_ensures(f, (b@[n as int],), true) && forall|i: int| 0 <= i < n ==> call_ensures(f, (#[trigger] b@[i],), false) } { unimplemented!() }
#[verifier::external_body] fn vx_split_at<'a>(s: &'a str, n: usize) -> (r: (&'a str, &'a str)) requires ascii(s@), n <= s@.len() ensures r.0@ == s@.take(n as int), r.1@ == s@.skip(n as int) { unimplemented!() }
#[verifier::external_body] fn vx_alphabetic(b: u8) -> (r: bool) ensures r == ((97 <= b && b <= 122) || (65 <= b && b <= 90)) { unimplemented!() }
#[verifier::external_body] fn vx_is_digit(b: u8) -> (r: bool) ensures r == (48 <= b && b <= 57) { unimplemented!() }
#[verifier::external_body] fn vx_error() -> (r: VxErr) { unimplemented!() }
""")
    rw = [("debug_assert!(b.is_ascii())", "assert(b <= 127)", "debug assertion becomes an obligation"), ("debug_assert!(s.is_ascii())", "vx_assume_ascii(s)", "debug assertion as the assumption that names are ASCII"),
          ("b.is_ascii_alphabetic()", "vx_alphabetic(b)", "standard library"), ("b.is_ascii_digit()", "vx_is_digit(b)", "standard library"),
          ("$i_x.as_bytes().split_first()", "vx_split_first(vx_bytes($i_x))", "standard library"), ("$i_x.as_bytes().first().copied()", "vx_first_copied(vx_bytes($i_x))", "standard library"),
          ("$i_x.iter().position(|&$i_b| $e)", "vx_position($i_x, |$i_b: u8| -> (vx_o: bool) requires $i_b <= 127 ensures vx_o == !continue_byte($i_b) { $e })", "standard library, and the contract of the closure"),
          ("$i_x.split_at($e)", "vx_split_at($i_x, $e)", "standard library"), ("nom::Err::Error(Error::new(s, ErrorKind::Satisfy))", "vx_error()", "what an error says is left out")]
    u.fn(ATOM, "is_id_start", ret="vx_r", contract="requires b <= 127, ensures vx_r == start_byte(b),", rewrites=rw)
    u.fn(ATOM, "is_id_continue", ret="vx_r", contract="requires b <= 127, ensures vx_r == continue_byte(b),", rewrites=rw)
    ids = "assert forall|i: int| 0 <= i < s@.len() implies id_start(#[trigger] s@[i]) == start_byte(s@[i] as u8) && id_continue(s@[i]) == continue_byte(s@[i] as u8) && s@[i] as u32 == (s@[i] as u8) as u32 by { vx_char_byte(s@[i]); }"
    u.raw("proof fn vx_char_byte(c: char) requires c as u32 <= 127 ensures id_start(c) == start_byte(c as u8), id_continue(c) == continue_byte(c as u8), c as u32 == (c as u8) as u32 {}")
    # C23: an identifier is all the letters, digits, underscores and dollars up to the first other character
    u.fn(ATOM, "identifier", ret="vx_r", contract="ensures match vx_r { Ok((rest, id)) => s@ == id@ + rest@ && is_identifier(id@) && at_boundary(rest@), Err(_) => s@.len() == 0 || !id_start(s@[0]) },", rewrites=rw,
         start="proof { reveal_strlit(\"\"); }", hints=[("before", "match bytes", f"proof {{ {ids} }}"), ("before", "Ok((rest, id))", "proof { assert(s@ =~= id@ + rest@); assert forall|i: int| 0 < i < id@.len() implies id_continue(#[trigger] id@[i]) by { assert(id@[i] == s@[i]); assert(continue_byte(others@[i - 1])); } if rest@.len() > 0 { let k = id@.len() - 1; assert(rest@[0] == s@[k + 1]); assert(!continue_byte(others@[k])); } }")])
    u.fn(ATOM, "end_of_identifier", ret="vx_r", contract="ensures match vx_r { Ok((rest, _)) => rest@ == s@ && at_boundary(s@), Err(_) => !at_boundary(s@) },", rewrites=rw,
         hints=[("after", "vx_assume_ascii(s);", f"proof {{ {ids} }}")])
    u.trust("interning of identifiers (lasso): a key stands for the text interned under it", "#[verifier::external_body] fn vx_intern_ident(t: &str) -> (k: IdentifierKey) ensures ident_text(k) == t@ { unimplemented!() }")
    u.fn(ATOM, "parse_identifier_imut", impl="EntityParser", ret="vx_r", contract="ensures ok::<IdentifierKey, R_ident>(vx_r, input@), vx_r matches Ok((rest, _)) ==> at_boundary(rest@),",
         rewrites=[("self.identifiers.borrow_mut().get_or_intern($e)", "vx_intern_ident($e)", "interior mutability of the interner left out")],
         hints=[("before", "Ok((rest, id_key))", "proof { reads_word(id@, rest@); is_ok::<IdentifierKey, R_ident>(input@, rest, id_key, word(id@)); }")])
    # keywords are whole words
    u.trust("end_of_identifier as a parser (its contract is discharged above)", "#[verifier::external_body] fn vx_end() -> (r: P<()>) ensures forall|u: (), t: Seq<char>| #[trigger] r.tt(u, t) ==> t == none(), forall|rest: Seq<char>| #[trigger] r.leaves(rest) ==> at_boundary(rest) { unimplemented!() }")
    u.raw(r"""
impl<O> P<O> {
    #[verifier::external_body] fn then_peek<U>(self, q: P<U>) -> (r: P<O>) ensures forall|u: O, t: Seq<char>| #[trigger] r.tt(u, t) ==> exists|v: U, t1: Seq<char>, t2: Seq<char>| #[trigger] self.tt(u, t1) && #[trigger] q.tt(v, t2) && t == t1 + t2, forall|rest: Seq<char>| #[trigger] r.leaves(rest) ==> q.leaves(rest) { unimplemented!() }
    #[verifier::external_body] fn as_value<U>(self, v: U) -> (r: P<U>) ensures forall|u: U, t: Seq<char>| #[trigger] r.tt(u, t) ==> u == v && exists|o: O| #[trigger] self.tt(o, t), forall|rest: Seq<char>| #[trigger] r.leaves(rest) ==> self.leaves(rest) { unimplemented!() }
}
spec fn word_read(s: Seq<char>, word: Seq<char>, rest: Seq<char>) -> bool { s == word + rest && at_boundary(rest) }
""")
    u.fn(ATOM, "keyword_parser", impl="EntityParser", sig="fn keyword_parser<'a>(word: &'static str, s: &'a str) -> (vx_r: IResult<'a, ()>)", contract="ensures vx_r matches Ok((rest, _)) ==> word_read(s@, word@, rest@),", start=BCAST,
         pre=strip_use, rewrites=[("move |s| $e }", "$e }", "the function returned as the body, given its argument"), (".terminated(end_of_identifier)", ".then_peek(vx_end())", "a parser function as a parser"), (".value($e)", ".as_value($e)", "name"),
            (".parse(s)", ".vx_parse(s, Ghost(|o: (), t: Seq<char>| t == word@))", "what the parser reads")])
    u.raw(r"""
#[verifier::external_body] struct VxKeyword { x: u8 }
impl VxKeyword { uninterp spec fn word(self) -> Seq<char>; }
// keyword_parser(word), applied: its contract is discharged above
#[verifier::external_body] fn vx_try<'a>(p: &VxKeyword, s: &'a str) -> (r: IResult<'a, ()>) ensures r matches Ok((rest, _)) ==> word_read(s@, p.word(), rest@) { unimplemented!() }
spec fn paired<O, const N: usize>(r: [(VxKeyword, O); N], a: [(&'static str, O); N]) -> bool { forall|i: int| 0 <= i < N ==> (#[trigger] r[i]).0.word() == a[i].0@ && r[i].1 == a[i].1 }
#[verifier::external_body] fn vx_each<O, const N: usize>(a: [(&'static str, O); N]) -> (r: [(VxKeyword, O); N]) ensures paired(r, a) { unimplemented!() }
#[verifier::external_body] fn vx_clone<O>(o: &O) -> (r: O) ensures r == *o { unimplemented!() }
#[verifier::external_body] fn vx_expect<T>(o: Option<T>) -> (r: T) requires o is Some ensures r == o->0 { unimplemented!() }
spec fn one_read<O, const N: usize>(a: [(&'static str, O); N], o: O, s: Seq<char>, rest: Seq<char>) -> bool { exists|i: int| 0 <= i < N && o == (#[trigger] a[i]).1 && word_read(s, a[i].0@, rest) }
""")
    u.fn(ATOM, "keywords_parser", impl="EntityParser", sig="fn keywords_parser<'a, Output: Clone, const LEN: usize>(keyword_to_output: [(&'static str, Output); LEN], s: &'a str) -> (vx_r: IResult<'a, Output>)",
         contract="requires LEN != 0, ensures vx_r matches Ok((rest, o)) ==> one_read(keyword_to_output, o, s@, rest@),", rewrites=[
            ("assert_ne!($e);", "", "precondition"), ("keyword_to_output.mappings().map(|($i_k, $i_v)| (Self::keyword_parser($i_k), $i_v))", "vx_each(keyword_to_output)", "array map: a keyword parser for each word"),
            ("move |s| { $b_x }", "$b_x", "the function returned as the body, given its argument"), ("match parser(s)", "match vx_try(parser, s)", "applied"), ("output.clone()", "vx_clone(output)", "standard library"),
            ("for ($i_p, $i_o) in parsers_to_output.iter() {", "for vx_i in 0..LEN { let $i_p = &parsers_to_output[vx_i].0; let $i_o = &parsers_to_output[vx_i].1;", "loop over an array by index"), ("let mut last_error = None;", "let mut last_error: Option<VxErr> = None;", "type"),
            ("last_error.expect($e)", "vx_expect(last_error)", "a panic is unreachable")],
         loops=[dict(kw="for", inv=" invariant paired(parsers_to_output, keyword_to_output), vx_i > 0 ==> last_error is Some,")])
    # C23: parse_entity reads the whole text
    u.item(LIB, "type", "EntityKey")
    u.trust("nom-supreme's final_parser: succeeds only when the parser read all of the text", "#[verifier::external_body] fn vx_final<'a, O, R: Rd<O>>(p: P<O>, s: &'a str) -> (r: Result<O, VxErr>) requires gives::<O, R>(p), ensures r matches Ok(o) ==> exists|t: Seq<char>| R::sp(o, t) && #[trigger] reads(s@, none(), t) { unimplemented!() }")
    u.fn(LIB, "parse_entity", impl="EntityParser", ret="vx_r", contract="ensures vx_r matches Ok(k) ==> exists|t: Seq<char>| R_entity::sp(k, t) && #[trigger] reads(s@, none(), t),", pre=strip_use, start=BCAST + ' proof { reveal_strlit("<unknown>"); }', sig="fn parse_entity<'source>(&self, s: &'source str) -> (vx_r: Result<EntityKey, VxErr>)", rewrites=[
        ("final_parser($e)(s)", "vx_final::<EntityKey, R_entity>($e, s)", "nom-supreme's final parser"), (".terminated(eof)", ".terminated(eof())", "parser")])
    return u

def make_interning():
    """parts of a name are interned one list at a time, while other lists are still being collected"""
    from proofs import asylum
    u = asylum.sequences("reading_interning", entry=False, assumed="C04")
    u.assumed = None
    P = R + "interning/recursion.rs"
    RS = [("Key: InternerKey<ImplKey = Range<usize>> = SequenceKey<Spur, 8>>", "Key: InternerKey>", "default type argument, associated type fixed to Range<usize>"),
          ("Key: InternerKey<ImplKey = Range<usize>> = SequenceKey<Spur, 8>", "Key: InternerKey", "default type argument, associated type fixed to Range<usize>"),
          ("Item: Clone + Eq + Hash", "Item: Clone", "bounds used only through the trusted functions"), ("'interner,", "", "the shared reference to the interner is left out"),
          ("interner: &'interner RecursiveSequenceInterner<Item, Key>", "interner: PhantomData<Key>", "the shared reference to the interner is left out: its state is a parameter")]
    RR = "#[verifier::reject_recursive_types(Key)] #[verifier::reject_recursive_types(Item)]"
    u.item(P, "struct", "State", rewrites=RS, prefix=RR); u.item(P, "struct", "SequenceEntry", rewrites=RS, prefix=RR)
    u.trust("RefCell: the state of an interner is used by one borrower at a time (it panics otherwise), which is written as a mutable reference to it; std::mem::take leaves an empty vector", r"""
#[verifier::external_body] pub fn vx_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }
""")
    H = "impl<Item: Clone, Key: InternerKey> State<Item, Key>"
    HE = "impl<Item: Clone, Key: InternerKey> SequenceEntry<Item, Key>"
    cell = [("self.0.borrow_mut()", "&mut *vx_st", "the state behind the RefCell as a parameter"), ("self.interner.0.borrow_mut()", "vx_st", "the state behind the RefCell as a parameter"),
            ("self.0.borrow_mut().interner", "vx_st.interner", "the state behind the RefCell as a parameter"), ("interner: self,", "interner: vx_phantom(),", "the shared reference to the interner is left out: its state is a parameter"),
            ("ARef::new(self.0.borrow()).map(|state| $e)", "{ let state = vx_st; $e }", "ARef::map applied"), ("self.borrow().map(|interner| $e)", "{ let interner = vx_borrow(vx_st); $e }", "ARef::map applied"),
            ("&self.sequence[..]", "self.sequence.as_slice()", "whole slice"), ("std::mem::take(&mut self.sequence)", "vx_take(&mut self.sequence)", "standard library"),
            ("Self(RefCell::new($e))", "$e", "the state behind the RefCell as a parameter"), ("State {", "State::<Item, Key> {", "type arguments spelled out")]
    I = "RecursiveSequenceInterner"
    u.raw("spec fn fresh<Item: Clone, Key: InternerKey>(s: State<Item, Key>) -> bool { s.interner.wf() && s.interner.sequences@.len() == 0 && s.interner.concatenated@.len() == 0 }")
    u.fn(P, "new", impl=I, header=H, sig="fn new() -> (vx_r: State<Item, Key>)", contract="ensures fresh(vx_r),", rewrites=cell)
    u.fn(P, "borrow", impl=I, header="", rename="vx_borrow", sig="fn vx_borrow<Item: Clone, Key: InternerKey>(vx_st: &State<Item, Key>) -> (vx_r: &SequenceInterner<Item, Key>)", contract="ensures *vx_r == vx_st.interner,", rewrites=cell)
    u.fn(P, "get", impl=I, header=H, sig="fn get(vx_st: &State<Item, Key>, key: Key) -> (vx_r: &[Item])", contract="requires 0 <= key.lo() <= key.hi() <= vx_st.interner.concatenated@.len(), ensures vx_r@ == vx_st.interner.at(key),", rewrites=cell)
    # C23: interning a list gives its key, whatever else is being collected, and leaves older keys alone
    u.fn(P, "intern", impl=I, header=H, sig="fn intern(vx_st: &mut State<Item, Key>, sequence: &[Item]) -> (vx_r: Key)", contract="requires old(vx_st).interner.wf(), ensures final(vx_st).interner.interned(&old(vx_st).interner, sequence@, vx_r),", rewrites=cell[2:])
    # C23: a new list starts empty, whatever was in the buffer it takes over
    u.fn(P, "entry", impl=I, header=H, sig="fn entry(vx_st: &mut State<Item, Key>) -> (vx_r: SequenceEntry<Item, Key>)", contract="ensures vx_r.sequence@ == Seq::<Item>::empty(), final(vx_st).interner == old(vx_st).interner,", rewrites=cell,
         tail="assert(vx_ret.sequence@ =~= Seq::<Item>::empty());")
    u.fn(P, "push", impl="SequenceEntry", header=HE, contract="ensures final(self).sequence@ == old(self).sequence@.push(item),")
    u.fn(P, "intern", impl="SequenceEntry", header=HE, rename="vx_intern", sig="fn intern(self, vx_st: &mut State<Item, Key>) -> (vx_r: Key)", contract="requires old(vx_st).interner.wf(), ensures final(vx_st).interner.interned(&old(vx_st).interner, self.sequence@, vx_r),", rewrites=cell)
    u.fn(P, "drop", impl="SequenceEntry", trait="Drop", header=HE, rename="vx_drop", sig="fn vx_drop(&mut self, vx_st: &mut State<Item, Key>)", contract="ensures final(vx_st).interner == old(vx_st).interner,", rewrites=cell)
    return u
