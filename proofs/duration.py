"""C10: durations are displayed with every field in range and nothing lost in the carries."""
from fractions import Fraction
import re
from vx.unit import Unit
from vx import extract as X
from vx.rustlex import Tok, lex, text
from . import display

P = "src/ui/display/duration.rs"
CTF = "clang-time-trace/src/ctf/mod.rs"
FLOAT = re.compile(r"^[0-9][0-9_]*\.[0-9_]*$")

def rl(q):
    q = Fraction(q)
    return f"({q.numerator}.0real / {q.denominator}.0real)" if q.denominator != 1 else f"{q.numerator}.0real"

def constants():
    """values of the unit constants, evaluated from the source"""
    vals = {}
    for n in ("MICROSECOND", "MILLISECOND", "SECOND", "MINUTE", "HOUR", "DAY"):
        t = X.find_item(CTF, "const", n)
        i = next(k for k, x in enumerate(t) if x.t == "=")
        v = Fraction(1)
        for x in t[i+1:-1]:
            if x.t == "*": continue
            if FLOAT.match(x.t): v *= Fraction(x.t.replace("_", ""))
            elif x.t in vals: v *= vals[x.t]
            else: raise X.LostAnchor(f"constant {n}")
        vals[n] = v
    return vals

UNITS = ("MICROSECOND", "MILLISECOND", "SECOND", "MINUTE", "HOUR", "DAY")
def pre(toks, count):
    """float literals and unit constants as exact numbers, constant expressions folded"""
    vals = constants()
    def const(t):
        if t.k == "num" and FLOAT.match(t.t): return Fraction(t.t.replace("_", ""))
        return vals.get(t.t) if t.k == "id" else None
    out, i = [], 0
    while i < len(toks):
        v = const(toks[i])
        if v is None: out.append(toks[i]); i += 1; continue
        j, terms = i + 1, [[v]]
        while j + 1 < len(toks) and toks[j].t in ("*", "+") and const(toks[j+1]) is not None:
            if toks[j].t == "*": terms[-1].append(const(toks[j+1]))
            else: terms.append([const(toks[j+1])])
            j += 2
        prev, nxt = (toks[i-1].t if i else ""), toks[j].t if j < len(toks) else ""
        if (prev in ("*", "/", "-", "%") or nxt in ("*", "/", "%", ".")): terms, j = [[v]], i + 1
        tot = Fraction(0)
        for t in terms:
            p = Fraction(1)
            for f in t: p *= f
            tot += p
        n = lex(f"vx_f(Ghost({rl(tot)}))"); n[0] = Tok(n[0].k, n[0].t, toks[i].ws or " ", toks[i].line); out += n
        i = j
    count["float literals and unit constants, constant sums and products folded  ==>  exact numbers"] = 1
    return out

def linear(t, vals):
    """the same fact for each unit constant, in linear form"""
    if t == "Mul": return ", ".join(f"o.v() == {rl(v)} ==> r.v() == self.v() * {rl(v)}" for v in vals.values())
    if t == "Div": return ", ".join(f"o.v() == {rl(v)} ==> r.v() * {rl(v)} == self.v()" for v in vals.values())
    return ""

def make():
    u = display.base("duration")
    vals = constants()
    u.trust("for durations below 2^53 microseconds (285 years) the additions, subtractions and products made here are exact, floor of a quotient is the floor of the exact quotient "
            "(whole-number units; argued in DESIGN.md), and other quotients are only rounded for display; formatted numbers are opaque texts", "\n".join(
        ["pub struct F { x: f64 }", "// the integer that a whole number is\npub uninterp spec fn whole(x: real) -> int;",
         "impl F { pub uninterp spec fn v(&self) -> real; #[verifier::external_body] pub fn floor(self) -> (r: F) ensures r.v() == whole(r.v()) as real, r.v() <= self.v() < r.v() + 1.0real { unimplemented!() } }",
         "impl Clone for F { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } impl Copy for F {}"] +
        [f"impl vstd::std_specs::ops::{t}SpecImpl<F> for F {{ open spec fn obeys_{t.lower()}_spec() -> bool {{ false }} open spec fn {t.lower()}_req(self, o: F) -> bool {{ {q} }} open spec fn {t.lower()}_spec(self, o: F) -> F {{ self }} }}\n"
         f"impl core::ops::{t} for F {{ type Output = F; #[verifier::external_body] fn {t.lower()}(self, o: F) -> (r: F) ensures {linear(t, vals) or f"r.v() == self.v() {op} o.v()"} {{ unimplemented!() }} }}"
         for t, op, q in (("Add", "+", "true"), ("Sub", "-", "true"), ("Mul", "*", "true"), ("Div", "/", "o.v() > 0.0real"))] +
        ["""impl vstd::std_specs::cmp::PartialEqSpecImpl<F> for F { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F) -> bool { self.v() == o.v() } }
impl PartialEq for F { #[verifier::external_body] fn eq(&self, o: &F) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl<F> for F { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &F) -> Option<core::cmp::Ordering> { if self.v() < o.v() { Some(core::cmp::Ordering::Less) } else if self.v() > o.v() { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl PartialOrd for F { #[verifier::external_body] fn partial_cmp(&self, o: &F) -> Option<core::cmp::Ordering> { unimplemented!() } }""",
         "#[verifier::external_body] pub fn vx_f(v: Ghost<real>) -> (r: F) ensures r.v() == v@ { unimplemented!() }"] +
        ["// the text of a number: as it is, padded to two digits, with two decimals, with two decimals and two leading digits",
         "pub uninterp spec fn num(x: real, style: int) -> Seq<char>;"] +
        [f"#[verifier::external_body] pub fn {f}(x: &F) -> (r: VxText) ensures r@ == num(x.v(), {k}) {{ unimplemented!() }}" for k, f in enumerate(("vx_fnum", "vx_fmt_02", "vx_fmt_p2", "vx_fmt_05p2"))]))
    u.raw("pub type Duration = F;")
    u.item(P, "enum", "ForceHMS")
    u.raw(r"""
spec fn rank(f: Option<ForceHMS>) -> int { match f { None => 3, Some(ForceHMS::Hour) => 2, Some(ForceHMS::Minute) => 1, Some(ForceHMS::Second) => 0 } }
spec fn colon() -> Seq<char> { seq![':'] }
// a whole number of a unit and a rest that is shown as 59.99 at most; together they are the duration, up to half a hundredth of a second
spec fn split(x: real, unit: real, n: int, rest: real) -> bool { 0 <= n && 0.0real <= rest && rest < unit - 5000.0real && -5000.0real <= n as real * unit + rest - x && n as real * unit + rest - x <= 5000.0real && (rest == 0.0real || n as real * unit + rest == x) }
spec fn minutes_shown(x: real, style: int, t: Seq<char>) -> bool { exists|m: int, s: real| 0 <= m <= 59 && #[trigger] split(x, 60000000.0real, m, s) && t == num(m as real, style) + colon() + num(s / 1000000.0real, 3) }
spec fn hours_shown(x: real, style: int, t: Seq<char>) -> bool { exists|h: int, s: real, u: Seq<char>| 0 <= h <= 23 && #[trigger] split(x, 3600000000.0real, h, s) && #[trigger] minutes_shown(s, 1, u) && t == num(h as real, style) + colon() + u }
spec fn days_shown(x: real, t: Seq<char>) -> bool { exists|d: int, s: real, u: Seq<char>| 1 <= d && #[trigger] split(x, 86400000000.0real, d, s) && #[trigger] hours_shown(s, 1, u) && t == num(d as real, 0) + seq!['d', ' '] + u }
// C10
spec fn duration_shown(x: real, t: Seq<char>) -> bool {
    if x >= 86399995000.0real { days_shown(x, t) }
    else if x >= 3599995000.0real { hours_shown(x, 0, t) }
    else if x >= 59995000.0real { minutes_shown(x, 0, t) }
    else if x >= 999995.0real { t == num(x / 1000000.0real, 2) + seq!['s'] }
    else if x >= 1000.0real { t == num(x / 1000.0real, 2) + seq!['m', 's'] }
    else { t == num(x, 0) + seq!['µ', 's'] }
}
spec fn part_shown(x: real, f: Option<ForceHMS>, t: Seq<char>) -> bool {
    match f { None => duration_shown(x, t), Some(ForceHMS::Hour) => hours_shown(x, 1, t), Some(ForceHMS::Minute) => minutes_shown(x, 1, t), Some(ForceHMS::Second) => t == num(x / 1000000.0real, 3) }
}
spec fn fits_part(x: real, f: Option<ForceHMS>) -> bool {
    0.0real <= x && x < 9007199254740992.0real && match f { None => true, Some(ForceHMS::Hour) => x < 86399995000.0real, Some(ForceHMS::Minute) => x < 3599995000.0real, Some(ForceHMS::Second) => x < 59995000.0real }
}
""")
    u.fn(P, "display_duration_impl", ret="r", fmt=True, pre=pre, attrs="#[verifier::loop_isolation(false)]",
        rewrites=display.RULES[:1] + [
            ("$i_a += $e;", "$i_a = $i_a + ($e);", "compound assignment"),
            ("display_duration_impl(output, remainder, Some(ForceHMS::Hour))", "let vx_r_days = display_duration_impl(output, remainder, Some(ForceHMS::Hour)); vx_r_days", "result named"),
            ("display_duration_impl(output, remainder, Some(ForceHMS::Minute))", "let vx_r_hours = display_duration_impl(output, remainder, Some(ForceHMS::Minute)); vx_r_hours", "result named"),
            ("display_duration_impl(output, remainder, Some(ForceHMS::Second))", "let vx_r_minutes = display_duration_impl(output, remainder, Some(ForceHMS::Second)); vx_r_minutes", "result named"),
            ("vx_fmt(", "vx_fnum(", "number formatting"),
            ("force_hms == Some(ForceHMS::Hour)", "matches!(force_hms, Some(ForceHMS::Hour))", "derived comparison"), ("force_hms == Some(ForceHMS::Minute)", "matches!(force_hms, Some(ForceHMS::Minute))", "derived comparison"), ("force_hms == Some(ForceHMS::Second)", "matches!(force_hms, Some(ForceHMS::Second))", "derived comparison")],
        contract=r"""
        requires fits_part(duration.v(), force_hms),
        ensures r is Ok ==> exists|t: Seq<char>| final(output).out() == #[trigger] (old(output).out() + t) && part_shown(duration.v(), force_hms, t),
        decreases rank(force_hms),
        """, outer="""let ghost out0 = output.out(); let ghost x = duration.v(); let ghost mut mid = out0; let ghost mut n: int = 0; let ghost mut rest: real = 0.0real; let ghost style: int = if force_hms is Some { 1 } else { 0 };
            proof { reveal_strlit(":"); reveal_strlit("d "); reveal_strlit("s"); reveal_strlit("ms"); reveal_strlit("µs");
                assert(":"@ =~= colon()); assert("d "@ =~= seq!['d', ' ']); assert("s"@ =~= seq!['s']); assert("ms"@ =~= seq!['m', 's']); assert("µs"@ =~= seq!['µ', 's']);
                }""",
        hints=[("after", f"let mut {v} = $a;", f"proof {{ n = whole({v}.v()); }}") for v in ("days", "hours", "minutes")] +
              [("after", f"{v} = {v} + $a;", "proof { n = n + 1; }") for v in ("days", "hours", "minutes")] +
              [("before", "let vx_r_days = $a;", "proof { mid = output.out(); rest = remainder.v(); assert(days.v() == n as real); assert(split(x, 86400000000.0real, n, rest)); }"),
               ("after", "let vx_r_days = $a;", """proof { if vx_r_days is Ok {
                    let u = choose|u: Seq<char>| output.out() == #[trigger] (mid + u) && part_shown(rest, Some(ForceHMS::Hour), u);
                    let t = num(n as real, 0) + seq!['d', ' '] + u; assert(mid =~= out0 + (num(n as real, 0) + seq!['d', ' '])); assert(output.out() =~= out0 + t);
                    assert(days_shown(x, t)); assert(part_shown(x, force_hms, t)); } }"""),
               ("before", "let vx_r_hours = $a;", "proof { mid = output.out(); rest = remainder.v(); assert(hours.v() == n as real); assert(split(x, 3600000000.0real, n, rest)); }"),
               ("after", "let vx_r_hours = $a;", """proof { if vx_r_hours is Ok {
                    let u = choose|u: Seq<char>| output.out() == #[trigger] (mid + u) && part_shown(rest, Some(ForceHMS::Minute), u);
                    let t = num(n as real, style) + colon() + u; assert(mid =~= out0 + (num(n as real, style) + colon())); assert(output.out() =~= out0 + t);
                    assert(hours_shown(x, style, t)); assert(part_shown(x, force_hms, t)); } }"""),
               ("before", "let vx_r_minutes = $a;", "proof { mid = output.out(); rest = remainder.v(); assert(minutes.v() == n as real); assert(split(x, 60000000.0real, n, rest)); }"),
               ("after", "let vx_r_minutes = $a;", """proof { if vx_r_minutes is Ok {
                    let u = choose|u: Seq<char>| output.out() == #[trigger] (mid + u) && part_shown(rest, Some(ForceHMS::Second), u);
                    let t = num(n as real, style) + colon() + u; assert(mid =~= out0 + (num(n as real, style) + colon())); assert(output.out() =~= out0 + t);
                    assert(minutes_shown(x, style, t)); assert(part_shown(x, force_hms, t)); } }""")],
        tail="""if vx_ret is Ok && mid == out0 {
            if force_hms is Some { assert(part_shown(x, force_hms, num(x / 1000000.0real, 3))); }
            else if x >= 999995.0real { assert(part_shown(x, force_hms, num(x / 1000000.0real, 2) + seq!['s'])); }
            else if x >= 1000.0real { assert(part_shown(x, force_hms, num(x / 1000.0real, 2) + seq!['m', 's'])); }
            else { assert(part_shown(x, force_hms, num(x, 0) + seq!['µ', 's'])); } }""")
    u.fn(P, "display_duration", ret="r", rewrites=[("output: impl io::Write", "output: &mut (impl io::Write)", "by-value writer taken as the reference its callers pass")],
        contract=r"""
        requires 0.0real <= duration.v(), duration.v() < 9007199254740992.0real,
        ensures r is Ok ==> exists|t: Seq<char>| final(output).out() == #[trigger] (old(output).out() + t) && duration_shown(duration.v(), t),
        """)
    return u
