"""Terminal display: C07 (string truncation), C08 (path truncation), C09 (activity descriptions)."""
from vx.unit import Unit
from vx.extract import LostAnchor

D = "src/ui/display/mod.rs"
P = "src/ui/display/path.rs"
A = "src/ui/display/activity.rs"

def base(name):
    u = Unit(name, rlimit=60)
    u.trust("formatting macros: write!/format! concatenate their literal and displayed pieces; io::Write appends what it reports as written", r"""
global size_of usize == 8;
#[verifier::external_body] pub struct VxText { s: String }
impl VxText { pub uninterp spec fn view(&self) -> Seq<char>; }
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
impl VxShow for VxString { open spec fn shown(&self) -> Seq<char> { self@ } }
#[verifier::external_body] pub fn vx_lit(s: &str) -> (r: VxText) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_cat(a: VxText, b: VxText) -> (r: VxText) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_fmt<T: VxShow + ?Sized>(x: &T) -> (r: VxText) ensures r@ == x.shown() { unimplemented!() }
#[verifier::external_body] pub fn vx_string(t: VxText) -> (r: VxString) ensures r@ == t@ { unimplemented!() }
pub mod io {
    use vstd::prelude::*;
    use super::VxText;
    verus! {
    #[verifier::external_body] pub struct Error {}
    pub type Result<T> = core::result::Result<T, Error>;
    pub trait Write {
        spec fn out(&self) -> Seq<char>;
        fn vx_write(&mut self, t: VxText) -> (r: Result<()>) ensures r is Ok ==> final(self).out() == old(self).out() + t@;
    }
    }
}
""")
    u.trust("String as a sequence of characters; a text is at most isize::MAX bytes long", r"""
#[verifier::external_body] pub struct VxString { s: String }
impl VxString {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body] pub fn push_str(&mut self, s: &str) ensures final(self)@ == old(self)@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn pop(&mut self) -> (r: Option<char>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@.last()) && final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn width(&self) -> (r: usize) ensures r == width(self@) { unimplemented!() }
    #[verifier::external_body] pub fn into(self) -> (r: VxString) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
}
pub uninterp spec fn blen(s: Seq<char>) -> nat;
#[verifier::external_body] pub fn vx_len(s: &str) -> (r: usize) ensures r == blen(s@), r <= isize::MAX { unimplemented!() }
pub fn vx_wide(x: u16) -> (r: usize) ensures r == x { x as usize }
#[verifier::external_body] pub fn vx_same(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
""")
    u.trust("unicode-width: an ellipsis, a slash, a parenthesis, a space, a comma and a full stop take one column and do not change the width of their neighbours; consecutive grapheme clusters are "
            "no wider together than one by one; a text is no wider than its length in bytes", r"""
pub uninterp spec fn width(s: Seq<char>) -> nat;
pub open spec fn plain(c: char) -> bool { c == '…' || c == '/' || c == '(' || c == ')' || c == ' ' || c == ',' || c == '.' }
#[verifier::external_body] pub proof fn ax_plain(c: char) requires plain(c), ensures width(seq![c]) == 1 {}
#[verifier::external_body] pub proof fn ax_join(a: Seq<char>, c: char, b: Seq<char>) requires plain(c), ensures width(a + seq![c] + b) <= width(a) + 1 + width(b) {}
#[verifier::external_body] pub proof fn ax_pieces(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= graphemes(s).len(), ensures width(cat(graphemes(s).subrange(i, j))) <= wsum(graphemes(s).subrange(i, j)) {}
#[verifier::external_body] pub proof fn ax_blen(s: Seq<char>) ensures width(s) <= blen(s) {}
#[verifier::external_body] pub proof fn ax_empty() ensures width(Seq::<char>::empty()) == 0 {}
#[verifier::external_body] pub fn vx_width(s: &str) -> (r: usize) ensures r == width(s@), r <= isize::MAX { unimplemented!() }
""")
    u.trust("unicode-segmentation: the grapheme clusters of a text are non-empty and concatenate to the text; grapheme_indices lists them with their byte offsets, "
            "next and next_back take them from the two ends; slicing at such an offset splits the list", r"""
pub uninterp spec fn graphemes(s: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body] pub proof fn ax_graphemes(s: Seq<char>)
    ensures cat(graphemes(s)) == s, forall|i: int| 0 <= i < graphemes(s).len() ==> blen(#[trigger] graphemes(s)[i]) >= 1 {}
pub open spec fn cat(g: Seq<Seq<char>>) -> Seq<char> decreases g.len() { if g.len() == 0 { seq![] } else { cat(g.drop_last()) + g.last() } }
pub open spec fn wsum(g: Seq<Seq<char>>) -> nat decreases g.len() { if g.len() == 0 { 0 } else { wsum(g.drop_last()) + width(g.last()) } }
pub open spec fn bsum(g: Seq<Seq<char>>) -> nat decreases g.len() { if g.len() == 0 { 0 } else { bsum(g.drop_last()) + blen(g.last()) } }
pub open spec fn goff(s: Seq<char>, i: int) -> nat { bsum(graphemes(s).subrange(0, i)) }
#[verifier::external_body] pub fn vx_indices(s: &str) -> (r: Vec<(usize, &str)>)
    ensures r@.len() == graphemes(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == goff(s@, i) && r@[i].1@ == graphemes(s@)[i] && r@[i].0 + blen(r@[i].1@) <= isize::MAX, goff(s@, r@.len() as int) == blen(s@) <= isize::MAX { unimplemented!() }
#[verifier::external_body] pub fn vx_indices_rev(s: &str) -> (r: Vec<(usize, &str)>)
    ensures r@.len() == graphemes(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == goff(s@, r@.len() - 1 - i) && r@[i].1@ == graphemes(s@)[r@.len() - 1 - i] { unimplemented!() }
#[verifier::external_body] fn vx_upto(s: &str, o: usize, Ghost(i): Ghost<int>) -> (r: &str) requires 0 <= i <= graphemes(s@).len(), o == goff(s@, i), ensures r@ == cat(graphemes(s@).subrange(0, i)) { unimplemented!() }
#[verifier::external_body] pub fn vx_from(s: &str, o: usize, Ghost(i): Ghost<int>) -> (r: &str) requires 0 <= i <= graphemes(s@).len(), o == goff(s@, i), ensures r@ == cat(graphemes(s@).subrange(i, graphemes(s@).len() as int)) { unimplemented!() }
""")
    u.raw(r"""
proof fn lemma_wsum_split(g: Seq<Seq<char>>, i: int) requires 0 <= i <= g.len(), ensures wsum(g) == wsum(g.subrange(0, i)) + wsum(g.subrange(i, g.len() as int)) decreases g.len() {
    if i == g.len() { assert(g.subrange(0, i) =~= g); assert(g.subrange(i, i) =~= seq![]); }
    else { let h = g.drop_last(); lemma_wsum_split(h, i); assert(h.subrange(0, i) =~= g.subrange(0, i)); let t = g.subrange(i, g.len() as int); assert(t.drop_last() =~= h.subrange(i, h.len() as int)); assert(t.last() == g.last()); }
}
proof fn lemma_wsum_first(g: Seq<Seq<char>>) requires g.len() > 0, ensures wsum(g) == width(g[0]) + wsum(g.subrange(1, g.len() as int)) {
    lemma_wsum_split(g, 1); let f = g.subrange(0, 1); assert(f.drop_last() =~= seq![]); assert(f.last() == g[0]); assert(wsum(f.drop_last()) == 0);
}
proof fn lemma_step(s: Seq<char>, i: int) requires 0 <= i < graphemes(s).len(),
    ensures wsum(graphemes(s).subrange(0, i + 1)) == wsum(graphemes(s).subrange(0, i)) + width(graphemes(s)[i]), goff(s, i + 1) == goff(s, i) + blen(graphemes(s)[i]),
        cat(graphemes(s).subrange(0, i + 1)) == cat(graphemes(s).subrange(0, i)) + graphemes(s)[i],
{ let g = graphemes(s).subrange(0, i + 1); assert(g.drop_last() =~= graphemes(s).subrange(0, i)); assert(g.last() == graphemes(s)[i]); }
proof fn lemma_back(s: Seq<char>, j: int) requires 0 < j <= graphemes(s).len(),
    ensures ({ let n = graphemes(s).len() as int; wsum(graphemes(s).subrange(j - 1, n)) == wsum(graphemes(s).subrange(j, n)) + width(graphemes(s)[j - 1]) }),
{ let n = graphemes(s).len() as int; let g = graphemes(s).subrange(j - 1, n); lemma_wsum_first(g); assert(g.subrange(1, g.len() as int) =~= graphemes(s).subrange(j, n)); assert(g[0] == graphemes(s)[j - 1]); }
proof fn lemma_whole(s: Seq<char>) ensures width(s) <= wsum(graphemes(s)) { let n = graphemes(s).len() as int; ax_graphemes(s); ax_pieces(s, 0, n); assert(graphemes(s).subrange(0, n) =~= graphemes(s)); }
""")
    return u

RULES = [("mut output: impl io::Write", "output: &mut (impl io::Write)", "by-value writer taken as the reference its callers pass"),
         ("$a as u16", "vx_u16($a)", "cast") ]

def string(u):
    u.item(D, "enum", "DisplayConfig", prefix="#[derive(Copy, Clone)]")
    u.raw(r"""
// C07: the longest beginning that fits half of the budget, an ellipsis, the longest end that fits the rest
spec fn cut(s: Seq<char>, cols: int, i: int, j: int) -> bool {
    let g = graphemes(s); let n = g.len() as int;
    &&& 0 <= i <= j <= n
    &&& wsum(g.subrange(0, i)) <= (cols - 1) / 2
    &&& (i < n ==> wsum(g.subrange(0, i + 1)) > (cols - 1) / 2)
    &&& wsum(g.subrange(j, n)) <= cols - 1 - wsum(g.subrange(0, i))
    &&& (j > 0 ==> wsum(g.subrange(j - 1, n)) > cols - 1 - wsum(g.subrange(0, i)))
}
spec fn cut_text(s: Seq<char>, i: int, j: int) -> Seq<char> { cat(graphemes(s).subrange(0, i)) + seq!['…'] + cat(graphemes(s).subrange(j, graphemes(s).len() as int)) }
spec fn string_shown(s: Seq<char>, cols: int, t: Seq<char>) -> bool {
    width(t) <= cols && (if width(s) <= cols { t == s } else { exists|i: int, j: int| cut(s, cols, i, j) && t == #[trigger] cut_text(s, i, j) })
}
""")
    u.fn(D, "display_string", ret="r", fmt=True, attrs="#[verifier::loop_isolation(false)]", rewrites=RULES[:1] + [
        ("input.width()", "vx_width(input)", "trusted"), ("grapheme.width()", "vx_width(grapheme)", "trusted"),
        ("input.grapheme_indices(true).rev()", "vx_indices_rev(input)", "iterator as the list of its items"),
        ("input.grapheme_indices(true)", "vx_indices(input)", "iterator as the list of its items"),
        ("grapheme.len()", "vx_len(grapheme)", "trusted"), ("input.len()", "vx_len(input)", "trusted"),
        ("&input[..$e]", "vx_upto(input, $e, Ghost(vx_i))", "trusted slicing, requires a boundary"),
        ("&input[$e..]", "vx_from(input, $e, Ghost(vx_j))", "trusted slicing, requires a boundary"),
        ("debug_assert!(input.chars().all(|c| c != '\\r' && c != '\\n'));", "", "documented assumption of the caller"),
        ("assert!($e)", "assert($e)", "runtime assertion becomes an obligation"),
    ], contract=r"""
        requires config matches DisplayConfig::SingleLine { max_cols } ==> max_cols >= 1,
        ensures r is Ok ==> exists|t: Seq<char>| final(output).out() == #[trigger] (old(output).out() + t) && (match config {
            DisplayConfig::SingleLine { max_cols } => string_shown(input@, max_cols as int, t),
            DisplayConfig::MultiLine { .. } => t == input@ }),
        """,
        start="let ghost out0 = output.out(); proof { ax_graphemes(input@); lemma_whole(input@); ax_empty(); ax_plain('…'); reveal_strlit(\"…\"); assert(\"…\"@ =~= seq!['…']); }",
        loops=[dict(kw="for", it="it1", before="let ghost mut vx_i: int = 0; let ghost mut full1 = false; proof { assert(graphemes(input@).subrange(0, 0) =~= seq![]); }", inv=r"""
            invariant
                it1.seq().len() == graphemes(input@).len(), forall|k: int| 0 <= k < it1.seq().len() ==> (#[trigger] it1.seq()[k]).0 == goff(input@, k) && it1.seq()[k].1@ == graphemes(input@)[k] && it1.seq()[k].0 + blen(it1.seq()[k].1@) <= isize::MAX,
                vx_i == it1.index@, 0 <= vx_i <= graphemes(input@).len(), !full1,
                header_cols == wsum(graphemes(input@).subrange(0, vx_i)), header_cols <= max_header_cols,
                header_end == goff(input@, vx_i), goff(input@, graphemes(input@).len() as int) <= isize::MAX,
            ensures 0 <= vx_i <= graphemes(input@).len(), header_cols == wsum(graphemes(input@).subrange(0, vx_i)), header_cols <= max_header_cols, header_end == goff(input@, vx_i),
                vx_i < graphemes(input@).len() ==> wsum(graphemes(input@).subrange(0, vx_i + 1)) > max_header_cols,
            """, start="proof { lemma_step(input@, vx_i); }", end="proof { vx_i = vx_i + 1; }"),
          dict(kw="for", it="it2", before="let ghost mut vx_j: int = graphemes(input@).len() as int; proof { let n = graphemes(input@).len() as int; assert(graphemes(input@).subrange(n, n) =~= seq![]); }", inv=r"""
            invariant
                it2.seq().len() == graphemes(input@).len(), forall|k: int| 0 <= k < it2.seq().len() ==> (#[trigger] it2.seq()[k]).0 == goff(input@, it2.seq().len() - 1 - k) && it2.seq()[k].1@ == graphemes(input@)[it2.seq().len() - 1 - k],
                vx_j == graphemes(input@).len() - it2.index@, 0 <= vx_j <= graphemes(input@).len(),
                trailer_cols == wsum(graphemes(input@).subrange(vx_j, graphemes(input@).len() as int)), trailer_cols <= max_trailer_cols,
                trailer_start == goff(input@, vx_j),
            ensures 0 <= vx_j <= graphemes(input@).len(), trailer_cols == wsum(graphemes(input@).subrange(vx_j, graphemes(input@).len() as int)), trailer_cols <= max_trailer_cols, trailer_start == goff(input@, vx_j),
                vx_j > 0 ==> wsum(graphemes(input@).subrange(vx_j - 1, graphemes(input@).len() as int)) > max_trailer_cols,
            """, start="proof { lemma_back(input@, vx_j); }", end="proof { vx_j = vx_j - 1; }",
            after="""proof { let g = graphemes(input@); let n = g.len() as int;
               lemma_wsum_split(g, vx_i); if vx_j < vx_i { lemma_wsum_split(g.subrange(vx_j, n), vx_i - vx_j); assert(g.subrange(vx_j, n).subrange(vx_i - vx_j, n - vx_j) =~= g.subrange(vx_i, n)); }
               ax_pieces(input@, 0, vx_i); ax_pieces(input@, vx_j, n); ax_join(cat(g.subrange(0, vx_i)), '…', cat(g.subrange(vx_j, n)));
               assert(cut(input@, max_cols as int, vx_i, vx_j)); assert(string_shown(input@, max_cols as int, cut_text(input@, vx_i, vx_j))); 
               assert(out0 + cut_text(input@, vx_i, vx_j) =~= out0 + (cat(g.subrange(0, vx_i)) + seq!['…']) + cat(g.subrange(vx_j, n))); }"""),
        ])

def make_string():
    u = base("display_string")
    string(u)
    return u

FILENAME_SPEC = r"""
// C08: the longest beginning that takes at most half of the columns that remain after "…/" and "…", and the longest end that takes
// at most what the beginning left (the first character that did not fit at the beginning is not shown at the end either)
spec fn name_cut(s: Seq<char>, cols: int, i: int, j: int) -> bool {
    let g = graphemes(s); let n = g.len() as int; let half = (cols - 3) / 2; let rest = cols - 3 - wsum(g.subrange(0, i));
    0 <= i <= j <= n && wsum(g.subrange(0, i)) <= half && (i < n ==> wsum(g.subrange(0, i + 1)) > half && j >= i + 1)
    && wsum(g.subrange(j, n)) <= rest && (j > i + 1 ==> wsum(g.subrange(j - 1, n)) > rest)
}
spec fn elided_name(s: Seq<char>, i: int, j: int) -> Seq<char> { seq!['…', '/'] + cat(graphemes(s).subrange(0, i)) + seq!['…'] + cat(graphemes(s).subrange(j, graphemes(s).len() as int)) }
"""
PATH_RULES = [("assert!($e, $m)", "{ let vx_b = $e; assert(vx_b); }", "runtime assertion becomes an obligation"), ("assert!($e)", "{ let vx_b = $e; assert(vx_b); }", "runtime assertion becomes an obligation"),
         ("debug_assert!($e, $m)", "{ let vx_b = $e; assert(vx_b); }", "runtime assertion becomes an obligation"), ("debug_assert!($e)", "{ let vx_b = $e; assert(vx_b); }", "runtime assertion becomes an obligation"),
         ("impl DoubleEndedIterator<Item = impl AsRef<str>> + Clone", "Comps", "iterator as a list of texts consumed from both ends"),
         ("components.clone()", "components.vx_clone()", "trusted clone"), ("Box<str>", "VxString", "text type"), ("String::new()", "VxString::new()", "text type"),
         ("$i_a == root_component", "vx_same($i_a, root_component)", "text comparison"), ("$i_a != root_component", "!vx_same($i_a, root_component)", "text comparison"),
         ("candidate.width()", "vx_width(candidate)", "trusted"), ("file_name.width()", "vx_width(file_name)", "trusted"),
         ("front_grapheme.width()", "vx_width(front_grapheme)", "trusted"), ("back_grapheme.width()", "vx_width(back_grapheme)", "trusted"),
         ("file_name.graphemes(true)", "vx_graphemes(file_name)", "iterator as a list"), ("usize::from(cols)", "vx_wide(cols)", "lossless conversion"),
         ("front ^= $e;", "front = front != ($e);", "exclusive or of truth values"), ("$i_a as usize", "(if $i_a { 1usize } else { 0usize })", "conversion of a truth value") ,
         ("(!$i_a as usize)", "(if !$i_a { 1usize } else { 0usize })", "conversion of a truth value")]

def filename(u):
    u.trust("unicode-segmentation: an iterator over grapheme clusters yields them from both ends", r"""
pub const PATH_SEPARATOR: char = '/';
#[verifier::external_body] pub struct Graphemes { v: Vec<String> }
impl Graphemes {
    pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'static str>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn next_back(&mut self) -> (r: Option<&'static str>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@.last() && final(self)@ == old(self)@.drop_last() { unimplemented!() }
}
#[verifier::external_body] pub fn vx_graphemes(s: &str) -> (r: Graphemes) ensures r@ == graphemes(s@) { unimplemented!() }
#[verifier::external_body] pub fn vx_rev(v: Vec<&str>) -> (r: Vec<&str>) ensures r@ == v@.reverse() { unimplemented!() }
""")
    u.raw(FILENAME_SPEC + r"""
#[verifier::external_body] pub proof fn ax_elision() ensures width(seq!['…', '/']) == 2 {}
pub open spec fn tx(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
proof fn lemma_gstep(s: Seq<char>, i: int) requires 0 <= i < graphemes(s).len(),
    ensures wsum(graphemes(s).subrange(0, i + 1)) == wsum(graphemes(s).subrange(0, i)) + width(graphemes(s)[i]), cat(graphemes(s).subrange(0, i + 1)) == cat(graphemes(s).subrange(0, i)) + graphemes(s)[i] { lemma_step(s, i); }
proof fn lemma_gback(s: Seq<char>, j: int) requires 0 < j <= graphemes(s).len(),
    ensures ({ let n = graphemes(s).len() as int; wsum(graphemes(s).subrange(j - 1, n)) == wsum(graphemes(s).subrange(j, n)) + width(graphemes(s)[j - 1]) }) { lemma_back(s, j); }
""")
    rw = PATH_RULES
    u.fn(P, "display_filename", ret="r", attrs="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]", sig="fn display_filename(file_name: &str, vx_cols: usize) -> (r: VxString)",
        rewrites=rw + [("back_graphemes.into_iter().rev()", "vx_rev(back_graphemes)", "reversed list")],
        contract=r"""
        requires 3 <= vx_cols < width(file_name@) + 2,
        ensures width(r@) <= vx_cols, exists|i: int, j: int| name_cut(file_name@, vx_cols as int, i, j) && r@ == #[trigger] elided_name(file_name@, i, j),
        """, start="let mut cols = vx_cols; let ghost s = file_name@; let ghost g = graphemes(s); let ghost n = g.len() as int; let ghost mut i: int = 0; let ghost mut j: int = n; let ghost mut p: int = 0; proof { ax_elision(); ax_empty(); ax_plain('…'); assert(g.subrange(0, n) =~= g); assert(g.subrange(0, 0) =~= seq![]); assert(g.subrange(n, n) =~= seq![]); }",
        hints=[("before", "cols -= buffer.width() + 1;", "proof { assert(buffer@ =~= seq!['…', '/']); }")],
        loops=[dict(kw="while", before="let ghost c3 = cols as int; proof { assert(c3 == vx_cols - 3); assert(buffer@ =~= seq!['…', '/']); }", inv=r"""
            invariant_except_break 0 <= i <= n, p == i, graphemes@ == g.subrange(i, n), buffer@ == seq!['…', '/'] + cat(g.subrange(0, i)), rem_front_cols + wsum(g.subrange(0, i)) == max_front_cols,
            ensures 0 <= i <= p <= n, graphemes@ == g.subrange(p, n), buffer@ == seq!['…', '/'] + cat(g.subrange(0, i)), rem_front_cols + wsum(g.subrange(0, i)) == max_front_cols, i < n ==> p == i + 1 && wsum(g.subrange(0, i + 1)) > max_front_cols,
            decreases graphemes@.len(),
            """, start="let ghost bp = buffer@; proof { assert(front_grapheme@ == g[i]); lemma_gstep(s, i); p = i + 1; assert(graphemes@ =~= g.subrange(p, n)); if width(g[i]) <= rem_front_cols { i = i + 1; assert(bp + g[i - 1] =~= seq!['…', '/'] + cat(g.subrange(0, i))); } }"),
          dict(kw="while", before="let ghost cb = cols as int; let ghost wf = wsum(g.subrange(0, i)); let ghost mut m: int = n; let ghost b1 = buffer@; proof { assert(cb == c3 - wf); }", inv=r"""
            invariant_except_break p <= j <= n, m == j, graphemes@ == g.subrange(p, m), 
            invariant p <= j <= n, tx(back_graphemes@).reverse() == g.subrange(j, n), cols + wsum(g.subrange(j, n)) == cb,
            ensures j > p ==> wsum(g.subrange(j - 1, n)) > cb,
            decreases graphemes@.len(),
            """, start="let ghost bk = back_graphemes@; proof { assert(back_grapheme@ == g[m - 1]); lemma_gback(s, j); m = m - 1; assert(graphemes@ =~= g.subrange(p, m)); if width(g[m]) <= cols { j = j - 1; assert(g.subrange(j, n) =~= seq![g[j]] + g.subrange(j + 1, n)); assert(tx(bk.push(back_grapheme)) =~= tx(bk).push(g[j])); assert(tx(bk).push(g[j]).reverse() =~= seq![g[j]] + tx(bk).reverse()); } }"),
          dict(kw="for", it="it3", before="let ghost rv = g.subrange(j, n); proof { assert(rv.subrange(0, 0) =~= seq![]); }", inv=r"""
            invariant tx(it3.seq()) == rv, 0 <= it3.index@ <= rv.len(), buffer@ == b1 + cat(rv.subrange(0, it3.index@ as int)), 
            """, start="let ghost bp = buffer@;", end="proof { let k = it3.index@ as int; assert(tx(it3.seq())[k] == rv[k]); assert(rv.subrange(0, k + 1).drop_last() =~= rv.subrange(0, k)); assert(buffer@ =~= b1 + cat(rv.subrange(0, k + 1))); }",
            after="""proof { assert(rv.subrange(0, rv.len() as int) =~= rv); assert(buffer@ =~= elided_name(s, i, j)); assert(name_cut(s, vx_cols as int, i, j));
                ax_pieces(s, 0, i); ax_pieces(s, j, n);
                let ft = cat(g.subrange(0, i)); let bt = cat(g.subrange(j, n)); ax_join(seq!['…'], '/', ft); assert(seq!['…'] + seq!['/'] + ft =~= seq!['…', '/'] + ft);
                ax_join(seq!['…', '/'] + ft, '…', bt); assert(seq!['…', '/'] + ft + seq!['…'] + bt == elided_name(s, i, j)); }""")])
    return u

def make_filename():
    u = base("display_filename")
    return filename(u)

def path(u, fixed=True):
    u.trust("the components of a path, taken from both ends; PATH_SEPARATOR is '/' on the supported targets and root_component() is its text", r"""
pub const PATH_SEPARATOR: char = '/';
#[verifier::external_body] pub struct Comps { v: Vec<String> }
#[verifier::external_body] pub struct Comp { s: String }
impl Comp { pub uninterp spec fn view(&self) -> Seq<char>; #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
impl Comps {
    pub uninterp spec fn view(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] pub fn vx_clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<Comp>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@[0] && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int) { unimplemented!() }
    #[verifier::external_body] pub fn next_back(&mut self) -> (r: Option<Comp>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@.last() && final(self)@ == old(self)@.drop_last() { unimplemented!() }
}
#[verifier::external_body] pub fn root_component() -> (r: &'static str) ensures r@ == seq!['/'] { unimplemented!() }
""")
    u.raw(r"""
// an absolute path: the root, then segments that are neither empty nor the root
spec fn absolute(c: Seq<Seq<char>>) -> bool { c.len() >= 1 && c[0] == seq!['/'] && forall|i: int| 1 <= i < c.len() ==> #[trigger] c[i] != seq!['/'] && c[i].len() > 0 }
spec fn slash() -> Seq<char> { seq!['/'] }
// the first f segments with what separates them from what follows
spec fn front_text(c: Seq<Seq<char>>, f: int) -> Seq<char> decreases f { if f <= 0 { seq![] } else { front_text(c, f - 1) + c[f - 1] + (if c[f - 1] == slash() { seq![] } else { slash() }) } }
// segments from k on, each preceded by a separator
spec fn back_text(c: Seq<Seq<char>>, k: int) -> Seq<char> decreases c.len() - k { if k >= c.len() { seq![] } else { slash() + c[k] + back_text(c, k + 1) } }
// the whole path as usually written
spec fn full(c: Seq<Seq<char>>) -> Seq<char> { if c.len() == 1 { c[0] } else { back_text(c, 1) } }
spec fn front_cost(c: Seq<Seq<char>>, f: int) -> nat decreases f { if f <= 0 { 0 } else { front_cost(c, f - 1) + width(c[f - 1]) + (if c[f - 1] == slash() { 0nat } else { 1 }) } }
spec fn back_cost(c: Seq<Seq<char>>, k: int) -> nat decreases c.len() - k { if k >= c.len() { 0 } else { 1 + width(c[k]) + back_cost(c, k + 1) } }
// C08: what may be shown of a path in a given number of columns
spec fn whole_segments(c: Seq<Seq<char>>, f: int, b: int, t: Seq<char>) -> bool {
    0 <= f && 1 <= b && f + b <= c.len() && t == (if f + b == c.len() { full(c) } else { front_text(c, f) + seq!['…'] + back_text(c, c.len() - b) })
}
spec fn path_shown(c: Seq<Seq<char>>, cols: int, t: Seq<char>) -> bool {
    &&& width(t) <= cols
    &&& (exists|f: int, b: int| #[trigger] whole_segments(c, f, b, t)) || t == seq!['…']
        || (exists|i: int, j: int| name_cut(c.last(), cols, i, j) && t == #[trigger] elided_name(c.last(), i, j))
    // a path that leaves a column of the budget unused is not abridged
    &&& (front_cost(c, 1) + back_cost(c, 1) <= cols ==> t == full(c))
}
// at least two segments below the root (or none), all of them visible
spec fn solid(c: Seq<Seq<char>>) -> bool { c.len() != 2 && forall|i: int| 1 <= i < c.len() ==> width(#[trigger] c[i]) >= 1 }
// the component budget the two ends have used up
spec fn picked(c: Seq<Seq<char>>, cols: int, f: int, b: int) -> bool {
    &&& 0 <= f && 0 <= b && f + b <= c.len()
    &&& f + b < c.len() ==> front_cost(c, f) + back_cost(c, c.len() - b) + 1 <= cols
    &&& f + b == c.len() ==> (f == 0 ==> c.len() == 1) && width(full(c)) <= cols
    &&& b == 0 ==> 1 + width(c.last()) + 1 > cols && c.len() > 1
    &&& (front_cost(c, 1) + back_cost(c, 1) <= cols ==> f + b == c.len())
    &&& (solid(c) && front_cost(c, 1) + back_cost(c, 1) <= cols + 1 ==> f + b == c.len())
    // neither end could take another segment
    &&& f + b + 1 < c.len() ==> front_cost(c, f + 1) + back_cost(c, c.len() - b) + 1 > cols && front_cost(c, f) + back_cost(c, c.len() - b - 1) + 1 > cols
}
proof fn lemma_slash() ensures width(slash()) == 1 { ax_plain('/'); assert(slash() =~= seq!['/']); }
proof fn lemma_join(a: Seq<char>, b: Seq<char>) ensures width(a + slash() + b) <= width(a) + 1 + width(b) { ax_join(a, '/', b); }
proof fn lemma_front(c: Seq<Seq<char>>, f: int) requires absolute(c), 0 <= f <= c.len(), ensures width(front_text(c, f)) <= front_cost(c, f), f > 0 ==> front_text(c, f).len() > 0 && front_text(c, f).last() == '/' decreases f {
    ax_empty(); lemma_slash();
    if f > 0 { lemma_front(c, f - 1);
        if f == 1 { assert(c[0] == slash()); assert(front_text(c, 0) =~= seq![]); assert(front_text(c, 1) =~= slash()); }
        else { lemma_sep(c, f - 1); lemma_join(front_text(c, f - 1).drop_last(), c[f - 1]); ax_join(front_text(c, f - 1) + c[f - 1], '/', seq![]);
            lemma_joined(c, f - 1);
            assert(front_text(c, f) =~= front_text(c, f - 1) + c[f - 1] + slash() + seq![]); } }
}
proof fn lemma_sep(c: Seq<Seq<char>>, f: int) requires absolute(c), 1 <= f <= c.len(), ensures front_text(c, f).len() > 0, front_text(c, f).last() == '/', front_text(c, f) == front_text(c, f).drop_last() + slash() decreases f {
    if f == 1 { assert(front_text(c, 0) =~= seq![]); assert(front_text(c, 1) =~= slash()); } else { lemma_sep(c, f - 1); assert(c[f - 1] != slash()); }
    assert(front_text(c, f) =~= front_text(c, f).drop_last() + slash());
}
// what precedes the separator, and the separator itself, account for all columns
proof fn lemma_joined(c: Seq<Seq<char>>, f: int) requires absolute(c), 1 <= f < c.len(), ensures width(front_text(c, f) + c[f]) <= front_cost(c, f) + width(c[f]), width(front_text(c, f).drop_last()) + 1 <= front_cost(c, f) decreases f {
    ax_empty(); lemma_slash(); lemma_sep(c, f);
    if f == 1 { assert(front_text(c, 0) =~= seq![]); assert(front_text(c, 1) =~= slash()); assert(front_text(c, 1).drop_last() =~= seq![]); assert(front_cost(c, 0) == 0); assert(front_cost(c, 1) == 1); }
    else { lemma_joined(c, f - 1); assert(c[f - 1] != slash()); assert(front_text(c, f).drop_last() =~= front_text(c, f - 1) + c[f - 1]); }
    lemma_join(front_text(c, f).drop_last(), c[f]);
    assert(front_text(c, f) + c[f] == front_text(c, f).drop_last() + slash() + c[f]);
}
proof fn lemma_back(c: Seq<Seq<char>>, k: int) requires 0 <= k <= c.len(), ensures width(back_text(c, k)) <= back_cost(c, k) decreases c.len() - k {
    ax_empty(); if k < c.len() { lemma_back(c, k + 1); lemma_prefix(c[k], c, k + 1); ax_join(seq![], '/', c[k] + back_text(c, k + 1)); assert(back_text(c, k) =~= seq![] + slash() + (c[k] + back_text(c, k + 1))); } }
// a text followed by separated segments
proof fn lemma_prefix(a: Seq<char>, c: Seq<Seq<char>>, k: int) requires 0 <= k <= c.len(), ensures width(a + back_text(c, k)) <= width(a) + back_cost(c, k) decreases c.len() - k {
    if k < c.len() { lemma_prefix(c[k], c, k + 1); lemma_join(a, c[k] + back_text(c, k + 1)); assert(a + back_text(c, k) =~= a + slash() + (c[k] + back_text(c, k + 1))); }
    else { assert(a + back_text(c, k) =~= a); } }
proof fn lemma_full(c: Seq<Seq<char>>, f: int) requires absolute(c), 1 <= f < c.len(), ensures full(c) == front_text(c, f).drop_last() + back_text(c, f), width(full(c)) + 1 <= front_cost(c, f) + back_cost(c, f) decreases f {
    lemma_sep(c, f);
    lemma_joined(c, f);
    lemma_prefix(front_text(c, f).drop_last(), c, f);
    if f == 1 { assert(front_text(c, 0) =~= seq![]); assert(front_text(c, 1) =~= slash()); assert(front_text(c, 1).drop_last() =~= seq![]); assert(full(c) =~= front_text(c, 1).drop_last() + back_text(c, 1)); }
    else { lemma_full(c, f - 1); lemma_sep(c, f - 1); assert(c[f - 1] != slash());
        assert(front_text(c, f).drop_last() =~= front_text(c, f - 1) + c[f - 1]);
        assert(back_text(c, f - 1) =~= slash() + c[f - 1] + back_text(c, f));
        assert(full(c) =~= front_text(c, f).drop_last() + back_text(c, f)); }
}
proof fn lemma_total(c: Seq<Seq<char>>, f: int) requires absolute(c), 1 <= f <= c.len(), ensures front_cost(c, f) + back_cost(c, f) == front_cost(c, 1) + back_cost(c, 1) decreases f { if f > 1 { lemma_total(c, f - 1); assert(c[f - 1] != slash()); } }
""".replace("lemma_back(c", "lemma_back_cost(c").replace("fn lemma_back(", "fn lemma_back_cost("))
    W = PATH_RULES
    u.fn(P, "select_components", ret="r", attrs="#[verifier::spinoff_prover]", rewrites=[("let mut accepted_front = 0;", "let mut accepted_front = 0usize;", "type written out"), ("let mut accepted_back = 0;", "let mut accepted_back = 0usize;", "type written out")] + W[-1:] + [("(need_separator as usize)", "(if need_separator { 1usize } else { 0usize })", "conversion of a truth value")] + W[:-2],
        contract=r"""
        requires absolute(components@), 1 <= cols <= 0xffff,
        ensures picked(components@, cols as int, r.0 as int, r.1 as int),
        """,
        start="let ghost c = components@; let ghost cols0 = cols as int; let ghost n = c.len() as int; let ghost mut rej_f = false; let ghost mut rej_b = false; proof { lemma_slash(); assert(c[0] == slash()); assert(front_cost(c, 0) == 0); assert(front_cost(c, 1) == 1); assert(back_cost(c, n) == 0); assert(c.subrange(0, n) =~= c); }",
        loops=[dict(kw="loop", inv=r"""
            invariant_except_break
                absolute(c), c[0] == slash(), width(slash()) == 1, front_cost(c, 0) == 0, front_cost(c, 1) == 1, back_cost(c, n) == 0, num_components == n, n == c.len(), n >= 1, root_component@ == slash(), 0 <= accepted_front, 0 <= accepted_back, accepted_front + accepted_back <= n, 
                components@ == c.subrange(accepted_front + (if rej_f { 1int } else { 0 }), n - accepted_back - (if rej_b { 1int } else { 0 })),
                accepted_front + (if rej_f { 1int } else { 0 }) <= n - accepted_back - (if rej_b { 1int } else { 0 }),
                !(rej_f && rej_b), other_side_full == (rej_f || rej_b), rej_f ==> !front, rej_b ==> front,
                n > 1 && !rej_f && (accepted_back > 0 || rej_b) && !front ==> accepted_front >= 1,
                accepted_back == 0 && !rej_b ==> accepted_front == 0 && !front && !rej_f,
                accepted_front + accepted_back < n ==> cols >= 1 && cols + front_cost(c, accepted_front as int) + back_cost(c, n - accepted_back) == cols0,
                accepted_front + accepted_back == n ==> !rej_f && !rej_b && (accepted_front == 0 ==> n == 1) && width(full(c)) <= cols0,
                rej_b && accepted_back == 0 ==> 1 + width(c.last()) + 1 > cols0 && n > 1,
                accepted_back == 0 && !rej_b && n > 0 ==> true,
                rej_f ==> front_cost(c, accepted_front + 1) + back_cost(c, n - accepted_back) + 1 > cols0,
                rej_b ==> front_cost(c, accepted_front as int) + back_cost(c, n - accepted_back - 1) + 1 > cols0,
                (rej_f || rej_b) ==> front_cost(c, 1) + back_cost(c, 1) > cols0 && (solid(c) ==> front_cost(c, 1) + back_cost(c, 1) > cols0 + 1),
                accepted_back > 1 && accepted_front == 0 && n > accepted_back ==> rej_f,
            ensures picked(c, cols0, accepted_front as int, accepted_back as int),
            decreases components@.len(),
            """, start="let ghost f0 = accepted_front as int; let ghost b0 = accepted_back as int; let ghost front0 = front; let ghost rf0 = rej_f; let ghost rb0 = rej_b;")],
        hints=[("after", "let available_cols = $a;", """proof {
            let k = if front { f0 } else { n - b0 - 1 };
            assert(0 <= k < n); assert(candidate@ == c[k]);
            assert(width_with_separator == width(c[k]) + (if need_separator { 1int } else { 0 }));
            if is_last_component { assert(!rf0 && !rb0); assert(f0 + b0 == n - 1); assert(k == f0);
                if n == 1 { assert(k == 0); assert(f0 == 0 && b0 == 0); assert(width(full(c)) == 1); }
                else { lemma_front(c, f0); }
            }
            if k >= 1 { assert(c[k] != slash()); } else { assert(c[k] == slash()); }
            if k < n { assert(back_cost(c, k) == 1 + width(c[k]) + back_cost(c, k + 1)); assert(front_cost(c, k + 1) == front_cost(c, k) + width(c[k]) + (if c[k] == slash() { 0nat } else { 1 })); }
            assert(f0 == 0 || f0 >= 1);
            if f0 >= 1 { lemma_total(c, f0); if n - b0 >= 1 { lemma_total(c, n - b0); } }
            if f0 >= 1 && f0 + 1 <= n { lemma_total(c, f0 + 1); }
            if n - b0 - 1 >= 1 { lemma_total(c, n - b0 - 1); }
            lemma_mid(c, f0, n - b0); if !is_last_component && f0 < n - b0 - 1 { lemma_mid(c, f0, n - b0 - 1); lemma_mid(c, f0 + 1, n - b0); }
            if f0 >= 1 && f0 < n { lemma_full(c, f0); }
            if n >= 2 { lemma_full(c, 1); }
            if f0 + 1 < n { lemma_full(c, f0 + 1); }
            if !(width_with_separator <= available_cols) { if front0 { rej_f = true; } else { rej_b = true; } }
        }"""),
        ("after", "front = front != ($a);", "proof { assert(components@ =~= c.subrange(accepted_front + (if rej_f { 1int } else { 0 }), n - accepted_back - (if rej_b { 1int } else { 0 }))); }")])

def make_path():
    u = base("display_path")
    u.raw(r"""
// the columns of the segments between two positions
proof fn lemma_mid(c: Seq<Seq<char>>, i: int, j: int) requires absolute(c), 0 <= i <= j <= c.len(),
    ensures i >= 1 ==> front_cost(c, i) + back_cost(c, j) + (if solid(c) { 2 * (j - i) } else { j - i }) <= front_cost(c, 1) + back_cost(c, 1), i == 0 && j >= 1 ==> back_cost(c, j) + (if solid(c) { 2 * (j - 1) } else { j - 1 }) <= back_cost(c, 1)
    decreases j - i
{ if i < j { if i >= 1 { lemma_mid(c, i + 1, j); assert(c[i] != slash()); } else if j > 1 { lemma_mid(c, 1, j); assert(front_cost(c, 0) == 0); assert(front_cost(c, 1) == width(c[0]) + (if c[0] == slash() { 0nat } else { 1 })); } } else if i >= 1 { lemma_total(c, i); } }
""")
    path(u)
    u.raw(r"""
#[verifier::external_body] pub proof fn ax_elision() ensures width(seq!['…', '/']) == 2 {}
pub open spec fn tx(v: Seq<&str>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::external_body] pub fn vx_ellipsis() -> (r: VxString) ensures r@ == seq!['…'] { unimplemented!() }
// C08: what may be shown of a path in a given number of columns
spec fn shown_ok(c: Seq<Seq<char>>, cols: int, t: Seq<char>) -> bool {
    &&& width(t) <= cols
    &&& (exists|f: int, b: int| #[trigger] whole_segments(c, f, b, t) && b >= 1 && picked(c, cols, f, b))
        || (1 + width(c.last()) + 1 > cols && c.len() > 1 && (if cols >= 17 { exists|i: int, j: int| name_cut(c.last(), cols, i, j) && t == #[trigger] elided_name(c.last(), i, j) } else { t == seq!['…'] }))
}
proof fn lemma_front_step(c: Seq<Seq<char>>, f: int) requires 0 <= f < c.len(), ensures front_text(c, f + 1) == front_text(c, f) + c[f] + (if c[f] == slash() { seq![] } else { slash() }) {}
// a whole path, put together from both ends
proof fn lemma_glue(c: Seq<Seq<char>>, f: int, b: int) requires absolute(c), 0 <= f, 1 <= b, f + b <= c.len(), f + b == c.len() ==> f > 0 || c.len() == 1,
    ensures width(if f + b == c.len() { full(c) } else { front_text(c, f) + seq!['…'] + back_text(c, c.len() - b) }) <= (if f + b == c.len() { width(full(c)) } else { front_cost(c, f) + 1 + back_cost(c, c.len() - b) })
{ if f + b < c.len() { lemma_front(c, f); lemma_back_cost(c, c.len() - b); ax_join(front_text(c, f), '…', back_text(c, c.len() - b)); } }
""")
    rw = PATH_RULES
    u.fn(P, "display_components", ret="r", attrs="#[verifier::loop_isolation(false)]", sig="fn display_components(components: Comps, vx_accepted: (usize, usize)) -> (r: VxString)",
        rewrites=rw + [("for _ in 0..accepted_front", "for vx_k in 0..accepted_front", "loop variable named"), ("for _ in 0..elided_components", "for vx_k in 0..elided_components", "loop variable named"), ("for _ in 0..accepted_back", "for vx_k in 0..accepted_back", "loop variable named")],
        contract=r"""
        requires absolute(components@), vx_accepted.0 + vx_accepted.1 <= components@.len(), vx_accepted.1 >= 1, vx_accepted.0 + vx_accepted.1 == components@.len() ==> vx_accepted.0 > 0 || components@.len() == 1,
        ensures whole_segments(components@, vx_accepted.0 as int, vx_accepted.1 as int, r@),
        """, start="let (accepted_front, accepted_back) = vx_accepted; let mut components = components; let ghost c = components@; let ghost n = c.len() as int; let ghost f = accepted_front as int; let ghost b = accepted_back as int; proof { assert(c.subrange(0, n) =~= c); }",
        loops=[dict(kw="for", it="it1", inv=r"""
            invariant it1.index@ <= f, components@ == c.subrange(it1.index@ as int, n), buffer@ == front_text(c, it1.index@ as int),
            """, end="proof { assert(components@ =~= c.subrange(it1.index@ + 1, n)); assert(buffer@ =~= front_text(c, it1.index@ + 1)); }",
            after="let ghost bf = buffer@;"),
          dict(kw="for", it="it2", inv="invariant components@ == c.subrange(f + it2.index@, n), f + elided_components <= n,", end="proof { assert(components@ =~= c.subrange(f + it2.index@ + 1, n)); }"),
          dict(kw="for", it="it3", before="let ghost b0 = buffer@; proof { assert(components@ == c.subrange(n - b, n)); if f + b == n { if n == 1 { assert(b0 =~= seq![]); } else { lemma_full(c, f); lemma_sep(c, f); assert(b0 =~= front_text(c, f).drop_last()); } } else { assert(b0 =~= front_text(c, f) + seq!['…']); } }",
            inv=r"""invariant components@ == c.subrange(n - b + it3.index@, n), n > 1 ==> need_separator, n == 1 ==> f == 0 && b == 1 && b0 == Seq::<char>::empty() && buffer@ == (if it3.index@ == 0 { b0 } else { c[0] }), n > 1 ==> buffer@ + back_text(c, n - b + it3.index@) == b0 + back_text(c, n - b),
            """, start="let ghost bp = buffer@;", end="proof { let k = n - b + it3.index@; assert(components@ =~= c.subrange(k + 1, n)); if n > 1 { assert(c[k] != slash()); assert(buffer@ =~= bp + slash() + c[k]); assert(back_text(c, k) == slash() + c[k] + back_text(c, k + 1)); assert(buffer@ + back_text(c, k + 1) =~= bp + back_text(c, k)); } else { assert(k == 0); assert(buffer@ =~= c[0]); } }",
            after="proof { if n > 1 { assert(buffer@ + back_text(c, n) =~= buffer@); assert(b0 + back_text(c, n - b) =~= buffer@); } }")])
    u.trust("display_filename: contract proved in unit display_filename", FILENAME_SPEC + r"""
#[verifier::external_body] fn display_filename(file_name: &str, vx_cols: usize) -> (r: VxString)
    requires 3 <= vx_cols < width(file_name@) + 2,
    ensures width(r@) <= vx_cols, exists|i: int, j: int| name_cut(file_name@, vx_cols as int, i, j) && r@ == #[trigger] elided_name(file_name@, i, j) { unimplemented!() }
""")
    u.item(P, "const", "MIN_FILENAME_WIDTH")
    u.fn(P, "truncate_path_iter", ret="r", sig="fn truncate_path_iter(components: Comps, vx_cols: u16) -> (r: VxString)",
        rewrites=rw + [("'…'.to_string().into()", "vx_ellipsis()", "a one-character text"), ("usize::from(cols)", "vx_wide(cols)", "lossless conversion")],
        contract=r"""
        requires absolute(components@), vx_cols >= 1,
        ensures shown_ok(components@, vx_cols as int, r@),
        """, start="let mut components = components; let cols = vx_cols; let ghost c = components@; proof { ax_plain('…'); }",
        hints=[("before", "let result = $a;", "proof { if accepted_back > 0 { lemma_glue(c, accepted_front as int, accepted_back as int); } }")])
    u.trust("the components of an interned path: the root, then segments (C06); its usual text", r"""
#[verifier::external_body] pub struct InternedPath<'a> { x: &'a u8 }
impl<'a> InternedPath<'a> {
    pub uninterp spec fn comps(&self) -> Seq<Seq<char>>;
    #[verifier::external_body] fn vx_components(&self) -> (r: Comps) ensures r@ == self.comps(), absolute(r@) { unimplemented!() }
    #[verifier::external_body] fn vx_text(&self) -> (r: VxString) ensures r@ == full(self.comps()) { unimplemented!() }
}
""")
    u.item(D, "enum", "DisplayConfig", prefix="#[derive(Copy, Clone)]")
    u.fn(P, "display_path", ret="r", rewrites=[("Box<str>", "VxString", "text type"), ("path.components().map(|c| c.value())", "path.vx_components()", "iterator as the list of its items"),
            ("path.to_boxed_path().display().to_string().into()", "path.vx_text()", "trusted conversion"), ("InternedPath", "InternedPath<'_>", "elided lifetime")],
        contract=r"""
        requires config matches DisplayConfig::SingleLine { max_cols } ==> max_cols >= 1,
        ensures match config { DisplayConfig::SingleLine { max_cols } => shown_ok(path.comps(), max_cols as int, r@), DisplayConfig::MultiLine { .. } => r@ == full(path.comps()) },
        """)
    return u

def desc(u):
    string(u)
    u.trust("bounded_display, display_path: contracts proved in units bounded_display and display_path", r"""
#[verifier::external_body] pub struct InternedPath<'a> { x: &'a u8 }
#[verifier::external_body] pub struct EntityView<'a> { x: &'a u8 }
impl<'a> InternedPath<'a> { pub uninterp spec fn shown(&self, cols: Option<u16>) -> Seq<char>; }
impl<'a> EntityView<'a> {
    pub uninterp spec fn full(&self) -> Seq<char>;
    pub uninterp spec fn bounded(&self, max_cols: u16) -> Seq<char>;
    #[verifier::external_body] pub fn bounded_display(&self, max_cols: u16) -> (r: VxString) requires max_cols >= 1, ensures width(r@) <= max_cols, r@ == self.bounded(max_cols) { unimplemented!() }
    #[verifier::external_body] pub fn vx_full(&self) -> (r: VxString) ensures r@ == self.full() { unimplemented!() }
}
#[verifier::external_body] fn display_path(p: &InternedPath<'_>, config: DisplayConfig) -> (r: VxString)
    requires config matches DisplayConfig::SingleLine { max_cols } ==> max_cols >= 1,
    ensures config matches DisplayConfig::SingleLine { max_cols } ==> width(r@) <= max_cols && r@ == p.shown(Some(max_cols)), config is MultiLine ==> r@ == p.shown(None) { unimplemented!() }
#[verifier::external_body] pub struct ActivityId { x: u8 }
impl ActivityId {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
}
""")
    ARG = "clang-time-trace/src/stats/activity/argument.rs"
    u.item(ARG, "enum", "Symbol")
    u.item(ARG, "enum", "ActivityArgument")
    u.item(A, "enum", "ActivityDescError")
    u.trust("derived conversion io::Error -> ActivityDescError", r"""
fn vx_up(x: io::Result<()>) -> (r: Result<(), ActivityDescError>) ensures x is Ok ==> r is Ok, x is Err ==> (r matches Err(e) && e is IoError) { match x { Ok(()) => Ok(()), Err(e) => Err(ActivityDescError::IoError(e)) } }
#[verifier::external_body] pub fn vx_char_width(c: char) -> (r: Option<usize>) ensures plain(c) ==> r == Some(1usize) { unimplemented!() }
""")
    u.raw(r"""
spec fn has_arg(a: ActivityArgument) -> bool { !(a is Nothing) }
// the text x is the argument, shown in that many columns if there is a limit
spec fn text_in(s: Seq<char>, cols: Option<u16>, x: Seq<char>) -> bool { match cols { Some(c) => string_shown(s, c as int, x), None => x == s } }
spec fn arg_in(a: ActivityArgument, cols: Option<u16>, x: Seq<char>) -> bool {
    match a {
        ActivityArgument::Nothing => false,
        ActivityArgument::UnnamedLoop => text_in("<unnamed loop>"@, cols, x),
        ActivityArgument::Module => text_in("[module]"@, cols, x),
        ActivityArgument::String(s) => text_in(s@, cols, x),
        ActivityArgument::Symbol(Symbol::Demangled(s)) => text_in(s@, cols, x),
        ActivityArgument::Symbol(Symbol::MaybeMangled(s)) => text_in(s@, cols, x),
        ActivityArgument::FilePath(p) => x == p.shown(cols),
        ActivityArgument::CppEntity(e) => x == (match cols { Some(c) => e.bounded(c), None => e.full() }),
        ActivityArgument::Symbol(Symbol::Parsed(e)) => x == (match cols { Some(c) => e.bounded(c), None => e.full() }),
    }
}
// C09: the name, and the argument in parentheses if there is one
spec fn described(name: Seq<char>, a: ActivityArgument, cols: Option<u16>, t: Seq<char>) -> bool {
    if has_arg(a) { exists|x: Seq<char>| t == #[trigger] (name + seq!['('] + x + seq![')']) && arg_in(a, (match cols { Some(c) => Some((c - width(name) - 2) as u16), None => None }), x) } else { t == name }
}
proof fn lemma_desc(name: Seq<char>, x: Seq<char>) ensures width(name + seq!['('] + x + seq![')']) <= width(name) + width(x) + 2 {
    ax_join(x, ')', seq![]); ax_empty(); ax_join(name, '(', x + seq![')']); assert(x + seq![')'] + seq![] =~= x + seq![')']);
    assert(name + seq!['('] + (x + seq![')']) =~= name + seq!['('] + x + seq![')']); }
""")
    u.fn(A, "display_activity_desc", ret="r", fmt=True, attrs="#[verifier::loop_isolation(false)]",
        rewrites=RULES[:1] + [("mut config: DisplayConfig", "vx_config: DisplayConfig", "parameter copied into a variable"),
            ("*activity_arg != ActivityArgument::Nothing", "!matches!(*activity_arg, ActivityArgument::Nothing)", "derived comparison with a constant"),
            ("'('.width()", "vx_char_width('(')", "trusted"), ("')'.width()", "vx_char_width(')')", "trusted"),
            ("debug_assert_eq!(Some(paren_width), $e);", "{ let vx_b = $e; assert(Some(paren_width) == vx_b); }", "runtime assertion becomes an obligation"),
            ("activity_name.width()", "vx_width(activity_name)", "trusted"), ("usize::from(*max_cols)", "vx_wide(*max_cols)", "lossless conversion"),
            ("(has_argument as usize)", "(if has_argument { 1usize } else { 0usize })", "conversion of a truth value"),
            ("super::display_string(&mut output,", "display_string(output,", "path, reborrow"), ("super::path::display_path", "display_path", "path"),
            ("output.vx_write($a)?;", "vx_up(output.vx_write($a))?;", "error conversion written out"), ("match activity_arg { $b }?;", "vx_up(match activity_arg { $b })?;", "error conversion written out"),
            ("e.display(&DisplayState::default())", "e.vx_full()", "display without a limit")],
        contract=r"""
        requires vx_config matches DisplayConfig::MultiLine { header_cols, trailer_cols, .. } ==> header_cols + width(activity_id.text()) + 1 <= 0xffff && trailer_cols + 1 <= 0xffff,
        ensures
            vx_config matches DisplayConfig::SingleLine { max_cols } ==> {
                let need = width(activity_id.text()) + (if has_arg(*activity_arg) { 3int } else { 0 });
                // too narrow: nothing is written, and the caller is told
                &&& (need > max_cols ==> (r matches Err(ActivityDescError::NotEnoughCols(c)) && c == max_cols) && final(output).out() == old(output).out())
                &&& ((r matches Err(ActivityDescError::NotEnoughCols(_))) ==> need > max_cols)
                &&& (r is Ok ==> r->Ok_0 == false && exists|t: Seq<char>| final(output).out() == #[trigger] (old(output).out() + t) && width(t) <= max_cols && described(activity_id.text(), *activity_arg, Some(max_cols), t))
            },
            vx_config is MultiLine ==> !(r matches Err(ActivityDescError::NotEnoughCols(_))) && (r is Ok ==> r->Ok_0 == true && exists|t: Seq<char>| final(output).out() == #[trigger] (old(output).out() + t) && described(activity_id.text(), *activity_arg, None, t)),
        """, start="let mut config = vx_config; let ghost out0 = output.out(); let ghost name = activity_id.text(); let ghost mut mid = output.out(); let ghost mut aft = output.out(); let ghost mut arg = name; proof { assert(out0 + name == out0 + name); reveal_strlit(\"(\"); reveal_strlit(\")\"); assert(\"(\"@ =~= seq!['(']); assert(\")\"@ =~= seq![')']); ax_plain('('); }",
        hints=[("after", 'vx_up(output.vx_write(vx_lit("(")))?;', " proof { mid = output.out(); assert(mid =~= out0 + name + seq!['(']); }"),
               ("before", 'vx_up(output.vx_write(vx_lit(")")))?;', """ proof { aft = output.out();
            let x = if let DisplayConfig::SingleLine { max_cols } = config { choose|t: Seq<char>| aft == #[trigger] (mid + t) && width(t) <= max_cols && arg_in(*activity_arg, Some(max_cols), t) } else { choose|t: Seq<char>| aft == #[trigger] (mid + t) && arg_in(*activity_arg, None, t) };
            lemma_desc(name, x); arg = name + seq!['('] + x + seq![')'];
            assert(aft + seq![')'] =~= out0 + arg); assert(described(name, *activity_arg, (if let DisplayConfig::SingleLine { max_cols } = vx_config { Some(max_cols) } else { None }), arg)); } """)])

def make_desc():
    u = base("display_desc")
    desc(u)
    return u

CD = "cpparser/src/display.rs"
def bounded(u):
    u.trust("CustomDisplay::display through std's Display writes the text that display_impl produces at that recursion limit; recursion depths are below usize::MAX", r"""
impl VxString { #[verifier::external_body] pub fn vx_write(&mut self, t: VxText) -> (r: core::result::Result<(), VxFmtError>) ensures r is Ok, final(self)@ == old(self)@ + t@ { unimplemented!() } }
#[verifier::external_body] #[derive(Debug)] pub struct VxFmtError {}
#[verifier::external_body] pub struct VxView { x: u8 }
impl VxView { pub uninterp spec fn text(&self) -> Seq<char>; }
impl VxShow for VxView { open spec fn shown(&self) -> Seq<char> { self.text() } }
""")
    u.raw(r"""
pub trait CustomDisplay {
    spec fn depth(&self) -> nat;
    spec fn text(&self, limit: nat) -> Seq<char>;
    fn recursion_depth(&self) -> (r: usize) ensures r == self.depth(), r < usize::MAX;
    fn vx_view(&self, limit: usize) -> (r: VxView) ensures r.text() == self.text(limit as nat);
}
// the deepest display before the first one that is too wide
pub open spec fn bounded_shown<T: CustomDisplay + ?Sized>(e: &T, cols: int, t: Seq<char>) -> bool {
    exists|k: int| {
        &&& 0 <= k <= e.depth() + 1
        &&& forall|d: int| 0 <= d < k ==> width(#[trigger] e.text(d as nat)) <= cols
        &&& (k <= e.depth() ==> width(e.text(k as nat)) > cols)
        &&& t == (if #[trigger] vx_id(k) == 0 { seq!['…'] } else { e.text((k - 1) as nat) })
    }
}
pub open spec fn vx_id(k: int) -> int { k }
""")
    u.fn(CD, "bounded_display", trait=True, impl="CustomDisplay", ret="r", fmt=True, attrs="#[verifier::loop_isolation(false)]", header="", 
        sig="fn bounded_display<T: CustomDisplay + ?Sized>(vx_this: &T, max_cols: u16) -> (r: VxString)",
        rewrites=[("String", "VxString", "stand-in"), ('"…".to_string()', 'vx_string(vx_lit("…"))', "to_string of a literal"),
            ("curr_display.width()", "vx_width(curr_display.vx_str())", "trusted"), ("max_cols.into()", "vx_wide(max_cols)", "lossless conversion"),
            ("self.display(&DisplayState::new($d))", "vx_this.vx_view($d)", "display view"), ("self.recursion_depth()", "vx_this.recursion_depth()", "self as a parameter"),
            ("assert!($c, $m);", "assert($c);", "runtime assertion becomes an obligation"), ("0..=$e {", "0usize..($e + 1) {", "inclusive range"),
            ("std::mem::swap", "core::mem::swap", "path")],
        contract="requires max_cols >= 1, ensures width(r@) <= max_cols, bounded_shown(vx_this, max_cols as int, r@),",
        start="proof { ax_plain('…'); reveal_strlit(\"…\"); assert(\"…\"@ =~= seq!['…']); assert(vx_id(0) == 0); } let ghost mut k: int = 0;",
        loops=[dict(kw="for", it="it", inv="""
            invariant it.seq().len() == vx_this.depth() + 1, forall|j: int| 0 <= j < it.seq().len() ==> it.seq()[j] == j, k == it.index@, 0 <= k <= vx_this.depth() + 1,
                curr_display@.len() == 0,
                forall|d: int| 0 <= d < k ==> width(#[trigger] vx_this.text(d as nat)) <= max_cols,
                prev_display@ == (if k == 0 { seq!['…'] } else { vx_this.text((k - 1) as nat) }), width(prev_display@) <= max_cols,
            ensures 0 <= k <= vx_this.depth() + 1, forall|d: int| 0 <= d < k ==> width(#[trigger] vx_this.text(d as nat)) <= max_cols,
                k <= vx_this.depth() ==> width(vx_this.text(k as nat)) > max_cols,
                prev_display@ == (if k == 0 { seq!['…'] } else { vx_this.text((k - 1) as nat) }), width(prev_display@) <= max_cols, """,
            start="let ghost before = curr_display@;", end="proof { k = k + 1; }", after="proof { assert(vx_id(k) == k); }")],
        hints=[("after", '.expect("Failed to display entity");', " proof { assert(before + vx_this.text(k as nat) =~= vx_this.text(k as nat)); }")])

def make_bounded():
    u = base("bounded_display")
    bounded(u)
    return u

MODEL = r"""
// f64 with NaN: comparisons as in IEEE, arithmetic uninterpreted
#[derive(Clone, Copy)] pub struct T { pub rank: Ghost<Option<int>>, pub id: Ghost<int> }
pub type Duration = T;
impl T { pub open spec fn nan(self) -> bool { self.rank@ is None } pub open spec fn r(self) -> int { self.rank@->Some_0 } }
pub open spec fn ge(a: T, b: T) -> bool { !a.nan() && !b.nan() && a.r() >= b.r() }
pub open spec fn lt(a: T, b: T) -> bool { !a.nan() && !b.nan() && a.r() < b.r() }
pub uninterp spec fn t_mul(a: T, b: T) -> T;
pub uninterp spec fn t_div(a: T, b: T) -> T;
pub uninterp spec fn t_add(a: T, b: T) -> T;
pub uninterp spec fn t_num(n: int) -> T;
pub uninterp spec fn t_of(x: f32) -> T;
#[verifier::external_body] pub fn vx_num(n: u32) -> (r: T) ensures r == t_num(n as int) { unimplemented!() }
#[verifier::external_body] pub fn vx_of(x: f32) -> (r: T) ensures r == t_of(x) { unimplemented!() }
impl vstd::std_specs::ops::MulSpecImpl<T> for T {
    open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, r: T) -> bool { true } open spec fn mul_spec(self, r: T) -> T { t_mul(self, r) }
}
impl core::ops::Mul for T { type Output = T; #[verifier::external_body] fn mul(self, o: T) -> T { unimplemented!() } }
impl vstd::std_specs::ops::DivSpecImpl<T> for T {
    open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, r: T) -> bool { true } open spec fn div_spec(self, r: T) -> T { t_div(self, r) }
}
impl core::ops::Div for T { type Output = T; #[verifier::external_body] fn div(self, o: T) -> T { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for T {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, r: &T) -> bool { !self.nan() && self.rank@ == r.rank@ }
}
impl PartialEq for T { #[verifier::external_body] fn eq(&self, o: &T) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for T {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, r: &T) -> Option<core::cmp::Ordering> {
        if self.nan() || r.nan() { None } else if self.r() < r.r() { Some(core::cmp::Ordering::Less) }
        else if self.r() == r.r() { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) } }
}
impl PartialOrd for T { #[verifier::external_body] fn partial_cmp(&self, o: &T) -> Option<core::cmp::Ordering> { unimplemented!() } }
"""
def float_model(u):
    if getattr(u, "floats", 0): return
    u.floats = 1
    u.trust("f64: comparisons follow IEEE (none with NaN), arithmetic is uninterpreted", MODEL)

STDIO = "src/ui/stdio.rs"
def activity(u):
    desc(u)
    u.trust("durations and percentages take less than 30000 columns; a space in front of a text adds one column; a Vec<u8> collects what is written to it; "
            "activity names take at least one column (they come from a fixed table); display_duration writes a text of the duration (C10)", r"""
pub uninterp spec fn dur_text(d: T) -> Seq<char>;
pub uninterp spec fn fixed2(x: T) -> Seq<char>;   // with two decimals
pub open spec fn profile_tail(d: T, norm: T) -> Seq<char> { seq!['['] + dur_text(d) + seq![',', ' '] + fixed2(t_mul(t_mul(d, norm), t_num(100))) + seq!['%', ']'] }
pub open spec fn profile(d: T, norm: T) -> Seq<char> { seq![' '] + profile_tail(d, norm) }
#[verifier::external_body] proof fn ax_tail(d: T, norm: T) ensures width(profile_tail(d, norm)) < 0xffff {}
#[verifier::external_body] pub proof fn ax_front(c: char, x: Seq<char>) requires plain(c), ensures width(seq![c] + x) == 1 + width(x) {}
#[verifier::external_body] pub fn vx_fmt_p2(x: &T) -> (r: VxText) ensures r@ == fixed2(*x) { unimplemented!() }
#[verifier::external_body] fn display_duration(output: &mut (impl io::Write), duration: Duration) -> (r: io::Result<()>) ensures r is Ok ==> final(output).out() == old(output).out() + dur_text(duration) { unimplemented!() }
#[verifier::external_body] proof fn ax_name(a: ActivityId) ensures width(a.text()) >= 1 {}
#[verifier::external_body] pub struct VxBytes { v: Vec<u8> }
impl VxBytes {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_utf8(&self) -> (r: Result<&str, VxUtf8Error>) ensures r is Ok, r->Ok_0@ == self@ { unimplemented!() }
}
#[verifier::external_body] #[derive(Debug)] pub struct VxUtf8Error {}
impl io::Write for VxBytes {
    open spec fn out(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_write(&mut self, t: VxText) -> (r: io::Result<()>) { unimplemented!() }
}
fn vx_u16(x: usize) -> (r: u16) requires x <= 0xffff, ensures r == x { x as u16 }
""")
    u.raw(r"""
// C09: name, argument and profiling numbers if the first two can be told apart in what is left, else without the numbers, else an ellipsis
spec fn needs(id: ActivityId, a: ActivityArgument) -> int { width(id.text()) + (if has_arg(a) { 3int } else { 0 }) }
spec fn activity_shown(id: ActivityId, a: ActivityArgument, cols: int, info: Seq<char>, t: Seq<char>) -> bool {
    let left = cols - width(info);
    &&& width(t) <= cols
    &&& (needs(id, a) <= left ==> exists|x: Seq<char>| described(id.text(), a, Some(left as u16), x) && t == #[trigger] (x + info))
    &&& (left < needs(id, a) <= cols ==> described(id.text(), a, Some(cols as u16), t))
    &&& (needs(id, a) > cols ==> t == seq!['…'])
}
proof fn ax_profile(d: T, norm: T) ensures 1 <= width(profile(d, norm)) <= 0xffff, profile(d, norm).len() >= 1, profile(d, norm)[0] == ' ',
    width(profile(d, norm)) == 1 + width(profile(d, norm).subrange(1, profile(d, norm).len() as int)) { ax_tail(d, norm); ax_front(' ', profile_tail(d, norm)); assert(profile(d, norm).subrange(1, profile(d, norm).len() as int) =~= profile_tail(d, norm)); }
proof fn lemma_trailer(x: Seq<char>, d: T, norm: T) ensures width(x + profile(d, norm)) <= width(x) + width(profile(d, norm)) {
    ax_profile(d, norm); let p = profile(d, norm); let rest = p.subrange(1, p.len() as int); ax_join(x, ' ', rest); assert(x + seq![' '] + rest =~= x + p); }
""")
    u.fn(STDIO, "display_profile_info", ret="r", fmt=True, attrs="#[verifier::loop_isolation(false)]", rewrites=RULES[:1] + [("display_duration(&mut output,", "display_duration(output,", "reborrow"), ("100.0", "vx_num(100)", "literal")],
        contract="ensures r is Ok ==> final(output).out() == old(output).out() + profile(duration, duration_norm),",
        start="let ghost out0 = output.out(); proof { reveal_strlit(\" [\"); reveal_strlit(\", \"); reveal_strlit(\"%]\"); assert(\" [\"@ =~= seq![' ', '[']); assert(\", \"@ =~= seq![',', ' ']); assert(\"%]\"@ =~= seq!['%', ']']); let f = fixed2(t_mul(t_mul(duration, duration_norm), t_num(100))); assert(out0 + seq![' ', '['] + dur_text(duration) + (seq![',', ' '] + f + seq!['%', ']']) =~= out0 + profile(duration, duration_norm)); }")
    u.fn(STDIO, "display_activity", ret="r", fmt=True, attrs="#[verifier::loop_isolation(false)]",
        rewrites=RULES[:1] + [("Vec::<u8>::new()", "VxBytes::new()", "text sink"), ("std::str::from_utf8(&trailer[..])", "trailer.vx_utf8()", "trusted"),
            ("assert!($e);", "{ let vx_b = $e; assert(vx_b); }", "runtime assertion becomes an obligation"),
            ("trailer.width() as u16", "vx_u16(vx_width(trailer))", "cast must be lossless"), ("activity::display_activity_desc( &mut output,", "display_activity_desc( output,", "path, reborrow")],
        contract=r"""
        requires max_cols >= 1,
        ensures r is Ok ==> exists|t: Seq<char>| final(output).out() == #[trigger] (old(output).out() + t) && activity_shown(*activity_id, *activity_arg, max_cols as int, profile(duration, duration_norm), t),
        """,
        start="let ghost out0 = output.out(); let ghost info = profile(duration, duration_norm); proof { ax_profile(duration, duration_norm); ax_name(*activity_id); ax_plain('…'); reveal_strlit(\"…\"); assert(\"…\"@ =~= seq!['…']); assert(out0 + seq!['…'] == out0 + seq!['…']); }",
        hints=[("before", "output.vx_write(vx_fmt(&(trailer)))", """proof {
            let x = choose|x: Seq<char>| output.out() == #[trigger] (out0 + x) && width(x) <= other_cols && described(activity_id.text(), *activity_arg, Some(other_cols), x);
            lemma_trailer(x, duration, duration_norm); assert(out0 + x + info =~= out0 + (x + info)); assert(out0 + (x + info) == out0 + (x + info)); }""")])

def make_activity():
    u = base("display_activity")
    float_model(u)
    activity(u)
    return u

M = "src/ui/display/metadata.rs"
def make_metadata():
    u = base("display_metadata")
    u.trust("ClangTrace accessors return what was loaded (C11); a timestamp denotes at most one RFC 3339 date of one-column characters without line feed; numbers and Debug texts are displayed", r"""
#[verifier::external_body] pub struct ClangTrace {}
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Stamp {}
pub type Pid = i32;
pub uninterp spec fn process(t: ClangTrace) -> Seq<char>;
pub uninterp spec fn pid_of(t: ClangTrace) -> Option<Pid>;
pub uninterp spec fn thread(t: ClangTrace) -> Option<Seq<char>>;
pub uninterp spec fn begin(t: ClangTrace) -> Option<Stamp>;
pub uninterp spec fn nanos(s: Stamp) -> i128;
pub uninterp spec fn date(n: i128) -> Option<Seq<char>>;
pub uninterp spec fn dec(p: Pid) -> Seq<char>;
pub uninterp spec fn quoted(s: Seq<char>) -> Seq<char>;
impl ClangTrace {
    #[verifier::external_body] pub fn process_name(&self) -> (r: &str) ensures r@ == process(*self) { unimplemented!() }
    #[verifier::external_body] pub fn pid(&self) -> (r: Option<Pid>) ensures r == pid_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn thread_name(&self) -> (r: Option<&str>) ensures match r { Some(n) => thread(*self) == Some(n@), None => thread(*self) is None } { unimplemented!() }
    #[verifier::external_body] pub fn beginning_of_time(&self) -> (r: Option<Stamp>) ensures r == begin(*self) { unimplemented!() }
}
#[verifier::external_body] fn vx_nanos(s: Stamp) -> (r: i128) ensures r == nanos(s) { unimplemented!() }
#[verifier::external_body] fn vx_date(n: i128) -> (r: Option<VxString>) ensures match r { Some(d) => date(n) == Some(d@), None => date(n) is None } { unimplemented!() }
impl VxShow for Pid { open spec fn shown(&self) -> Seq<char> { dec(*self) } }
#[verifier::external_body] pub fn vx_fmt_debug(x: &&str) -> (r: VxText) ensures r@ == quoted(x@) { unimplemented!() }
#[verifier::external_body] pub fn vx_owned(s: &str) -> (r: VxString) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_swidth(s: &VxString) -> (r: usize) ensures r == width(s@), r <= isize::MAX { unimplemented!() }
""")
    u.raw(r"""
// ---- C13: the header, part by part; m columns, one more for the comma or the full stop ----
pub struct Head { pub done: Seq<Seq<char>>, pub line: Seq<char>, pub w: nat }   // lines so far, the last line and the columns taken by its parts
pub open spec fn abbreviated(e: Seq<char>, m: int) -> Seq<char> { if width(e) > m { seq!['…'] } else { e } }
pub open spec fn add(h: Head, e: Seq<char>, m: int) -> Head {
    let f = abbreviated(e, m);
    if h.w + 2 + width(f) > m { Head { done: h.done.push(h.line + seq![',']), line: f, w: width(f) } }
    else { Head { done: h.done, line: h.line + seq![',', ' '] + f, w: h.w + 2 + width(f) } }
}
pub open spec fn text_of(h: Head) -> Seq<char> decreases h.done.len() {
    if h.done.len() == 0 { h.line } else { text_of(Head { done: h.done.drop_last(), line: h.done.last(), w: 0 }) + seq!['\n'] + h.line }
}
pub open spec fn add_opt(h: Head, e: Option<Seq<char>>, m: int) -> Head { match e { Some(e) => add(h, e, m), None => h } }
pub open spec fn fits(h: Head, m: int) -> bool { width(h.line) <= h.w <= m && forall|i: int| 0 <= i < h.done.len() ==> width(#[trigger] h.done[i]) <= m + 1 }
pub open spec fn first(t: ClangTrace) -> Seq<char> { "Data from "@ + process(t) }
pub open spec fn parts_pid(t: ClangTrace) -> Option<Seq<char>> { match pid_of(t) { Some(p) => Some("pid "@ + dec(p)), None => None } }
pub open spec fn parts_thread(t: ClangTrace) -> Option<Seq<char>> { match thread(t) { Some(n) => Some("thread "@ + quoted(n)), None => None } }
pub open spec fn parts_date(t: ClangTrace) -> Option<Seq<char>> { match begin(t) { Some(b) => match date(nanos(b)) { Some(d) => Some("recorded "@ + d), None => None }, None => None } }
pub open spec fn header(t: ClangTrace, m: int) -> Head { add_opt(add_opt(add_opt(Head { done: seq![], line: first(t), w: width(first(t)) }, parts_pid(t), m), parts_thread(t), m), parts_date(t), m) }
pub proof fn lemma_text(h: Head, e: Seq<char>) ensures text_of(Head { line: h.line + e, ..h }) == text_of(h) + e {
    if h.done.len() == 0 {} else { assert(text_of(Head { line: h.line + e, ..h }) =~= text_of(h) + e); }
}
pub proof fn lemma_newline(h: Head, c: Seq<char>, e: Seq<char>, w: nat) ensures text_of(Head { done: h.done.push(h.line + c), line: e, w }) == text_of(h) + c + seq!['\n'] + e {
    let k = Head { done: h.done.push(h.line + c), line: e, w }; assert(k.done.drop_last() =~= h.done); lemma_text(h, c); lemma_w(Head { done: h.done, line: h.line + c, w: 0 }, h.w);
}
pub proof fn lemma_w(h: Head, w: nat) ensures text_of(Head { w, ..h }) == text_of(h) {}
pub proof fn lemma_fits(h: Head, e: Seq<char>, m: int) requires fits(h, m), m >= 0, ensures m >= 1 || width(e) == 0 ==> fits(add(h, e, m), m), fits(add(h, e, m), m) || m == 0 {
    let f = abbreviated(e, m); ax_plain('…'); ax_empty();
    ax_join(h.line, ',', seq![]); assert(h.line + seq![','] + seq![] =~= h.line + seq![',']);
    ax_join(h.line + seq![','], ' ', f); assert(h.line + seq![','] + seq![' '] + f =~= h.line + seq![',', ' '] + f);
    let k = add(h, e, m);
    assert forall|i: int| 0 <= i < k.done.len() implies width(#[trigger] k.done[i]) <= m + 1 by { if i < h.done.len() { assert(k.done[i] == h.done[i]); } else { assert(k.done[i] == h.line + seq![',']); } }
}
""")
    rw = [("String", "VxString", "text type"), ("= $s.to_owned()", "= vx_owned($s)", "text conversion"), ("buf.width()", "vx_swidth(&buf)", "trusted"), ("extra.width()", "vx_swidth(&extra)", "trusted"),
          ('"…".clone_into(&mut $i_a)', '$i_a = vx_owned("…")', "text conversion"), ("((bot / MICROSECOND) as i128).saturating_mul(1000)", "vx_nanos(bot)", "conversion to nanoseconds"),
          ("OffsetDateTime::from_unix_timestamp_nanos($i_n).ok().and_then(|$i_d| $i_d.format(&Rfc3339).ok())", "vx_date($i_n)", "trusted date formatting"),
          ("push_str(&$i_a)", "push_str($i_a.vx_str())", "deref of String"), ("assert!($e)", "{ let vx_b = $e; assert(vx_b); }", "runtime assertion becomes an obligation")]
    u.fn(M, "metadata", closure=("display_more", "buf: &mut String, mut extra: String"), fmt=True,
         sig="fn display_more(buf: &mut VxString, vx_extra: VxString, last_line_width: &mut usize, effective_max_cols: usize, Ghost(h): Ghost<Head>)", start="let mut extra = vx_extra; let ghost m = effective_max_cols as int; let ghost f = abbreviated(extra@, m);",
         contract="requires old(buf)@ == text_of(h), *old(last_line_width) == h.w, h.w <= u16::MAX, effective_max_cols <= u16::MAX, ensures final(buf)@ == text_of(add(h, vx_extra@, effective_max_cols as int)), *final(last_line_width) == add(h, vx_extra@, effective_max_cols as int).w,",
         rewrites=rw + [("last_line_width", "*last_line_width", "captured variable")],
         hints=[("before", "buf.push(',');", "proof { reveal_strlit(\"…\"); assert(\"…\"@ =~= seq!['…']); ax_plain('…'); assert(extra@ == f); }"),
                ("after", "*last_line_width += vx_swidth(&extra);", "proof { if h.w + 2 + width(f) > m { lemma_newline(h, seq![','], f, width(f)); assert(buf@ =~= text_of(h) + seq![','] + seq!['\\n'] + f); } else { lemma_text(h, seq![',', ' '] + f); lemma_w(Head { line: h.line + (seq![',', ' '] + f), ..h }, h.w + 2 + width(f)); assert(h.line + (seq![',', ' '] + f) =~= h.line + seq![',', ' '] + f); assert(buf@ =~= text_of(h) + (seq![',', ' '] + f)); } }")])
    CALL = ("display_more(&mut buf, $x)", "{ let vx_e = $x; let ghost vx_g = vx_e@; display_more(&mut buf, vx_e, &mut last_line_width, effective_max_cols, Ghost(h)); proof { lemma_add(h, vx_g, effective_max_cols as int); h = add(h, vx_g, effective_max_cols as int); } }", "lifted closure")
    u.raw(r"""
pub proof fn lemma_add(h: Head, e: Seq<char>, m: int) requires wide(h, m), 0 <= m, ensures wide(add(h, e, m), m) { if m >= 1 { lemma_fits(h, e, m); } else { wide0(h, e); } }
// with a single column, nothing but an ellipsis is ever shown
pub open spec fn wide(h: Head, m: int) -> bool { if m >= 1 { fits(h, m) } else { h.w <= 1 } }
pub proof fn wide0(h: Head, e: Seq<char>) ensures add(h, e, 0).w <= 1 { ax_plain('…'); }
""")
    u.fn(M, "metadata", ret="r", lifted=["display_more"], fmt=True, rewrites=rw + [CALL],
         contract=r"""
        requires max_cols >= 1,
        ensures ({ let m = max_cols - 1; if width(first(*trace)) > m { r@ == seq!['…'] } else { r@ == text_of(header(*trace, m)) + seq!['.'] && (m >= 1 ==> fits(header(*trace, m), m) && width(header(*trace, m).line + seq!['.']) <= max_cols) } }),
        """, hints=[("before", "let mut last_line_width", "let ghost mut h = Head { done: seq![], line: first(*trace), w: width(first(*trace)) }; proof { assert(buf@ == first(*trace)); }"),
            ("before", "buf.push('.');", "proof { assert(h == header(*trace, effective_max_cols as int)); ax_empty(); ax_join(h.line, '.', seq![]); assert(h.line + seq!['.'] + seq![] =~= h.line + seq!['.']); assert(text_of(h) + seq!['.'] =~= text_of(h).push('.')); }")])
    return u
