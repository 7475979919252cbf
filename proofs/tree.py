"""C01-C03: activity tree built by ActivityTreeBuilder (clang-time-trace/src/tree.rs)."""
import re
from vx.unit import Unit
P = "clang-time-trace/src/tree.rs"
S = "clang-time-trace/src/stats/activity/mod.rs"

TIME = r"""
#[derive(Clone, Copy)] pub struct T { pub rank: Ghost<int>, pub id: Ghost<int> }
pub type Timestamp = T;
pub type Duration = T;
pub uninterp spec fn t_add(a: T, b: T) -> T;
pub uninterp spec fn t_sub(a: T, b: T) -> T;
pub uninterp spec fn t_lit0() -> T;
pub uninterp spec fn t_min() -> T;
impl T {
    #[verifier::external_body] pub fn lit0() -> (r: T) ensures r == t_lit0() { unimplemented!() }
    #[verifier::external_body] pub fn min() -> (r: T) ensures r == t_min() { unimplemented!() }
}
impl vstd::std_specs::ops::AddSpecImpl<T> for T {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, r: T) -> bool { true }
    open spec fn add_spec(self, r: T) -> T { t_add(self, r) }
}
impl core::ops::Add for T { type Output = T; #[verifier::external_body] fn add(self, o: T) -> T { unimplemented!() } }
impl vstd::std_specs::ops::SubSpecImpl<T> for T {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, r: T) -> bool { true }
    open spec fn sub_spec(self, r: T) -> T { t_sub(self, r) }
}
impl core::ops::Sub for T { type Output = T; #[verifier::external_body] fn sub(self, o: T) -> T { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for T {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, r: &T) -> bool { self.rank@ == r.rank@ }
}
impl PartialEq for T { #[verifier::external_body] fn eq(&self, o: &T) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for T {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, r: &T) -> Option<core::cmp::Ordering> {
        if self.rank@ < r.rank@ { Some(core::cmp::Ordering::Less) }
        else if self.rank@ == r.rank@ { Some(core::cmp::Ordering::Equal) }
        else { Some(core::cmp::Ordering::Greater) } }
}
impl PartialOrd for T { #[verifier::external_body] fn partial_cmp(&self, o: &T) -> Option<core::cmp::Ordering> { unimplemented!() } }
"""

class TreeUnit(Unit):
    """K1/K2/K3 (K12, K13) in the contracts say which property needs the clause, so that a change that
    breaks one of C01, C02, C03 fails obligations of that property only."""
    def __init__(self, mode):
        super().__init__("tree_" + mode, rlimit=60)
        on = {"all": "123", "C01": "1", "C02": "2", "C03": "3"}[mode]
        self.k = {k: "true" if any(d in on for d in k[1:]) else "false" for k in ("K1", "K2", "K3", "K12", "K13")}
    def emit(self, canary=False):
        src, lmap = super().emit(canary)
        return re.sub(r"\bK(12|13|1|2|3)\b", lambda m: self.k[m.group(0)], src), lmap

def make_c01(): return make("C01")
def make_c02(): return make("C02")
def make_c03(): return make("C03")

def make(mode="all"):
    u = TreeUnit(mode)
    u.trust("f64 timestamps are replaced by an opaque copyable type T: comparisons are those of a total preorder (true of non-NaN f64; "
            "JSON cannot express NaN), + and - are uninterpreted functions of their operands (so rounding is not idealised)", TIME)
    u.trust("slice::split_last, slice::split_last_mut, Vec::as_mut_slice, Vec::into_boxed_slice behave as documented by std", r"""
pub assume_specification<T> [<[T]>::split_last_mut] (s: &mut [T]) -> (r: Option<(&mut T, &mut [T])>)
    ensures match r { None => old(s)@.len() == 0 && final(s)@ == old(s)@,
        Some((l, f)) => old(s)@.len() > 0 && *l == old(s)@.last() && f@ == old(s)@.drop_last() && final(s)@ == final(f)@.push(*final(l)) };
pub assume_specification<T> [<[T]>::split_last] (s: &[T]) -> (r: Option<(&T, &[T])>)
    ensures match r { None => s@.len() == 0, Some((l, f)) => s@.len() > 0 && *l == s@.last() && f@ == s@.drop_last() };
#[verifier::external_body] pub fn vx_boxed<T>(v: Vec<T>) -> (r: Box<[T]>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vx_text() -> Box<str> { unimplemented!() }
pub fn vx_assert(b: bool) requires b {}
#[verifier::external_body] pub fn vx_assume(b: bool) ensures b { unimplemented!() }
#[verifier::external_body] pub struct Activity {}
""")
    u.rule("format!($x).into()", "vx_text()", "error text not modelled")
    u.rule("format!($x)", "vx_text()", "error text not modelled")
    u.rule("&mut self.activities[..]", "self.activities.as_mut_slice()", "same slice, by definition of RangeFull indexing")
    u.rule("let mut children_duration = 0.0;", "let mut children_duration: Duration = T::lit0();", "f64 literal")
    u.rule("0.0", "T::lit0()", "f64 literal")
    u.rule("$i_a += $x;", "$i_a = $i_a + $x;", "compound assignment spelled out")
    u.rule("Timestamp::MIN", "T::min()", "f64 constant")
    u.rule("f64::NEG_INFINITY", "T::min()", "f64 constant")
    chk = "vx_assert" if mode != "C03" else "vx_assume"
    why = "runtime assertion becomes a proof obligation" if mode != "C03" else "runtime assertion assumed here: it is an obligation of C01"
    u.rule("assert_eq!($a, $b, $m)", chk + "($a == $b)", why)
    u.rule("assert_eq!($a, $b, $m,)", chk + "($a == $b)", why)
    u.rule("$i_a.$i_b.into_boxed_slice()", "vx_boxed($i_a.$i_b)", "trusted std function")
    u.rule("pub(crate)", "pub", "visibility")
    u.raw("use core::num::NonZeroUsize; use core::ops::Range;")
    u.item(S, "struct", "ActivityStat")
    for s in ("ActivityTree", "ActivityNode", "ActivityTreeBuilder"):
        u.item(P, "struct", s)
    u.item(P, "enum", "ActivityTreeError")
    u.raw(r"""
// ---- abstract view -----------------------------------------------------------
spec fn st(a: Seq<ActivityNode>, i: int) -> int { a[i].stat.start.rank@ }
spec fn en(a: Seq<ActivityNode>, i: int) -> int { t_add(a[i].stat.start, a[i].stat.duration).rank@ }
spec fn first(a: Seq<ActivityNode>, i: int) -> int { a[i].first_related_idx as int }
spec fn cs(a: Seq<ActivityNode>, i: int) -> int { a[i].children_indices.start as int }
spec fn ce(a: Seq<ActivityNode>, i: int) -> int { a[i].children_indices.end as int }
// i is an ancestor of j
spec fn under(a: Seq<ActivityNode>, j: int, i: int) -> bool { first(a, i) <= j < i }
// the list c[lo..hi) holds, last first, the roots of the forest covering [to, from)
spec fn cur(a: Seq<ActivityNode>, c: Seq<usize>, lo: int, from: int, k: int) -> int {
    if k == lo { from } else { first(a, c[k - 1] as int) }
}
spec fn chain(a: Seq<ActivityNode>, c: Seq<usize>, lo: int, hi: int, from: int, to: int) -> bool {
    &&& K13 ==> {
    &&& 0 <= lo <= hi <= c.len()
    &&& forall|k: int| lo <= k < hi ==> (#[trigger] c[k]) < a.len() && c[k] + 1 == cur(a, c, lo, from, k)
    &&& cur(a, c, lo, from, hi) == to
    }
}
spec fn sum(a: Seq<ActivityNode>, c: Seq<usize>, lo: int, hi: int) -> T decreases hi - lo {
    if hi <= lo { t_lit0() } else { t_add(sum(a, c, lo, hi - 1), a[c[hi - 1] as int].stat.duration) }
}
spec fn nroots(a: Seq<ActivityNode>, k: int) -> int decreases k {
    if k <= 0 || first(a, k - 1) > k - 1 { 0 } else { 1 + nroots(a, first(a, k - 1)) }
}
// C02: what a tree node set is allowed to look like
spec fn nested(a: Seq<ActivityNode>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> 0 <= #[trigger] first(a, i) <= i
    // intervals: descendants start no earlier, everything else before is over
    &&& K12 ==> forall|i: int, j: int| 0 <= j < i < a.len() && #[trigger] under(a, j, i) ==> st(a, j) >= st(a, i)
    &&& K12 ==> forall|i: int, j: int| 0 <= j < i < a.len() && !(#[trigger] under(a, j, i)) ==> en(a, j) <= st(a, i)
    &&& K12 ==> forall|i: int, j: int| 0 <= i <= j < a.len() ==> #[trigger] en(a, i) <= #[trigger] en(a, j)
    // descendants are exactly the uninterrupted run of activities, just before, that start no earlier
    &&& K1 ==> forall|i: int| 0 <= i < a.len() && #[trigger] first(a, i) > 0 ==> st(a, first(a, i) - 1) < st(a, i)
}
spec fn laminar(a: Seq<ActivityNode>) -> bool {
    K12 ==> forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && #[trigger] under(a, j, i) ==> first(a, i) <= first(a, j)
}
// C01: the parent of j is its innermost ancestor
spec fn parent_ok(a: Seq<ActivityNode>, j: int) -> bool {
    K1 ==> match a[j].parent_idx {
        None => forall|i: int| j < i < a.len() ==> !#[trigger] under(a, j, i),
        Some(p) => j < p@ < a.len() && under(a, j, p@ as int) && forall|i: int| j < i < p@ ==> !#[trigger] under(a, j, i),
    }
}
spec fn lists_ok(a: Seq<ActivityNode>, c: Seq<usize>) -> bool {
    &&& K13 ==> forall|i: int| 0 <= i < a.len() ==> #[trigger] cs(a, i) <= ce(a, i) <= c.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] chain(a, c, cs(a, i), ce(a, i), i, first(a, i))
    &&& K3 ==> forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).self_duration == t_sub(a[i].stat.duration, sum(a, c, cs(a, i), ce(a, i)))
}
#[verifier::opaque]
spec fn wf(a: Seq<ActivityNode>, c: Seq<usize>) -> bool {
    &&& nested(a) && laminar(a) && lists_ok(a, c)
    &&& forall|j: int| 0 <= j < a.len() ==> #[trigger] parent_ok(a, j)
    &&& K1 ==> c.len() + nroots(a, a.len() as int) == a.len()
}
impl ActivityTreeBuilder {
    spec fn wf(self) -> bool {
        &&& wf(self.activities@, self.children@)
        &&& K12 ==> forall|i: int| 0 <= i < self.activities@.len() ==> #[trigger] en(self.activities@, i) <= self.last_end.rank@
    }
}
spec fn same_shape(a: Seq<ActivityNode>, b: Seq<ActivityNode>) -> bool {
    &&& a.len() <= b.len()
    &&& forall|i: int| 0 <= i < a.len() ==> same_node(a[i], #[trigger] b[i])
}
spec fn same_node(x: ActivityNode, y: ActivityNode) -> bool {
    x.stat == y.stat && (K3 ==> x.self_duration == y.self_duration) && x.first_related_idx == y.first_related_idx
        && (K13 ==> x.children_indices == y.children_indices)
}
// roots get `n` as parent, other nodes keep theirs
spec fn adopted(x: ActivityNode, y: ActivityNode, n: int) -> bool {
    K1 ==> match x.parent_idx { None => y.parent_idx is Some && y.parent_idx.unwrap()@ == n, Some(p) => y.parent_idx == Some(p) }
}
// two intervals that overlap without nesting
spec fn straddles(n: ActivityNode, start: T) -> bool {
    n.stat.start.rank@ < start.rank@ && t_add(n.stat.start, n.stat.duration).rank@ > start.rank@
}
proof fn lemma_sum_frame(a: Seq<ActivityNode>, b: Seq<ActivityNode>, c: Seq<usize>, d: Seq<usize>, lo: int, hi: int)
    requires same_shape(a, b), 0 <= lo <= hi <= c.len() <= d.len(), forall|k: int| lo <= k < hi ==> #[trigger] c[k] == d[k] && c[k] < a.len(),
    ensures sum(a, c, lo, hi) == sum(b, d, lo, hi),
    decreases hi - lo,
{ if lo < hi { lemma_sum_frame(a, b, c, d, lo, hi - 1); } }
proof fn lemma_nroots_frame(a: Seq<ActivityNode>, b: Seq<ActivityNode>, k: int)
    requires same_shape(a, b), 0 <= k <= a.len(),
    ensures nroots(a, k) == nroots(b, k),
    decreases k,
{ if k > 0 && 0 <= first(a, k - 1) <= k - 1 { assert(same_node(a[k-1], b[k-1])); lemma_nroots_frame(a, b, first(a, k - 1)); }
  else if k > 0 { assert(same_node(a[k-1], b[k-1])); } }
proof fn lemma_chain_push(a: Seq<ActivityNode>, c: Seq<usize>, lo: int, from: int, k: int)
    requires chain(a, c, lo, c.len() as int, from, k), 0 < k <= a.len() <= usize::MAX,
    ensures chain(a, c.push((k - 1) as usize), lo, c.len() as int + 1, from, first(a, k - 1)),
{
    if K13 {
    let d = c.push((k - 1) as usize);
    assert forall|j: int| lo <= j < d.len() implies (#[trigger] d[j]) < a.len() && d[j] + 1 == cur(a, d, lo, from, j) by {
        if j < c.len() { assert(d[j] == c[j]); if j > lo { assert(d[j-1] == c[j-1]); } assert(cur(a, d, lo, from, j) == cur(a, c, lo, from, j)); }
        else { if j > lo { assert(d[j-1] == c[j-1]); } assert(cur(a, d, lo, from, j) == cur(a, c, lo, from, j)); }
    }
    }
}
proof fn lemma_chain_frame(a: Seq<ActivityNode>, b: Seq<ActivityNode>, c: Seq<usize>, d: Seq<usize>, lo: int, hi: int, from: int, to: int)
    requires chain(a, c, lo, hi, from, to), same_shape(a, b), c.len() <= d.len(), forall|i: int| 0 <= i < c.len() ==> #[trigger] d[i] == c[i],
    ensures chain(b, d, lo, hi, from, to),
{
    if K13 {
    assert forall|j: int| lo <= j < hi implies (#[trigger] d[j]) < b.len() && d[j] + 1 == cur(b, d, lo, from, j) by {
        assert(d[j] == c[j]);
        if j > lo { assert(d[j-1] == c[j-1]); assert(same_node(a[c[j-1] as int], b[c[j-1] as int])); }
    }
    if hi > lo { assert(d[hi-1] == c[hi-1]); assert(same_node(a[c[hi-1] as int], b[c[hi-1] as int])); }
    }
}
proof fn lemma_step(a: Seq<ActivityNode>, os: Seq<ActivityNode>, ns: Seq<ActivityNode>, cand: ActivityNode, k: int, f: int, n: int)
    requires
        nested(a), laminar(a), n == a.len(), 0 < k <= n, os.len() == n - k, f == first(a, k - 1), 0 <= f <= k - 1, cut(a, k),
        forall|j: int| 0 <= j < a.len() ==> #[trigger] parent_ok(a, j),
        same_node(a[k - 1], cand), K1 ==> (cand.parent_idx is Some && cand.parent_idx.unwrap()@ == n),
        ns == a.subrange(f, k - 1).push(cand) + os,
        forall|j: int| k <= j < n ==> #[trigger] same_node(a[j], os[j - k]),
        forall|j: int| k <= j < n ==> #[trigger] adopted(a[j], os[j - k], n),
    ensures
        ns.len() == n - f, cut(a, f),
        forall|j: int| f <= j < n ==> #[trigger] same_node(a[j], ns[j - f]),
        forall|j: int| f <= j < n ==> #[trigger] adopted(a[j], ns[j - f], n),
{
    reveal(cut);
    let c = k - 1;
    if K12 {
    assert forall|i: int, j: int| 0 <= j < f <= i < a.len() implies !#[trigger] under(a, j, i) by {
        if under(a, j, i) {
            if i >= k { assert(under(a, j, i)); assert(!under(a, j, i)); }
            else if i < c { assert(under(a, i, c)); }
        }
    }
    }
    assert forall|j: int| f <= j < n implies #[trigger] same_node(a[j], ns[j - f]) by {
        if j < c { assert(ns[j - f] == a[j]); } else if j == c { assert(ns[j - f] == cand); }
        else { assert(ns[j - f] == os[j - k]); assert(same_node(a[j], os[j - k])); }
    }
    if K1 {
    assert forall|j: int| f <= j < n implies #[trigger] adopted(a[j], ns[j - f], n) by {
        if j < c {
            assert(ns[j - f] == a[j]);
            assert(parent_ok(a, j)); assert(under(a, j, c));
        } else if j == c {
            assert(ns[j - f] == cand);
            assert(parent_ok(a, c));
            if let Some(p) = a[c].parent_idx { assert(under(a, c, p@ as int)); }
        } else {
            assert(ns[j - f] == os[j - k]);
            assert(same_node(a[j], os[j - k])); assert(adopted(a[j], os[j - k], n));
        }
    }
    }
}
// no node >= k covers anything below k
#[verifier::opaque]
spec fn cut(a: Seq<ActivityNode>, k: int) -> bool {
    K12 ==> forall|i: int, j: int| 0 <= j < k <= i < a.len() ==> !#[trigger] under(a, j, i)
}
// state of the walk over the children of a new node n == a.len(), when nodes k..n have been claimed
#[verifier::opaque]
spec fn walk(a: Seq<ActivityNode>, c0: Seq<usize>, c: Seq<usize>, suf: Seq<ActivityNode>, k: int, start: T, dur: T) -> bool {
    let n = a.len() as int;
    &&& wf(a, c0) && 0 <= k <= n
    &&& suf.len() == n - k
    &&& K13 ==> c0.len() <= c.len()
    &&& K13 ==> forall|i: int| 0 <= i < c0.len() ==> #[trigger] c[i] == c0[i]
    &&& chain(a, c, c0.len() as int, c.len() as int, n, k)
    &&& K1 ==> c.len() + nroots(a, k) == c0.len() + nroots(a, n)
    &&& cut(a, k)
    &&& K12 ==> forall|j: int| k <= j < n ==> #[trigger] st(a, j) >= start.rank@
    &&& K3 ==> dur == sum(a, c, c0.len() as int, c.len() as int)
    &&& forall|j: int| k <= j < n ==> #[trigger] same_node(a[j], suf[j - k])
    &&& forall|j: int| k <= j < n ==> #[trigger] adopted(a[j], suf[j - k], n)
}
proof fn lemma_walk_start(a: Seq<ActivityNode>, c0: Seq<usize>, start: T)
    requires wf(a, c0),
    ensures walk(a, c0, c0, Seq::empty(), a.len() as int, start, t_lit0()),
{ reveal(walk); reveal(cut); reveal(wf); }
proof fn lemma_walk_cand(a: Seq<ActivityNode>, c0: Seq<usize>, c: Seq<usize>, suf: Seq<ActivityNode>, k: int, start: T, dur: T)
    requires walk(a, c0, c, suf, k, start, dur), k > 0,
    ensures 0 <= first(a, k - 1) <= k - 1 < a.len(),
{ reveal(walk); reveal(wf); }
proof fn lemma_walk_step(a: Seq<ActivityNode>, c0: Seq<usize>, c: Seq<usize>, suf: Seq<ActivityNode>, k: int, start: T, dur: T, cand: ActivityNode)
    requires
        walk(a, c0, c, suf, k, start, dur), 0 < k, a.len() <= usize::MAX,
        same_node(a[k - 1], cand), K1 ==> cand.parent_idx is Some, K1 ==> cand.parent_idx.unwrap()@ == a.len(),
        K12 ==> st(a, k - 1) >= start.rank@,
    ensures
        walk(a, c0, c.push((k - 1) as usize), a.subrange(first(a, k - 1), k - 1).push(cand) + suf, first(a, k - 1), start,
             t_add(dur, a[k - 1].stat.duration)),
{
    reveal(walk); reveal(wf);
    let f = first(a, k - 1);
    let n = a.len() as int;
    let d = c.push((k - 1) as usize);
    lemma_chain_push(a, c, c0.len() as int, n, k);
    if K3 { lemma_sum_frame(a, a, c, d, c0.len() as int, c.len() as int); }
    lemma_step(a, suf, a.subrange(f, k - 1).push(cand) + suf, cand, k, f, n);
    if K12 { assert forall|j: int| f <= j < n implies #[trigger] st(a, j) >= start.rank@ by {
        if j < k - 1 { assert(under(a, j, k - 1)); }
    } }
    if K13 { assert forall|i: int| 0 <= i < c0.len() implies #[trigger] d[i] == c0[i] by { assert(c[i] == c0[i]); } }
    if K1 { assert(nroots(a, k) == 1 + nroots(a, f)); }
}
proof fn lemma_walk_stop(a: Seq<ActivityNode>, c0: Seq<usize>, c: Seq<usize>, suf: Seq<ActivityNode>, k: int, start: T, dur: T)
    requires walk(a, c0, c, suf, k, start, dur), K12 ==> (k == 0 || en(a, k - 1) <= start.rank@),
    ensures K12 ==> forall|j: int| 0 <= j < a.len() ==> !straddles(#[trigger] a[j], start),
        K12 ==> forall|j: int| 0 <= j < k ==> #[trigger] en(a, j) <= start.rank@,
{
    reveal(walk); reveal(wf);
    if K12 {
    assert forall|j: int| 0 <= j < k implies #[trigger] en(a, j) <= start.rank@ by { assert(en(a, j) <= en(a, k - 1)); }
    assert forall|j: int| 0 <= j < a.len() implies !straddles(#[trigger] a[j], start) by {
        if j < k { assert(en(a, j) <= en(a, k - 1)); } else { assert(st(a, j) >= start.rank@); }
    }
    }
}
// b is a (with adopted parents) followed by `node`
spec fn extended(a: Seq<ActivityNode>, b: Seq<ActivityNode>, k: int, start: T) -> bool {
    let n = a.len() as int;
    &&& b.len() == n + 1 && 0 <= k <= n && same_shape(a, b) && first(b, n) == k && (K12 ==> st(b, n) == start.rank@)
    &&& K12 ==> forall|j: int| 0 <= j < n ==> #[trigger] en(a, j) <= en(b, n)
    &&& K12 ==> forall|j: int| 0 <= j < k ==> #[trigger] en(a, j) <= start.rank@
    &&& K12 ==> forall|j: int| k <= j < n ==> #[trigger] st(a, j) >= start.rank@
    &&& K1 ==> k == 0 || st(a, k - 1) < start.rank@
}
proof fn lemma_same(a: Seq<ActivityNode>, b: Seq<ActivityNode>, i: int)
    requires same_shape(a, b), 0 <= i < a.len(),
    ensures first(a, i) == first(b, i), st(a, i) == st(b, i), en(a, i) == en(b, i), K13 ==> (cs(a, i) == cs(b, i) && ce(a, i) == ce(b, i)),
        forall|j: int| #[trigger] under(b, j, i) == under(a, j, i),
{ assert(same_node(a[i], b[i])); }
proof fn lemma_ins_nested(a: Seq<ActivityNode>, b: Seq<ActivityNode>, k: int, start: T)
    requires nested(a), extended(a, b, k, start),
    ensures nested(b), K12 ==> forall|i: int| 0 <= i < b.len() ==> #[trigger] en(b, i) <= en(b, a.len() as int),
{
    let n = a.len() as int;
    if K12 {
    assert forall|i: int, j: int| 0 <= j < i < b.len() && #[trigger] under(b, j, i) implies st(b, j) >= st(b, i) by {
        lemma_same(a, b, j);
        if i < n { lemma_same(a, b, i); assert(under(a, j, i)); }
    }
    assert forall|i: int, j: int| 0 <= j < i < b.len() && !(#[trigger] under(b, j, i)) implies en(b, j) <= st(b, i) by {
        lemma_same(a, b, j);
        if i < n { lemma_same(a, b, i); assert(!under(a, j, i)); }
    }
    }
    assert forall|i: int| 0 <= i < b.len() implies 0 <= #[trigger] first(b, i) <= i by {
        if i < n { lemma_same(a, b, i); assert(0 <= first(a, i) <= i); } }
    if K12 {
    if K1 { assert forall|i: int| 0 <= i < b.len() && #[trigger] first(b, i) > 0 implies st(b, first(b, i) - 1) < st(b, i) by {
        if i < n { lemma_same(a, b, i); assert(first(a, i) <= i); lemma_same(a, b, first(a, i) - 1); } else { lemma_same(a, b, k - 1); }
    } }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] en(b, i) <= en(b, n) by { if i < n { lemma_same(a, b, i); } }
    assert forall|i: int, j: int| 0 <= i <= j < b.len() implies #[trigger] en(b, i) <= #[trigger] en(b, j) by {
        if j < n { lemma_same(a, b, i); lemma_same(a, b, j); assert(en(a, i) <= en(a, j)); }
    }
    }
}
proof fn lemma_ins_laminar(a: Seq<ActivityNode>, b: Seq<ActivityNode>, k: int, start: T)
    requires nested(a), laminar(a), extended(a, b, k, start), cut(a, k),
    ensures laminar(b),
{
    reveal(cut);
    let n = a.len() as int;
    if K12 {
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && #[trigger] under(b, j, i) implies first(b, i) <= first(b, j) by {
        lemma_same(a, b, j);
        if i < n { lemma_same(a, b, i); assert(under(a, j, i)); }
        else if first(a, j) < k { assert(under(a, k - 1, j)); }
    }
    }
}
proof fn lemma_ins_lists(a: Seq<ActivityNode>, c0: Seq<usize>, c: Seq<usize>, k: int, start: T, dur: T, b: Seq<ActivityNode>)
    requires lists_ok(a, c0), extended(a, b, k, start), K13 ==> c0.len() <= c.len(), K13 ==> forall|i: int| 0 <= i < c0.len() ==> #[trigger] c[i] == c0[i],
        chain(a, c, c0.len() as int, c.len() as int, a.len() as int, k), K3 ==> dur == sum(a, c, c0.len() as int, c.len() as int),
        K13 ==> cs(b, a.len() as int) == c0.len(), K13 ==> ce(b, a.len() as int) == c.len(),
        K3 ==> b[a.len() as int].self_duration == t_sub(b[a.len() as int].stat.duration, dur),
    ensures lists_ok(b, c),
{
    let n = a.len() as int;
    if K13 {
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] cs(b, i) <= ce(b, i) <= c.len() by {
        if i < n { lemma_same(a, b, i); assert(cs(a, i) <= ce(a, i) <= c0.len()); }
    }
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] chain(b, c, cs(b, i), ce(b, i), i, first(b, i)) by {
        if i < n {
            lemma_same(a, b, i);
            assert(chain(a, c0, cs(a, i), ce(a, i), i, first(a, i)));
            lemma_chain_frame(a, b, c0, c, cs(a, i), ce(a, i), i, first(a, i));
        } else {
            lemma_chain_frame(a, b, c, c, c0.len() as int, c.len() as int, n, k);
        }
    }
    }
    if K3 {
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).self_duration == t_sub(b[i].stat.duration, sum(b, c, cs(b, i), ce(b, i))) by {
        if i < n {
            lemma_same(a, b, i); assert(same_node(a[i], b[i]));
            assert(chain(a, c0, cs(a, i), ce(a, i), i, first(a, i)));
            assert(a[i].self_duration == t_sub(a[i].stat.duration, sum(a, c0, cs(a, i), ce(a, i))));
            lemma_sum_frame(a, b, c0, c, cs(a, i), ce(a, i));
        } else {
            lemma_sum_frame(a, b, c, c, c0.len() as int, c.len() as int);
        }
    }
    }
}
proof fn lemma_ins_parents(a: Seq<ActivityNode>, b: Seq<ActivityNode>, suf: Seq<ActivityNode>, k: int, start: T)
    requires forall|j: int| 0 <= j < a.len() ==> #[trigger] parent_ok(a, j), extended(a, b, k, start), suf.len() == a.len() - k,
        b == (a.subrange(0, k) + suf).push(b[a.len() as int]), K1 ==> b[a.len() as int].parent_idx is None,
        forall|j: int| k <= j < a.len() ==> #[trigger] adopted(a[j], suf[j - k], a.len() as int),
    ensures forall|j: int| 0 <= j < b.len() ==> #[trigger] parent_ok(b, j),
{
    let n = a.len() as int;
    if K1 {
    assert forall|j: int| 0 <= j < b.len() implies #[trigger] parent_ok(b, j) by {
        if j < n {
            assert(parent_ok(a, j));
            lemma_same(a, b, j);
            assert forall|i: int| 0 <= i < n implies #[trigger] under(b, j, i) == under(a, j, i) by { lemma_same(a, b, i); }
            if j < k {
                assert(b[j] == a[j]);
                assert(!under(b, j, n));
            } else {
                assert(b[j] == suf[j - k]);
                assert(adopted(a[j], suf[j - k], n));
                assert(under(b, j, n));
            }
        }
    }
    }
}
proof fn lemma_insert(a: Seq<ActivityNode>, c0: Seq<usize>, c: Seq<usize>, suf: Seq<ActivityNode>, k: int, start: T, dur: T, node: ActivityNode, b: Seq<ActivityNode>)
    requires
        walk(a, c0, c, suf, k, start, dur), K12 ==> (k == 0 || en(a, k - 1) <= start.rank@), K1 ==> (k == 0 || st(a, k - 1) < start.rank@),
        K12 ==> node.stat.start == start, node.first_related_idx == k, K1 ==> node.parent_idx is None,
        K13 ==> node.children_indices.start == c0.len(), K13 ==> node.children_indices.end == c.len(),
        K3 ==> node.self_duration == t_sub(node.stat.duration, dur),
        K12 ==> forall|i: int| 0 <= i < a.len() ==> #[trigger] en(a, i) <= t_add(node.stat.start, node.stat.duration).rank@,
        b == (a.subrange(0, k) + suf).push(node),
    ensures wf(b, c), same_shape(a, b), b.len() == a.len() + 1,
        K12 ==> forall|i: int| 0 <= i < b.len() ==> #[trigger] en(b, i) <= t_add(node.stat.start, node.stat.duration).rank@,
{
    let n = a.len() as int;
    lemma_walk_stop(a, c0, c, suf, k, start, dur);
    reveal(walk); reveal(wf);
    assert forall|i: int| 0 <= i < n implies same_node(a[i], #[trigger] b[i]) by {
        if i < k { assert(b[i] == a[i]); } else { assert(b[i] == suf[i - k]); assert(same_node(a[i], suf[i - k])); }
    }
    assert(b[n] == node);
    assert(same_shape(a, b));
    assert(extended(a, b, k, start));
    lemma_ins_nested(a, b, k, start);
    lemma_ins_laminar(a, b, k, start);
    lemma_ins_lists(a, c0, c, k, start, dur, b);
    lemma_ins_parents(a, b, suf, k, start);
    lemma_nroots_frame(a, b, k);
    assert(nroots(b, n + 1) == 1 + nroots(b, k));
}
""")
    u.fn(S, "start", impl="ActivityStat", ret="r", contract="ensures r == self.start,")
    u.fn(S, "duration", impl="ActivityStat", ret="r", contract="ensures r == self.duration,")
    u.fn(S, "end", impl="ActivityStat", ret="r", contract="ensures r == t_add(self.start, self.duration),")
    u.fn(P, "with_capacity", impl="ActivityTreeBuilder", ret="r",
         contract="ensures r.activities@.len() == 0, r.children@.len() == 0, r.wf(), r.last_end == t_min(),", start="proof { reveal(wf); }")
    u.fn(P, "insert", impl="ActivityTreeBuilder", ret="r", contract=r"""
        requires old(self).wf(),
        ensures
            // accepted exactly when ordered and properly nested
            K2 ==> (r is Ok <==> t_add(activity.start, activity.duration).rank@ >= old(self).last_end.rank@
                && forall|j: int| 0 <= j < old(self).activities@.len() ==> !straddles(#[trigger] old(self).activities@[j], activity.start)),
            K2 ==> ((r matches Err(ActivityTreeError::UnexpectedActivityOrder { prev, current }))
                <==> t_add(activity.start, activity.duration).rank@ < old(self).last_end.rank@),
            r is Ok ==> {
                &&& final(self).wf()
                &&& K12 ==> final(self).last_end == t_add(activity.start, activity.duration)
                &&& final(self).activities@.len() == old(self).activities@.len() + 1
                &&& same_shape(old(self).activities@, final(self).activities@)
                &&& final(self).activities@.last().stat == activity
            },
    """, start="""let ghost a0 = self.activities@; let ghost c0 = self.children@;""",
         attrs="#[verifier::loop_isolation(false)]",
         loops=[dict(kw="while", before=r"""
            let ghost n = a0.len() as int;
            let ghost fin = final(child_candidates)@;
            let ghost mut suf: Seq<ActivityNode> = Seq::empty();
            proof { assert(child_candidates@ =~= a0.subrange(0, n)); lemma_walk_start(a0, c0, start); }
         """, inv=r"""
            invariant
                first_related_idx == child_candidates@.len() <= n,
                child_candidates@ =~= a0.subrange(0, first_related_idx as int),
                fin =~= final(child_candidates)@ + suf,
                walk(a0, c0, self.children@, suf, first_related_idx as int, start, children_duration),
            decreases child_candidates@.len(),
         """, start=r"""
            let ghost k0 = first_related_idx as int; let ghost ch0 = self.children@; let ghost dur0 = children_duration;
            proof { lemma_walk_cand(a0, c0, ch0, suf, k0, start, dur0); }
         """,
            end=r"""
            proof {
                lemma_walk_step(a0, c0, ch0, suf, k0, start, dur0, *candidate);
                suf = a0.subrange(first_related_idx as int, k0 - 1).push(*candidate) + suf;
            }
         """, after=r"""
         let ghost c1 = self.children@; let ghost k1 = first_related_idx as int;
         proof { lemma_walk_stop(a0, c0, c1, suf, k1, start, children_duration); }
         """)],
         hints=[("before", "Ok(())", """proof { assert(self.activities@ =~= (a0.subrange(0, k1) + suf).push(self.activities@.last())); lemma_insert(a0, c0, c1, suf, k1, start, children_duration, self.activities@.last(), self.activities@); }""")],
    )
    if mode == "C02": return u
    u.raw(r"""
// roots: exactly the nodes without a parent, last first; every node is listed exactly once
spec fn is_kid(a: Seq<ActivityNode>, j: int, i: int) -> bool { a[j].parent_idx is Some && a[j].parent_idx.unwrap()@ == i }
#[verifier::opaque]
spec fn roots_walk(a: Seq<ActivityNode>, c0: Seq<usize>, c: Seq<usize>, k: int) -> bool {
    let n = a.len() as int;
    &&& wf(a, c0) && 0 <= k <= n && (K13 ==> c0.len() <= c.len())
    &&& K13 ==> forall|i: int| 0 <= i < c0.len() ==> #[trigger] c[i] == c0[i]
    &&& chain(a, c, c0.len() as int, c.len() as int, n, k)
    &&& K1 ==> c.len() + nroots(a, k) == c0.len() + nroots(a, n)
    &&& cut(a, k)
}
proof fn lemma_roots_start(a: Seq<ActivityNode>, c0: Seq<usize>)
    requires wf(a, c0),
    ensures roots_walk(a, c0, c0, a.len() as int),
{ reveal(roots_walk); reveal(wf); reveal(cut); }
proof fn lemma_roots_step(a: Seq<ActivityNode>, c0: Seq<usize>, c: Seq<usize>, k: int)
    requires roots_walk(a, c0, c, k), 0 < k, a.len() <= usize::MAX,
    ensures 0 <= first(a, k - 1) <= k - 1 < a.len(), roots_walk(a, c0, c.push((k - 1) as usize), first(a, k - 1)),
{
    reveal(roots_walk); reveal(wf);
    let f = first(a, k - 1); let d = c.push((k - 1) as usize);
    lemma_chain_push(a, c, c0.len() as int, a.len() as int, k);
    assert(cut(a, f)) by {
        reveal(cut);
        if K12 { assert forall|i: int, j: int| 0 <= j < f <= i < a.len() implies !#[trigger] under(a, j, i) by {
            if under(a, j, i) {
                if i >= k { assert(under(a, j, i)); assert(!under(a, j, i)); }
                else if i < k - 1 { assert(under(a, i, k - 1)); }
            }
        } }
    }
    if K13 { assert forall|i: int| 0 <= i < c0.len() implies #[trigger] d[i] == c0[i] by { assert(c[i] == c0[i]); } }
    if K1 { assert(nroots(a, k) == 1 + nroots(a, f)); }
}
""")
    if mode != "C03": u.raw(r"""
// the chain from `from` down to `to` lists exactly the nodes of [to, from) that are not covered from within [to, from)
proof fn lemma_chain_members(a: Seq<ActivityNode>, c: Seq<usize>, lo: int, hi: int, from: int, to: int, j: int)
    requires nested(a), chain(a, c, lo, hi, from, to), 0 <= to <= j < from <= a.len(), 
        forall|i: int| j < i < from ==> !#[trigger] under(a, j, i),
    ensures exists|k: int| lo <= k < hi && #[trigger] c[k] == j,
    decreases hi - lo,
{
    if lo == hi { }
    else {
        assert(c[lo] + 1 == cur(a, c, lo, from, lo));
        let x = c[lo] as int;
        if x == j { }
        else {
            assert(!under(a, j, x));
            let f = first(a, x);
            assert forall|k: int| lo + 1 <= k < hi implies (#[trigger] c[k]) < a.len() && c[k] + 1 == cur(a, c, lo + 1, f, k) by {
                assert(c[k] + 1 == cur(a, c, lo, from, k));
            }
            assert(chain(a, c, lo + 1, hi, f, to));
            lemma_chain_members(a, c, lo + 1, hi, f, to, j);
        }
    }
}
proof fn lemma_chain_elem(a: Seq<ActivityNode>, c: Seq<usize>, lo: int, hi: int, from: int, to: int, k: int)
    requires nested(a), laminar(a), chain(a, c, lo, hi, from, to), 0 <= to <= from <= a.len(), lo <= k < hi,
    ensures to <= first(a, c[k] as int) <= c[k] < from, k + 1 < hi ==> c[k + 1] < c[k],
        forall|i: int| c[k] < i < from ==> !#[trigger] under(a, c[k] as int, i),
    decreases hi - k,
{
    assert(c[k] + 1 == cur(a, c, lo, from, k));
    let x = c[k] as int;
    if k > lo { lemma_chain_low(a, c, lo, hi, from, to, k - 1); }
    if k + 1 < hi { assert(c[k + 1] + 1 == cur(a, c, lo, from, k + 1)); }
    lemma_chain_bound(a, c, lo, hi, from, to, k);
    assert(first(a, x) <= x);
    lemma_chain_notunder(a, c, lo, hi, from, to, k);
}
proof fn lemma_chain_low(a: Seq<ActivityNode>, c: Seq<usize>, lo: int, hi: int, from: int, to: int, k: int)
    requires nested(a), chain(a, c, lo, hi, from, to), lo <= k < hi, from <= a.len(),
    ensures c[k] < from,
    decreases k - lo,
{
    assert(c[k] + 1 == cur(a, c, lo, from, k));
    if k > lo { lemma_chain_low(a, c, lo, hi, from, to, k - 1); assert(first(a, c[k-1] as int) <= c[k-1]); }
}
proof fn lemma_chain_bound(a: Seq<ActivityNode>, c: Seq<usize>, lo: int, hi: int, from: int, to: int, k: int)
    requires nested(a), chain(a, c, lo, hi, from, to), lo <= k < hi, 0 <= to,
    ensures to <= first(a, c[k] as int), c[k] < from,
    decreases hi - k,
{
    assert(c[k] + 1 == cur(a, c, lo, from, k));
    if k > lo { lemma_chain_low2(a, c, lo, hi, from, to, k); }
    if k + 1 < hi {
        lemma_chain_bound(a, c, lo, hi, from, to, k + 1);
        assert(c[k + 1] + 1 == cur(a, c, lo, from, k + 1));
        assert(first(a, c[k + 1] as int) <= c[k + 1]);
    }
}
proof fn lemma_chain_low2(a: Seq<ActivityNode>, c: Seq<usize>, lo: int, hi: int, from: int, to: int, k: int)
    requires nested(a), chain(a, c, lo, hi, from, to), lo <= k < hi,
    ensures c[k] < from,
    decreases k - lo,
{
    assert(c[k] + 1 == cur(a, c, lo, from, k));
    if k > lo { lemma_chain_low2(a, c, lo, hi, from, to, k - 1); assert(first(a, c[k-1] as int) <= c[k-1]); }
}
proof fn lemma_chain_notunder(a: Seq<ActivityNode>, c: Seq<usize>, lo: int, hi: int, from: int, to: int, k: int)
    requires nested(a), laminar(a), chain(a, c, lo, hi, from, to), lo <= k < hi, from <= a.len(),
    ensures forall|i: int| c[k] < i < from ==> !#[trigger] under(a, c[k] as int, i),
    decreases k - lo,
{
    assert(c[k] + 1 == cur(a, c, lo, from, k));
    let x = c[k] as int;
    if k > lo {
        lemma_chain_notunder(a, c, lo, hi, from, to, k - 1);
        let y = c[k - 1] as int;
        assert forall|i: int| x < i < from implies !#[trigger] under(a, x, i) by {
            if under(a, x, i) {
                if i <= y { if i < y { assert(under(a, i, y)); } }
                else { assert(under(a, y, i) || first(a, i) > y); }
            }
        }
    }
}
""")
    u.raw(r"""
spec fn kid_at(c: Seq<usize>, i: int, k: int) -> usize { c[k] }
// C01 in terms of the finished tree: list of children == nodes whose parent is i; list of roots == nodes without parent
#[verifier::opaque]
spec fn tree_ok(a: Seq<ActivityNode>, c: Seq<usize>, r: int) -> bool {
    &&& 0 <= r <= c.len()
    &&& K1 ==> c.len() == a.len()
    &&& K1 ==> forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() ==>
            (#[trigger] is_kid(a, j, i) <==> exists|k: int| cs(a, i) <= k < ce(a, i) && #[trigger] c[k] == j)
    &&& K1 ==> forall|j: int| 0 <= j < a.len() ==>
            ((#[trigger] a[j]).parent_idx is None <==> exists|k: int| r <= k < c.len() && #[trigger] c[k] == j)
    &&& K13 ==> forall|k: int| r <= k < c.len() ==> (#[trigger] c[k]) < a.len()
    &&& K1 ==> forall|k: int, l: int| r <= k < l < c.len() ==> (#[trigger] c[k]) > #[trigger] c[l]
    &&& K13 ==> forall|i: int, k: int| 0 <= i < a.len() && cs(a, i) <= k < ce(a, i) ==> #[trigger] kid_at(c, i, k) < a.len()
    &&& nested(a) && laminar(a)
    &&& forall|j: int| 0 <= j < a.len() ==> #[trigger] parent_ok(a, j)
    &&& K13 ==> forall|i: int| 0 <= i < a.len() ==> #[trigger] cs(a, i) <= ce(a, i) <= r
    &&& K3 ==> forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).self_duration == t_sub(a[i].stat.duration, sum(a, c, cs(a, i), ce(a, i)))
}
""")
    if mode != "C03": u.raw(r"""
proof fn lemma_kids(a: Seq<ActivityNode>, c0: Seq<usize>, c: Seq<usize>, i: int, j: int)
    requires wf(a, c0), c0.len() <= c.len(), forall|i: int| 0 <= i < c0.len() ==> #[trigger] c[i] == c0[i], 0 <= i < a.len(), 0 <= j < a.len(),
    ensures is_kid(a, j, i) <==> exists|k: int| cs(a, i) <= k < ce(a, i) && #[trigger] c[k] == j,
{
    reveal(wf);
    assert(cs(a, i) <= ce(a, i) <= c0.len());
    assert(chain(a, c0, cs(a, i), ce(a, i), i, first(a, i)));
    assert(parent_ok(a, j));
    assert(0 <= first(a, i) <= i);
    if is_kid(a, j, i) {
        assert(under(a, j, i));
        lemma_chain_members(a, c0, cs(a, i), ce(a, i), i, first(a, i), j);
        let k = choose|k: int| cs(a, i) <= k < ce(a, i) && #[trigger] c0[k] == j;
        assert(c[k] == j);
    }
    if exists|k: int| cs(a, i) <= k < ce(a, i) && #[trigger] c[k] == j {
        let k = choose|k: int| cs(a, i) <= k < ce(a, i) && #[trigger] c[k] == j;
        assert(c0[k] == c[k]);
        lemma_chain_elem(a, c0, cs(a, i), ce(a, i), i, first(a, i), k);
        assert(first(a, j) <= j);
        assert(under(a, j, i));
        if let Some(p) = a[j].parent_idx {
            if p@ < i { assert(under(a, j, p@ as int)); }
            if p@ > i { assert(!under(a, j, i)); }
        } else { assert(!under(a, j, i)); }
    }
}
proof fn lemma_rootlist(a: Seq<ActivityNode>, c: Seq<usize>, r: int, j: int)
    requires nested(a), laminar(a), parent_ok(a, j), chain(a, c, r, c.len() as int, a.len() as int, 0), 0 <= j < a.len(),
    ensures a[j].parent_idx is None <==> exists|k: int| r <= k < c.len() && #[trigger] c[k] == j,
{
    if a[j].parent_idx is None {
        lemma_chain_members(a, c, r, c.len() as int, a.len() as int, 0, j);
    }
    if exists|k: int| r <= k < c.len() && #[trigger] c[k] == j {
        let k = choose|k: int| r <= k < c.len() && #[trigger] c[k] == j;
        lemma_chain_elem(a, c, r, c.len() as int, a.len() as int, 0, k);
        if let Some(p) = a[j].parent_idx { assert(under(a, j, p@ as int)); }
    }
}
proof fn lemma_desc(a: Seq<ActivityNode>, c: Seq<usize>, r: int, k: int, l: int)
    requires nested(a), laminar(a), chain(a, c, r, c.len() as int, a.len() as int, 0), r <= k < l < c.len(),
    ensures c[k] > c[l],
    decreases l - k,
{
    lemma_chain_elem(a, c, r, c.len() as int, a.len() as int, 0, k);
    if k + 1 < l { lemma_desc(a, c, r, k + 1, l); }
}
""")
    u.raw(r"""
""")
    if mode == "C03": u.raw(r"""
proof fn lemma_built(a: Seq<ActivityNode>, c0: Seq<usize>, c: Seq<usize>)
    requires roots_walk(a, c0, c, 0),
    ensures tree_ok(a, c, c0.len() as int),
{
    reveal(roots_walk); reveal(wf);
    reveal(tree_ok);
    assert forall|i: int, k: int| 0 <= i < a.len() && cs(a, i) <= k < ce(a, i) implies #[trigger] kid_at(c, i, k) < a.len() by {
        assert(cs(a, i) <= ce(a, i) <= c0.len());
        assert(chain(a, c0, cs(a, i), ce(a, i), i, first(a, i))); assert(c0[k] == c[k]); assert(c0[k] < a.len()); }
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).self_duration == t_sub(a[i].stat.duration, sum(a, c, cs(a, i), ce(a, i))) by {
        assert(chain(a, c0, cs(a, i), ce(a, i), i, first(a, i)));
        lemma_sum_frame(a, a, c0, c, cs(a, i), ce(a, i));
    }
}
""")
    else: u.raw(r"""
proof fn lemma_built(a: Seq<ActivityNode>, c0: Seq<usize>, c: Seq<usize>)
    requires roots_walk(a, c0, c, 0),
    ensures tree_ok(a, c, c0.len() as int), K1 ==> c.len() == a.len(),
{
    reveal(roots_walk); reveal(wf);
    reveal(tree_ok);
    let r = c0.len() as int;
    if K1 {
    assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() implies
            (#[trigger] is_kid(a, j, i) <==> exists|k: int| cs(a, i) <= k < ce(a, i) && #[trigger] c[k] == j) by { lemma_kids(a, c0, c, i, j); }
    assert forall|j: int| 0 <= j < a.len() implies
            ((#[trigger] a[j]).parent_idx is None <==> exists|k: int| r <= k < c.len() && #[trigger] c[k] == j) by {
        assert(parent_ok(a, j)); lemma_rootlist(a, c, r, j); }
    }
    assert forall|i: int, k: int| 0 <= i < a.len() && cs(a, i) <= k < ce(a, i) implies #[trigger] kid_at(c, i, k) < a.len() by {
        assert(cs(a, i) <= ce(a, i) <= c0.len());
        assert(chain(a, c0, cs(a, i), ce(a, i), i, first(a, i))); assert(c0[k] == c[k]); assert(c0[k] < a.len()); }
    assert forall|k: int| r <= k < c.len() implies (#[trigger] c[k]) < a.len() by { if K1 { lemma_chain_elem(a, c, r, c.len() as int, a.len() as int, 0, k); } }
    if K1 {
    assert forall|k: int, l: int| r <= k < l < c.len() implies (#[trigger] c[k]) > #[trigger] c[l] by { lemma_desc(a, c, r, k, l); }
    }
    if K3 {
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).self_duration == t_sub(a[i].stat.duration, sum(a, c, cs(a, i), ce(a, i))) by {
        assert(chain(a, c0, cs(a, i), ce(a, i), i, first(a, i)));
        lemma_sum_frame(a, a, c0, c, cs(a, i), ce(a, i));
    }
    }
}
""")
    u.fn(P, "build", impl="ActivityTreeBuilder", ret="r", contract=r"""
        requires self.wf(),
        ensures tree_ok(r.activities@, r.children@, r.first_root_idx as int), r.activities@ == self.activities@,
    """, attrs="#[verifier::loop_isolation(false)]",
         start="let ghost a = self.activities@; let ghost c0 = self.children@; proof { lemma_roots_start(a, c0); assert(a.len() == vx_self.activities.len()); }",
         loops=[dict(kw="while", inv="""
            invariant
                root_candidates@.len() <= a.len(), vx_self.activities@ == a,
                root_candidates@ =~= a.subrange(0, root_candidates@.len() as int),
                roots_walk(a, c0, vx_self.children@, root_candidates@.len() as int),
            decreases root_candidates@.len(),
         """, start="let ghost k0 = root_candidates@.len() as int; let ghost ch0 = vx_self.children@; proof { lemma_roots_step(a, c0, ch0, k0); }",
         after="proof { lemma_built(a, c0, vx_self.children@); }")],
         )
    queries(u, mode)
    return u

def queries(u, mode):
    """Read side: what the iterators list.  Lazy iterators become the list of their items."""
    u.trust("lazy slice iterator adapters .iter().map(f) / .iter().enumerate().map(f) list f applied to every element in order (std)", r"""
#[verifier::external_body]
pub fn vx_map<'a, A, B, F: Fn(&'a A) -> B>(s: &'a [A], f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((&s@[i],)),
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> f.ensures((&s@[i],), #[trigger] r@[i]),
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_enum_map<'a, A, B, F: Fn(usize, &'a A) -> B>(s: &'a [A], f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((i as usize, &s@[i])),
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> f.ensures((i as usize, &s@[i]), #[trigger] r@[i]),
{ unimplemented!() }
""")
    u.trust("no slice is longer than usize::MAX (std)", """#[verifier::external_body] proof fn vx_len_bound<A>(s: &[A]) ensures s@.len() <= usize::MAX { unimplemented!() }""")
    u.item(P, "struct", "ActivityTrace", rewrites=[("ActivityTraceId", "usize", "alias")])
    u.raw(r"""
pub type ActivityTraceId = usize;
proof fn lemma_t_kids(a: Seq<ActivityNode>, c: Seq<usize>, r: int, i: int)
    requires tree_ok(a, c, r), 0 <= i < a.len(),
    ensures 0 <= r <= c.len(), cs(a, i) <= ce(a, i) <= r, 
        K1 ==> forall|j: int| 0 <= j < a.len() ==> (#[trigger] is_kid(a, j, i) <==> exists|k: int| cs(a, i) <= k < ce(a, i) && #[trigger] c[k] == j),
        forall|k: int| cs(a, i) <= k < ce(a, i) ==> (#[trigger] c[k]) < a.len(),
        K3 ==> a[i].self_duration == t_sub(a[i].stat.duration, sum(a, c, cs(a, i), ce(a, i))),
{ reveal(tree_ok); assert forall|k: int| cs(a, i) <= k < ce(a, i) implies (#[trigger] c[k]) < a.len() by { assert(kid_at(c, i, k) < a.len()); } }
proof fn lemma_t_roots(a: Seq<ActivityNode>, c: Seq<usize>, r: int)
    requires tree_ok(a, c, r),
    ensures 0 <= r <= c.len(),
        K1 ==> forall|j: int| 0 <= j < a.len() ==>
            ((#[trigger] a[j]).parent_idx is None <==> exists|k: int| r <= k < c.len() && #[trigger] c[k] == j),
        forall|k: int| r <= k < c.len() ==> (#[trigger] c[k]) < a.len(),
        K1 ==> forall|k: int, l: int| r <= k < l < c.len() ==> (#[trigger] c[k]) > #[trigger] c[l],
{ reveal(tree_ok); if K1 {} }
proof fn lemma_t_node(a: Seq<ActivityNode>, c: Seq<usize>, r: int, i: int)
    requires tree_ok(a, c, r), 0 <= i < a.len(),
    ensures parent_ok(a, i), 0 <= first(a, i) <= i,
{ reveal(tree_ok); }
impl ActivityTree {
    spec fn ok(&self) -> bool { tree_ok(self.activities@, self.children@, self.first_root_idx as int) }
    spec fn is_node(&self, t: ActivityTrace, i: int) -> bool {
        0 <= i < self.activities@.len() && t.activity_idx == i && *t.tree == *self && *t.activity == self.activities@[i]
    }
}
impl<'a> ActivityTrace<'a> {
    spec fn ok(&self) -> bool {
        &&& self.tree.ok() && self.activity_idx < self.tree.activities@.len()
        &&& *self.activity == self.tree.activities@[self.activity_idx as int]
    }
}
""")
    R = [("impl Iterator<Item = ActivityTrace> + Clone + '_", "Vec<ActivityTrace<'s>>", "lazy iterator -> list of its items"),
         ("impl Iterator<Item = ActivityTrace> + Clone", "Vec<ActivityTrace<'s>>", "lazy iterator -> list of its items"),
         ("impl SliceIndex<[usize], Output = [usize]>", "Range<usize>", "generic slice index instantiated at Range<usize>"),
         ("self.hierarchy_iter(self.first_root_idx..)", "self.hierarchy_iter(self.first_root_idx..self.children.len())", "generic slice index instantiated at Range<usize>")]
    for n in ("root_activities", "all_activities", "direct_children", "all_children"):
        R.append((f"fn {n}(&self)", f"fn {n}<'s>(&'s self)", "elided lifetime spelled out"))
    R.append(("self.activity.children_indices.clone()", "(self.activity.children_indices.start..self.activity.children_indices.end)", "Range::clone spelled out"))
    R.append(("fn hierarchy_iter(&self,", "fn hierarchy_iter<'s>(&'s self,", "elided lifetime spelled out"))
    u.fn(P, "hierarchy_iter", impl="ActivityTree", ret="r", rewrites=R + [
        ("self.children[$i].iter().map(move |&activity_idx| $body)",
         "vx_map(&self.children[$i], |vx_e: &'s usize| -> (vx_r: ActivityTrace<'s>) requires (*vx_e) < self.activities@.len(), ensures self.is_node(vx_r, *vx_e as int), { let activity_idx = *vx_e; $body })",
         "iterator adapter call -> trusted list function, closure parameter pattern spelled out, closure annotated")],
        contract=r"""
        requires children_indices.start <= children_indices.end <= self.children@.len(),
            forall|k: int| children_indices.start <= k < children_indices.end ==> (#[trigger] self.children@[k]) < self.activities@.len(),
        ensures r@.len() == children_indices.end - children_indices.start,
            forall|k: int| 0 <= k < r@.len() ==> self.is_node(#[trigger] r@[k], self.children@[children_indices.start + k] as int),
        """)
    if mode != "C03": u.fn(P, "root_activities", impl="ActivityTree", ret="r", rewrites=R, contract=r"""
        requires self.ok(),
        ensures
            // exactly the nodes without a parent, each once, last first
            r@.len() == self.children@.len() - self.first_root_idx,
            forall|k: int| 0 <= k < r@.len() ==> self.is_node(#[trigger] r@[k], r@[k].activity_idx as int) && r@[k].activity.parent_idx is None,
            forall|j: int| 0 <= j < self.activities@.len() && (#[trigger] self.activities@[j]).parent_idx is None ==>
                exists|k: int| 0 <= k < r@.len() && #[trigger] r@[k].activity_idx == j,
            forall|k: int, l: int| 0 <= k < l < r@.len() ==> #[trigger] r@[k].activity_idx > #[trigger] r@[l].activity_idx,
    """, start="proof { lemma_t_roots(self.activities@, self.children@, self.first_root_idx as int); }",
         tail="""assert forall|k: int| 0 <= k < vx_ret@.len() implies (#[trigger] vx_ret@[k]).activity.parent_idx is None by {
                    let j = self.children@[self.first_root_idx + k] as int; assert(self.is_node(vx_ret@[k], j)); assert(self.activities@[j].parent_idx is None); }
                 assert forall|k: int, l: int| 0 <= k < l < vx_ret@.len() implies #[trigger] vx_ret@[k].activity_idx > #[trigger] vx_ret@[l].activity_idx by {
                    assert(self.is_node(vx_ret@[k], self.children@[self.first_root_idx + k] as int)); assert(self.is_node(vx_ret@[l], self.children@[self.first_root_idx + l] as int)); }
                 assert forall|j: int| 0 <= j < self.activities@.len() && (#[trigger] self.activities@[j]).parent_idx is None implies
                    exists|k: int| 0 <= k < vx_ret@.len() && #[trigger] vx_ret@[k].activity_idx == j by {
                    let k = choose|k: int| self.first_root_idx <= k < self.children@.len() && #[trigger] self.children@[k] == j;
                    assert(self.is_node(vx_ret@[k - self.first_root_idx], j)); }""")
    if mode != "C03": u.fn(P, "all_activities", impl="ActivityTree", ret="r", rewrites=R + [
        ("self.activities.iter().enumerate().map(|(activity_idx, activity)| $body)",
         "vx_enum_map(&self.activities, |activity_idx: usize, activity: &'s ActivityNode| -> (vx_r: ActivityTrace<'s>) ensures vx_r.activity_idx == activity_idx, *vx_r.activity == *activity, *vx_r.tree == *self, { $body })",
         "iterator adapter call -> trusted list function, closure annotated")],
        contract=r"""
        ensures r@.len() == self.activities@.len(),
            forall|k: int| 0 <= k < r@.len() ==> self.is_node(#[trigger] r@[k], k),
        """, start="proof { assert(self.activities@.len() <= usize::MAX) by { vx_len_bound(&self.activities); } }",
        tail="""assert forall|k: int| 0 <= k < vx_ret@.len() implies self.is_node(#[trigger] vx_ret@[k], k) by { assert((k as usize) as int == k); }""")
    u.fn(P, "activity_trace", impl="ActivityTree", ret="r", contract="""
        requires id < self.activities@.len(),
        ensures self.is_node(r, id as int),""")
    u.fn(P, "id", impl="ActivityTrace", ret="r", contract="ensures r == self.activity_idx,")
    u.fn(P, "start", impl="ActivityTrace", ret="r", contract="ensures r == self.activity.stat.start,")
    u.fn(P, "duration", impl="ActivityTrace", ret="r", contract="ensures r == self.activity.stat.duration,")
    u.fn(P, "self_duration", impl="ActivityTrace", ret="r", contract="ensures r == self.activity.self_duration,")
    u.fn(P, "end", impl="ActivityTrace", ret="r", contract="ensures r == t_add(self.activity.stat.start, self.activity.stat.duration),")
    u.fn(P, "direct_children", impl="ActivityTrace", ret="r", rewrites=R, contract=r"""
        requires self.ok(),
        ensures
            // exactly the nodes whose parent is this one
            K1 ==> forall|k: int| 0 <= k < r@.len() ==> self.tree.is_node(#[trigger] r@[k], r@[k].activity_idx as int)
                && is_kid(self.tree.activities@, r@[k].activity_idx as int, self.activity_idx as int),
            K1 ==> forall|j: int| 0 <= j < self.tree.activities@.len() && #[trigger] is_kid(self.tree.activities@, j, self.activity_idx as int) ==>
                exists|k: int| 0 <= k < r@.len() && #[trigger] r@[k].activity_idx == j,
            // and the time not spent in them is the self duration
            K3 ==> self.activity.self_duration == t_sub(self.activity.stat.duration,
                sum(self.tree.activities@, self.tree.children@, self.activity.children_indices.start as int, self.activity.children_indices.end as int)),
            r@.len() == self.activity.children_indices.end - self.activity.children_indices.start,
            forall|k: int| 0 <= k < r@.len() ==> self.tree.is_node(#[trigger] r@[k], r@[k].activity_idx as int),
            forall|k: int| 0 <= k < r@.len() ==> self.tree.children@[self.activity.children_indices.start + k] == #[trigger] r@[k].activity_idx,
    """, start="proof { lemma_t_kids(self.tree.activities@, self.tree.children@, self.tree.first_root_idx as int, self.activity_idx as int); }",
         tail="""let s = self.activity.children_indices.start; let i = self.activity_idx as int;
                 assert forall|k: int| 0 <= k < vx_ret@.len() implies (K1 ==> is_kid(self.tree.activities@, (#[trigger] vx_ret@[k]).activity_idx as int, i)) 
                    && self.tree.is_node(vx_ret@[k], vx_ret@[k].activity_idx as int) by {
                    let j = self.tree.children@[s + k] as int; assert(self.tree.is_node(vx_ret@[k], j));
                    assert(self.tree.children@[s + k] == j); if K1 { assert(is_kid(self.tree.activities@, j, i)); } }
                 if K1 { assert forall|j: int| 0 <= j < self.tree.activities@.len() && #[trigger] is_kid(self.tree.activities@, j, i) implies
                    exists|k: int| 0 <= k < vx_ret@.len() && #[trigger] vx_ret@[k].activity_idx == j by {
                    let k = choose|k: int| cs(self.tree.activities@, i) <= k < ce(self.tree.activities@, i) && #[trigger] self.tree.children@[k] == j;
                    assert(self.tree.is_node(vx_ret@[k - s], j)); } }""")
    if mode == "C03": return
    u.fn(P, "all_children", impl="ActivityTrace", ret="r", rewrites=R + [
        ("self.tree.activities[$i].iter().enumerate().map(move |(rel_child_idx, activity)| $body)",
         "vx_enum_map(&self.tree.activities[$i], |rel_child_idx: usize, activity: &'s ActivityNode| -> (vx_r: ActivityTrace<'s>) requires rel_child_idx + first_child_idx <= usize::MAX, ensures vx_r.activity_idx == rel_child_idx + first_child_idx, *vx_r.activity == *activity, *vx_r.tree == *self.tree, { $body })",
         "iterator adapter call -> trusted list function, closure annotated")],
        contract=r"""
        requires self.ok(),
        ensures
            // exactly the transitive descendants, in completion order
            r@.len() == self.activity_idx - self.activity.first_related_idx,
            forall|k: int| 0 <= k < r@.len() ==> self.tree.is_node(#[trigger] r@[k], self.activity.first_related_idx + k)
                && under(self.tree.activities@, r@[k].activity_idx as int, self.activity_idx as int),
        """, start="proof { lemma_t_node(self.tree.activities@, self.tree.children@, self.tree.first_root_idx as int, self.activity_idx as int); }",
        tail="""assert forall|k: int| 0 <= k < vx_ret@.len() implies self.tree.is_node(#[trigger] vx_ret@[k], self.activity.first_related_idx + k) by { assert((k as usize) as int == k); }""")
    u.fn(P, "parent", impl="ActivityTrace", ret="r", rewrites=[
        ("self.activity.parent_idx.map(|idx| $body)",
         "match self.activity.parent_idx { Some(idx) => Some($body), None => None }", "Option::map spelled out"),
        ("Option<ActivityTrace>", "Option<ActivityTrace<'_>>", "elided lifetime spelled out"),
        ("usize::from(idx)", "idx.get()", "NonZeroUsize to usize")],
        contract=r"""
        requires self.ok(),
        ensures match r { None => self.activity.parent_idx is None,
            Some(p) => is_kid(self.tree.activities@, self.activity_idx as int, p.activity_idx as int) && self.tree.is_node(p, p.activity_idx as int) },
        """, start="proof { lemma_t_node(self.tree.activities@, self.tree.children@, self.tree.first_root_idx as int, self.activity_idx as int); }")
