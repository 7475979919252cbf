"""C14, C15: analysis of a trace and the stdio profile (src/trace.rs, src/ui/stdio.rs, src/ui/mod.rs)."""
from .display import base, float_model, activity
R = "src/trace.rs"
S = "src/ui/stdio.rs"

TRACE = r"""
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Act { x: u8 }   // an activity of a trace
pub uninterp spec fn dur(k: Act) -> T;
pub uninterp spec fn self_dur(k: Act) -> T;
pub uninterp spec fn kids(k: Act) -> Seq<Act>;
pub uninterp spec fn name_of(k: Act) -> Seq<char>;
#[verifier::external_body] pub struct ClangTrace {}
pub uninterp spec fn all(t: ClangTrace) -> Seq<Act>;
pub uninterp spec fn roots(t: ClangTrace) -> Seq<Act>;
pub struct ActivityTrace { pub k: Act }
pub type ActivityTraceId = Act;
pub open spec fn keys(s: Seq<ActivityTrace>) -> Seq<Act> { s.map(|_i: int, a: ActivityTrace| a.k) }
#[verifier::external_body] pub struct VxActs { v: Vec<ActivityTrace> }
impl VxActs {
    pub uninterp spec fn view(&self) -> Seq<Act>;
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn vx_list(self) -> (r: Vec<ActivityTrace>) ensures keys(r@) == self@ { unimplemented!() }
}
impl ClangTrace {
    #[verifier::external_body] pub fn all_activities(&self) -> (r: VxActs) ensures r@ == all(*self) { unimplemented!() }
    #[verifier::external_body] pub fn root_activities(&self) -> (r: VxActs) ensures r@ == roots(*self) { unimplemented!() }
    #[verifier::external_body] pub fn activity_trace(&self, id: ActivityTraceId) -> (r: ActivityTrace) ensures r.k == id { unimplemented!() }
}
impl ActivityTrace {
    #[verifier::external_body] pub fn id(&self) -> (r: ActivityTraceId) ensures r == self.k { unimplemented!() }
    #[verifier::external_body] pub fn duration(&self) -> (r: T) ensures r == dur(self.k) { unimplemented!() }
    #[verifier::external_body] pub fn self_duration(&self) -> (r: T) ensures r == self_dur(self.k) { unimplemented!() }
    #[verifier::external_body] pub fn direct_children(&self) -> (r: VxActs) ensures r@ == kids(self.k) { unimplemented!() }
    #[verifier::external_body] pub fn activity(&self) -> (r: &Activity) ensures r.k() == self.k { unimplemented!() }
}
#[verifier::external_body] pub struct Activity {}
impl Activity {
    pub uninterp spec fn k(&self) -> Act;
    #[verifier::external_body] pub fn name(&self) -> (r: &str) ensures r@ == name_of(self.k()) { unimplemented!() }
}
"""
HOT = r"""
// ---- C14: the hottest activities ----
pub open spec fn kept(a: Seq<Act>, crit: spec_fn(Act) -> T, thr: T) -> Seq<Act> { a.filter(keep(crit, thr)) }
pub open spec fn keep(crit: spec_fn(Act) -> T, thr: T) -> spec_fn(Act) -> bool { |k: Act| ge(crit(k), thr) }
pub open spec fn falling(s: Seq<Act>, crit: spec_fn(Act) -> T) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> ge(crit(#[trigger] s[i]), crit(#[trigger] s[j])) }
pub open spec fn hottest(a: Seq<Act>, crit: spec_fn(Act) -> T, thr: T, h: Seq<Act>) -> bool { h.to_multiset() == kept(a, crit, thr).to_multiset() && falling(h, crit) }
pub open spec fn rising(r: int) -> int { -r }
#[verifier::external_body] fn vx_filter<F: Fn(&ActivityTrace) -> bool>(it: VxActs, f: F, Ghost(p): Ghost<spec_fn(Act) -> bool>) -> (r: Box<[ActivityTrace]>)
    requires forall|a: ActivityTrace| #[trigger] f.requires((&a,)), forall|a: ActivityTrace, b: bool| #[trigger] f.ensures((&a,), b) ==> b == p(a.k),
    ensures keys(r@) == it@.filter(p) { unimplemented!() }
// any order that agrees with a numeric key
#[verifier::external_body] fn vx_sort<F: Fn(&ActivityTrace, &ActivityTrace) -> core::cmp::Ordering>(v: &mut Box<[ActivityTrace]>, f: F, Ghost(key): Ghost<spec_fn(Act) -> int>)
    requires forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> #[trigger] f.requires((&old(v)@[i], &old(v)@[j])),
        forall|a: ActivityTrace, b: ActivityTrace, o: core::cmp::Ordering| #[trigger] f.ensures((&a, &b), o) ==> o == cmp_of(key(a.k), key(b.k)),
    ensures keys(final(v)@).to_multiset() == keys(old(v)@).to_multiset(), final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> key(#[trigger] keys(final(v)@)[i]) <= key(#[trigger] keys(final(v)@)[j]) { unimplemented!() }
pub open spec fn cmp_of(a: int, b: int) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
pub proof fn lemma_member(a: Seq<Act>, b: Seq<Act>) requires a.to_multiset() == b.to_multiset(), ensures forall|i: int| 0 <= i < b.len() ==> a.contains(#[trigger] b[i]), a.len() == b.len() {
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|i: int| 0 <= i < b.len() implies a.contains(#[trigger] b[i]) by { assert(b.contains(b[i])); assert(b.to_multiset().count(b[i]) > 0); assert(a.to_multiset().count(b[i]) > 0); }
}
"""
def model(name):
    u = base(name)
    float_model(u)
    u.trust("ClangTrace and ActivityTrace accessors as in C01, C03 and C11; nothing changes the activities of a loaded trace (parsing arguments only adds to interners)", TRACE)
    return u

LIT = [("1.0 / $a", "vx_num(1) / $a", "literal"), ("100.0", "vx_num(100)", "literal")]
def hot(u):
    u.trust("Iterator::filter and collect keep, in order, the items for which the closure returns true; sort_unstable_by permutes and sorts when the order is that of some numeric key", HOT)
    u.fn(R, "hottest_activities", sig="pub fn hottest_activities<F: Fn(&ActivityTrace) -> Duration>(activities: VxActs, duration: F, threshold: Duration, Ghost(crit): Ghost<spec_fn(Act) -> T>) -> (r: Box<[ActivityTrace]>)",
        rewrites=[("let mut $i_v = activities.filter(|$i_a| $e).collect::<Box<[_]>>();",
                   "let mut $i_v = vx_filter(activities, |$i_a: &ActivityTrace| -> (b: bool) ensures b == ge(crit($i_a.k), threshold) { $e }, Ghost(keep(crit, threshold))); let ghost vx_kept = keys($i_v@);", "std filter"),
                  ("children.sort_unstable_by(|$i_a, $i_b| { $b_x });", "vx_sort(&mut children, |$i_a: &ActivityTrace, $i_b: &ActivityTrace| -> (o: core::cmp::Ordering) requires !crit($i_a.k).nan(), !crit($i_b.k).nan() ensures o == cmp_of(-crit($i_a.k).r(), -crit($i_b.k).r()) { $b_x }, Ghost(|k: Act| -crit(k).r()));", "std sort")],
        contract=r"""
        requires forall|a: ActivityTrace| #[trigger] duration.requires((&a,)), forall|a: ActivityTrace, d: T| #[trigger] duration.ensures((&a,), d) ==> d == crit(a.k),
        ensures hottest(activities@, crit, threshold, keys(r@)), """,
        hints=[("before", "vx_sort(", """proof {
            let p = keep(crit, threshold);
            assert forall|i: int| 0 <= i < children@.len() implies !crit(#[trigger] children@[i].k).nan() by { assert(keys(children@)[i] == children@[i].k); assert(activities@.filter(p).contains(keys(children@)[i])); activities@.lemma_filter_pred(p, i); }
        } """), ("after", "Ghost(|k: Act| -crit(k).r()));", """proof {
            let h = keys(children@); let p = keep(crit, threshold); lemma_member(vx_kept, h);
            assert forall|i: int| 0 <= i < h.len() implies !crit(#[trigger] h[i]).nan() by { let m = vx_kept.index_of(h[i]); assert(vx_kept.contains(h[i])); activities@.lemma_filter_pred(p, m); }
            assert forall|i: int, j: int| 0 <= i < j < h.len() implies ge(crit(#[trigger] h[i]), crit(#[trigger] h[j])) by {}
        } """)])

def assuming(u, p, *parts):
    """add parts with the contracts that the check of property p discharges"""
    u.assumed = p
    for f in parts: f(u)
    u.assumed = None

BREAK = r"""
// ---- C14: self time by activity name ----
pub open spec fn total(a: Seq<Act>, n: Seq<char>) -> T decreases a.len() {
    if a.len() == 0 { t_num(0) } else if name_of(a.last()) == n { t_add(total(a.drop_last(), n), self_dur(a.last())) } else { total(a.drop_last(), n) }
}
pub open spec fn has_name(a: Seq<Act>, n: Seq<char>) -> bool { exists|i: int| 0 <= i < a.len() && name_of(#[trigger] a[i]) == n }
pub open spec fn by_name(a: Seq<Act>) -> Map<Seq<char>, T> decreases a.len() {
    if a.len() == 0 { Map::empty() } else { let m = by_name(a.drop_last()); let n = name_of(a.last()); m.insert(n, t_add(if m.dom().contains(n) { m[n] } else { t_num(0) }, self_dur(a.last()))) }
}
// that is, the names that occur, each with the sum of its self times in order
pub proof fn lemma_by_name(a: Seq<Act>) ensures forall|n: Seq<char>| #[trigger] by_name(a).dom().contains(n) <==> has_name(a, n), forall|n: Seq<char>| has_name(a, n) ==> #[trigger] by_name(a)[n] == total(a, n), forall|n: Seq<char>| !has_name(a, n) ==> #[trigger] total(a, n) == t_num(0), decreases a.len() {
    if a.len() > 0 {
        let b = a.drop_last(); lemma_by_name(b); let n0 = name_of(a.last());
        assert forall|n: Seq<char>| has_name(a, n) == (has_name(b, n) || n == n0) by {
            if has_name(a, n) && n != n0 { let j = choose|j: int| 0 <= j < a.len() && name_of(#[trigger] a[j]) == n; assert(b[j] == a[j]); }
            if has_name(b, n) { let j = choose|j: int| 0 <= j < b.len() && name_of(#[trigger] b[j]) == n; assert(a[j] == b[j]); }
            if n == n0 { assert(name_of(a[a.len() - 1]) == n); } }
        assert forall|n: Seq<char>| has_name(a, n) implies #[trigger] by_name(a)[n] == total(a, n) by { if n == n0 { if !has_name(b, n) { assert(total(b, n) == t_num(0)); } else { assert(by_name(b)[n] == total(b, n)); } } else { assert(by_name(b)[n] == total(b, n)); } }
        assert forall|n: Seq<char>| !has_name(a, n) implies #[trigger] total(a, n) == t_num(0) by { assert(total(b, n) == t_num(0)); }
    }
}

pub type Entry = (Seq<char>, T);
pub open spec fn entries(v: Seq<(VxString, T)>) -> Seq<Entry> { v.map(|_i: int, e: (VxString, T)| (e.0@, e.1)) }
// one entry per name, with its total
pub open spec fn lists(m: Map<Seq<char>, T>, p: Seq<Entry>) -> bool {
    &&& forall|i: int| 0 <= i < p.len() ==> m.dom().contains((#[trigger] p[i]).0) && p[i].1 == m[p[i].0]
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> (#[trigger] p[i]).0 != (#[trigger] p[j]).0
    &&& forall|n: Seq<char>| #[trigger] m.dom().contains(n) ==> exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == n
}
pub open spec fn breakdown(a: Seq<Act>, p: Seq<Entry>) -> bool { lists(by_name(a), p) && forall|i: int, j: int| 0 <= i < j < p.len() ==> ge((#[trigger] p[i]).1, (#[trigger] p[j]).1) }
#[verifier::external_body] pub struct VxMap {}
impl VxMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_bump(&mut self, n: &str, d: T) ensures final(self)@ == old(self)@.insert(n@, t_add(if old(self)@.dom().contains(n@) { old(self)@[n@] } else { t_num(0) }, d)) { unimplemented!() }
    #[verifier::external_body] pub fn vx_pairs(self) -> (r: Box<[(VxString, T)]>) ensures lists(self@, entries(r@)) { unimplemented!() }
}
#[verifier::external_body] fn vx_sort_pairs<F: Fn(&(VxString, T), &(VxString, T)) -> core::cmp::Ordering>(v: &mut Box<[(VxString, T)]>, f: F, Ghost(key): Ghost<spec_fn(Entry) -> int>)
    requires forall|i: int, j: int| 0 <= i < old(v)@.len() && 0 <= j < old(v)@.len() ==> #[trigger] f.requires((&old(v)@[i], &old(v)@[j])),
        forall|a: (VxString, T), b: (VxString, T), o: core::cmp::Ordering| #[trigger] f.ensures((&a, &b), o) ==> o == cmp_of(key((a.0@, a.1)), key((b.0@, b.1))),
    ensures entries(final(v)@).to_multiset() == entries(old(v)@).to_multiset(), final(v)@.len() == old(v)@.len(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> key(#[trigger] entries(final(v)@)[i]) <= key(#[trigger] entries(final(v)@)[j]) { unimplemented!() }
proof fn lemma_lists(m: Map<Seq<char>, T>, p: Seq<Entry>, q: Seq<Entry>) requires lists(m, p), p.to_multiset() == q.to_multiset(), ensures lists(m, q) {
    p.to_multiset_ensures(); q.to_multiset_ensures();
    assert forall|i: int| 0 <= i < q.len() implies m.dom().contains((#[trigger] q[i]).0) && q[i].1 == m[q[i].0] by { assert(q.contains(q[i])); assert(q.to_multiset().count(q[i]) > 0); assert(p.to_multiset().count(q[i]) > 0); assert(p.contains(q[i])); }
    assert(p.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { if i < j { assert(p[i].0 != p[j].0); } else { assert(p[j].0 != p[i].0); } } }
    p.lemma_multiset_has_no_duplicates();
    q.lemma_multiset_has_no_duplicates_conv();
    assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).0 != (#[trigger] q[j]).0 by { assert(q[i] != q[j]); }
    assert forall|n: Seq<char>| #[trigger] m.dom().contains(n) implies exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == n by {
        let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == n; assert(p.contains(p[i])); assert(p.to_multiset().count(p[i]) > 0); assert(q.to_multiset().count(p[i]) > 0); assert(q.contains(p[i])); let j = q.index_of(p[i]); assert(q[j].0 == n); }
}
// sums of self times stay numbers
pub open spec fn summable(a: Seq<Act>) -> bool { forall|n: Seq<char>| has_name(a, n) ==> !(#[trigger] total(a, n)).nan() }
pub uninterp spec fn t_sum(s: Seq<T>) -> T;
#[verifier::external_body] fn vx_sum<F: Fn(ActivityTrace) -> T>(it: VxActs, f: F, Ghost(g): Ghost<spec_fn(Act) -> T>) -> (r: T)
    requires forall|a: ActivityTrace| #[trigger] f.requires((a,)), forall|a: ActivityTrace, d: T| #[trigger] f.ensures((a,), d) ==> d == g(a.k),
    ensures r == t_sum(it@.map(|_i: int, k: Act| g(k))) { unimplemented!() }
pub open spec fn norm_of(r: Seq<Act>) -> T { t_div(t_num(1), t_sum(r.map(|_i: int, k: Act| dur_fn()(k)))) }
pub open spec fn dur_fn() -> spec_fn(Act) -> T { |k: Act| dur(k) }
"""
def breakdown(u):
    u.trust("HashMap entry/or_default/into_iter as documented (each key once); Iterator::map and sum are an uninterpreted function of the mapped items", BREAK)
    u.fn(R, "duration_norm", sig="pub fn duration_norm(roots: VxActs) -> (r: Duration)",
        rewrites=LIT + [("roots.map(|$i_a| $e).sum::<f64>()", "vx_sum(roots, |$i_a: ActivityTrace| -> (d: T) ensures d == dur($i_a.k) { $e }, Ghost(dur_fn()))", "std sum")],
        contract="ensures r == norm_of(roots@),")
    u.fn(R, "activity_type_breakdown", sig="pub fn activity_type_breakdown(trace: &ClangTrace) -> (r: Box<[(VxString, Duration)]>)",
        rewrites=[("HashMap::<Box<str>, Duration>::new()", "VxMap::new()", "std map"), ("*$i_m.entry($a.into()).or_default() += $b;", "$i_m.vx_bump($a, $b);", "std map entry"),
            ("$i_m.into_iter().collect::<Box<[_]>>()", "$i_m.vx_pairs()", "std map"), ("in trace.all_activities() {", "in trace.all_activities().vx_list() {", "iterator as the list of its items"),
            ("profile.sort_unstable_by(|(_, $i_a), (_, $i_b)| { $b_x });", "vx_sort_pairs(&mut profile, |vx_a: &(VxString, T), vx_b: &(VxString, T)| -> (o: core::cmp::Ordering) requires !vx_a.1.nan(), !vx_b.1.nan() ensures o == cmp_of(-vx_a.1.r(), -vx_b.1.r()) { let $i_a = &vx_a.1; let $i_b = &vx_b.1; $b_x }, Ghost(|e: Entry| -e.1.r()));", "std sort"),
            ("$i_x.partial_cmp($i_y)", "$i_x.partial_cmp($i_y)", "")][:-1],
        contract="requires summable(all(*trace)), ensures breakdown(all(*trace), entries(r@)),",
        start="let ghost a = all(*trace);", attrs="#[verifier::loop_isolation(false)]",
        loops=[dict(kw="for", it="it", before="proof { assert(by_name(a.subrange(0, 0)) =~= Map::<Seq<char>, T>::empty()); }",
            inv="invariant keys(it.seq()) == a, profile@ =~= by_name(a.subrange(0, it.index@ as int)),",
            start="let ghost i = it.index@ as int; proof { assert(keys(it.seq())[i] == activity_trace.k); }",
            end="proof { let c = a.subrange(0, i + 1); assert(c.drop_last() =~= a.subrange(0, i)); assert(c.last() == a[i]); }",
            after="proof { assert(a.subrange(0, a.len() as int) =~= a); lemma_by_name(a); }")],
        hints=[("before", "vx_sort_pairs(", "let ghost p0 = entries(profile@); proof { assert forall|i: int| 0 <= i < profile@.len() implies !(#[trigger] profile@[i]).1.nan() by { assert(p0[i] == (profile@[i].0@, profile@[i].1)); } }"),
               ("after", "Ghost(|e: Entry| -e.1.r()));", "proof { let q = entries(profile@); lemma_lists(by_name(a), p0, q); assert forall|i: int, j: int| 0 <= i < j < q.len() implies ge((#[trigger] q[i]).1, (#[trigger] q[j]).1) by { assert(by_name(a).dom().contains(q[i].0)); assert(by_name(a).dom().contains(q[j].0)); } }")])

UI = "src/ui/mod.rs"
ARGS = r"""
// ---- arguments as shown: parsed (C12), else the detail text ----
pub enum Content { Nothing, Text(Seq<char>), Other(int) }
#[verifier::external_body] pub struct VxParsed {}
impl VxParsed { pub uninterp spec fn v(&self) -> int; }
pub enum ParsedActivityArgument { String(VxString), Nothing, Other(VxParsed) }
impl ParsedActivityArgument {
    pub open spec fn content(self) -> Content { match self { ParsedActivityArgument::String(s) => Content::Text(s@), ParsedActivityArgument::Nothing => Content::Nothing, ParsedActivityArgument::Other(o) => Content::Other(o.v()) } }
    #[verifier::external_body] fn resolve(&self, trace: &ClangTrace) -> (r: ActivityArgument) ensures content_of(r) == self.content() { unimplemented!() }
}
uninterp spec fn content_of(a: ActivityArgument) -> Content;
pub uninterp spec fn detail_of(k: Act) -> Option<Seq<char>>;
pub uninterp spec fn parse_of(k: Act) -> Option<Content>;
#[verifier::external_body] pub struct RawActivityArgument {}
#[verifier::external_body] pub struct VxArgError {}
impl RawActivityArgument {
    pub uninterp spec fn k(&self) -> Act;
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.k() == self.k() { unimplemented!() }
    #[verifier::external_body] pub fn detail(&self) -> (r: Option<VxString>) ensures match r { Some(d) => detail_of(self.k()) == Some(d@), None => detail_of(self.k()) is None } { unimplemented!() }
    #[verifier::external_body] pub fn parse(&self, trace: &mut ClangTrace) -> (r: Result<ParsedActivityArgument, VxArgError>)
        ensures all(*final(trace)) == all(*old(trace)), roots(*final(trace)) == roots(*old(trace)), match r { Ok(p) => parse_of(self.k()) == Some(p.content()), Err(_) => parse_of(self.k()) is None } { unimplemented!() }
}
impl Activity {
    #[verifier::external_body] pub fn raw_argument(&self) -> (r: &RawActivityArgument) ensures r.k() == self.k() { unimplemented!() }
    #[verifier::external_body] pub fn id(&self) -> (r: &ActivityId) ensures *r == aid(self.k()), r.text() == name_of(self.k()) { unimplemented!() }
}
pub uninterp spec fn aid(k: Act) -> ActivityId;
pub open spec fn argument(k: Act) -> Content { match parse_of(k) { Some(c) => c, None => match detail_of(k) { Some(d) => Content::Text(d), None => Content::Nothing } } }
pub open spec fn same_trace(a: ClangTrace, b: ClangTrace) -> bool { all(a) == all(b) && roots(a) == roots(b) }
// one line about an activity
spec fn line_of(k: Act, cols: int, d: T, norm: T, t: Seq<char>) -> bool { exists|a: ActivityArgument| content_of(a) == argument(k) && #[trigger] activity_shown(aid(k), a, cols, profile(d, norm), t) }
"""
OUT = r"""
use crate::io::Write;
#[verifier::external_body] pub struct VxOut {}   // standard output
impl VxOut { #[verifier::external_body] pub fn vx_print(&mut self, t: VxText) ensures final(self).out() == old(self).out() + t@ { unimplemented!() } }
impl io::Write for VxOut { uninterp spec fn out(&self) -> Seq<char>; #[verifier::external_body] fn vx_write(&mut self, t: VxText) -> (r: io::Result<()>) { unimplemented!() } }
#[verifier::external_body] fn vx_written(r: io::Result<()>) ensures r is Ok { unimplemented!() }
#[verifier::external_body] pub fn vx_eprint() { unimplemented!() }
pub uninterp spec fn dec(n: usize) -> Seq<char>;
impl VxShow for usize { open spec fn shown(&self) -> Seq<char> { dec(*self) } }
impl vstd::std_specs::ops::MulSpecImpl<T> for &T {
    open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, r: T) -> bool { true } open spec fn mul_spec(self, r: T) -> T { t_mul(*self, r) }
}
impl core::ops::Mul<T> for &T { type Output = T; #[verifier::external_body] fn mul(self, o: T) -> T { unimplemented!() } }
#[verifier::external_body] fn vx_root_ids(t: &ClangTrace) -> (r: Vec<ActivityTraceId>) ensures r@ == roots(*t) { unimplemented!() }
#[verifier::external_body] fn vx_ids(h: &Box<[ActivityTrace]>) -> (r: Vec<ActivityTraceId>) ensures r@ == keys(h@) { unimplemented!() }
"""
LIST = r"""
// ---- C14: the flat listings ----
pub open spec fn below(n: int, what: Seq<char>, thr: T) -> Seq<char> { "- ... and "@ + dec(n as usize) + what + fixed2(t_mul(thr, t_num(100))) + "% ...\n"@ }
// the entries that reach the threshold, in order, then the number of the others
pub open spec fn types_listed(p: Seq<Entry>, i: int, norm: T, thr: T) -> Seq<char> decreases p.len() - i {
    if i < 0 || i >= p.len() { seq![] }
    else if lt(t_mul(p[i].1, norm), thr) { below(p.len() - i, " other activity types below "@, thr) }
    else { "- "@ + p[i].0 + profile(p[i].1, norm) + "\n"@ + types_listed(p, i + 1, norm, thr) }
}
pub open spec fn bullets(l: Seq<Seq<char>>) -> Seq<char> decreases l.len() { if l.len() == 0 { seq![] } else { bullets(l.drop_last()) + "- "@ + l.last() + "\n"@ } }
spec fn lines_of(h: Seq<Act>, cols: int, norm: T, l: Seq<Seq<char>>) -> bool { l.len() == h.len() && forall|i: int| 0 <= i < l.len() ==> line_of(h[i], cols, self_dur(h[i]), norm, #[trigger] l[i]) }
pub open spec fn self_crit(norm: T) -> spec_fn(Act) -> T { |k: Act| t_mul(self_dur(k), norm) }
spec fn flat(a: Seq<Act>, norm: T, thr: T, cols: int, h: Seq<Act>, l: Seq<Seq<char>>, t: Seq<char>) -> bool {
    &&& hottest(a, self_crit(norm), thr, h)
    &&& lines_of(h, cols, norm, l)
    &&& t == "\nHottest activities by self-duration:\n"@ + bullets(l) + (if h.len() < a.len() { below(a.len() - h.len(), " other activities below "@, thr) } else { seq![] })
}
"""
KEPT = r"""
proof fn lemma_kept(a: Seq<Act>, crit: spec_fn(Act) -> T, thr: T, h: Seq<Act>) requires hottest(a, crit, thr, h), ensures h.len() <= a.len(),
    h.len() == a.len() <==> forall|i: int| 0 <= i < a.len() ==> ge(crit(#[trigger] a[i]), thr) {
    let k = kept(a, crit, thr); k.to_multiset_ensures(); h.to_multiset_ensures(); assert(h.len() == k.len()); lemma_all(a, crit, thr);
}
proof fn lemma_all(a: Seq<Act>, crit: spec_fn(Act) -> T, thr: T) ensures kept(a, crit, thr).len() <= a.len(), kept(a, crit, thr).len() == a.len() <==> forall|i: int| 0 <= i < a.len() ==> ge(crit(#[trigger] a[i]), thr) decreases a.len() {
    reveal(Seq::filter); if a.len() > 0 { let b = a.drop_last(); lemma_all(b, crit, thr);
        assert forall|i: int| 0 <= i < b.len() implies b[i] == a[i] by {} assert(a.last() == a[a.len() - 1]);
        if kept(a, crit, thr).len() == a.len() { assert(kept(b, crit, thr).len() == b.len()); assert forall|i: int| 0 <= i < a.len() implies ge(crit(#[trigger] a[i]), thr) by { if i < b.len() { assert(ge(crit(b[i]), thr)); } } }
        else if forall|i: int| 0 <= i < a.len() ==> ge(crit(#[trigger] a[i]), thr) { assert forall|i: int| 0 <= i < b.len() implies ge(crit(#[trigger] b[i]), thr) by { assert(ge(crit(a[i]), thr)); } } }
}
"""
def listing_args(u):
    u.raw(KEPT)
    u.trust("RawActivityArgument::{parse, detail} and ParsedActivityArgument::resolve as in C12; parsing leaves the activities of the trace alone", ARGS)
    u.trust("standard output collects what is printed to it (the program ends if it cannot be written to); Iterator::map over ids", OUT)
    u.fn(UI, "force_parse_arg", ret="r", rewrites=[("log::error!($x);", "", "log not modelled")],
        contract="ensures same_trace(*old(trace), *final(trace)), r.content() == argument(id),")
def listing(u):
    listing_args(u)
    u.raw(LIST)
    u.fn(S, "print_activity_type_profile", fmt=True, attrs="#[verifier::loop_isolation(false)]", sig="fn print_activity_type_profile(vx_out: &mut VxOut, trace: &ClangTrace, duration_norm: Duration, threshold: Duration)",
        rewrites=LIT + [("trace::activity_type_breakdown", "activity_type_breakdown", "path"), ("for ($i_n, ($i_a, $i_b)) in $i_x.iter().enumerate() { $b_x }", "for $i_n in 0usize..$i_x.len() { let $i_a = &$i_x[$i_n].0; let $i_b = &$i_x[$i_n].1; $b_x }", "iterator as indices"),
            ("display_profile_info(std::io::stdout(), $x).expect($m)", "vx_written(display_profile_info(vx_out, $x))", "standard output")],
        contract=r"""
        requires summable(all(*trace)),
        ensures exists|p: Seq<Entry>| breakdown(all(*trace), p) && final(vx_out).out() == old(vx_out).out() + ("\nSelf-duration breakdown by activity type:\n"@ + #[trigger] types_listed(p, 0, duration_norm, threshold)), """,
        start="let ghost out0 = vx_out.out();",
        loops=[dict(kw="for", it="it", before="let ghost p = entries(activity_type_breakdown@); let ghost head = \"\\nSelf-duration breakdown by activity type:\\n\"@; proof { assert(out0 + (head + types_listed(p, 0, duration_norm, threshold)) =~= out0 + head + types_listed(p, 0, duration_norm, threshold)); }",
            inv="""invariant_except_break vx_out.out() + types_listed(p, it.index@ as int, duration_norm, threshold) == out0 + (head + types_listed(p, 0, duration_norm, threshold)),
                invariant it.seq().len() == activity_type_breakdown@.len(), forall|j: int| 0 <= j < it.seq().len() ==> it.seq()[j] == j, p == entries(activity_type_breakdown@),
                ensures vx_out.out() == out0 + (head + types_listed(p, 0, duration_norm, threshold)),""",
            start="let ghost o = vx_out.out(); let ghost i = it.index@ as int; proof { assert(p[i] == (activity_type_breakdown@[i].0@, activity_type_breakdown@[i].1)); }",
            end="proof { let r = types_listed(p, i + 1, duration_norm, threshold); assert(vx_out.out() + r =~= o + (\"- \"@ + p[i].0 + profile(p[i].1, duration_norm) + \"\\n\"@ + r)); }")],
        hints=[("before", "break;", "proof { assert(vx_out.out() =~= o + below(p.len() - i, \" other activity types below \"@, threshold)); }")])

    HC = ("hottest_activities($a, |$i_a| $e, threshold,)", "hottest_activities($a, |$i_a: &ActivityTrace| -> (d: T) ensures d == crit($i_a.k) { $e }, threshold, Ghost(crit))", "criterion as a specified closure")
    u.fn(S, "print_flat_profile", fmt=True, attrs="#[verifier::loop_isolation(false)]", sig="fn print_flat_profile(vx_out: &mut VxOut, trace: &mut ClangTrace, duration_norm: Duration, threshold: Duration, max_cols: u16)",
        rewrites=LIT + [("trace::hottest_activities", "hottest_activities", "path"), HC, ("hottest.iter().map(ActivityTrace::id).collect::<Vec<_>>()", "vx_ids(&hottest)", "iterator as the list of its items"),
            ("in hottest_ids.into_iter()", "in hottest_ids", "same iteration"), ("crate::ui::force_parse_arg", "force_parse_arg", "path"),
            ("display_activity(std::io::stdout(), $x).expect($m)", "vx_written(display_activity(vx_out, $x))", "standard output")],
        contract=r"""
        requires max_cols >= 3,
        ensures same_trace(*old(trace), *final(trace)), exists|h: Seq<Act>, l: Seq<Seq<char>>, t: Seq<char>| final(vx_out).out() == old(vx_out).out() + t && #[trigger] flat(all(*final(trace)), duration_norm, threshold, max_cols - 2, h, l, t), """,
        outer="let ghost mut h: Seq<Act> = seq![]; let ghost trace0 = *trace; let ghost out0 = vx_out.out(); let ghost head = \"\\nHottest activities by self-duration:\\n\"@; let ghost crit = self_crit(duration_norm); let ghost mut l: Seq<Seq<char>> = seq![];",
        loops=[dict(kw="for", it="it", before="proof { h = hottest_ids@; lemma_kept(all(trace0), crit, threshold, h); assert(out0 + head + bullets(l) =~= out0 + head); }",
            inv="invariant it.seq() == h, same_trace(trace0, *trace), l.len() == it.index@, vx_out.out() == out0 + head + bullets(l), forall|i: int| 0 <= i < l.len() ==> line_of(h[i], max_cols - 2, self_dur(h[i]), duration_norm, #[trigger] l[i]),",
            start="let ghost i = it.index@ as int; let ghost o = vx_out.out(); proof { assert(id == h[i]); }",
            end="""proof {
                let x = choose|x: Seq<char>| o2 == #[trigger] (o + "- "@ + x) && line_of(id, max_cols - 2, self_dur(id), duration_norm, x);
                let m = l.push(x); assert(m.drop_last() =~= l); assert(vx_out.out() =~= out0 + head + bullets(m)); l = m; }""",
            after="proof { assert(lines_of(h, max_cols - 2, duration_norm, l)); }")],
        hints=[("before", 'vx_out.vx_print(vx_lit("\\n"));', """let ghost o2 = vx_out.out(); proof {
                let (a, x) = choose|a: ActivityArgument, x: Seq<char>| content_of(a) == argument(id) && #[trigger] activity_shown(aid(id), a, max_cols - 2, profile(self_dur(id), duration_norm), x) && o2 == o + "- "@ + x;
                assert(line_of(id, max_cols - 2, self_dur(id), duration_norm, x)); assert(o2 == o + "- "@ + x); }""")],
        tail="""let t = head + bullets(l) + (if h.len() < all(trace0).len() { below(all(trace0).len() - h.len(), " other activities below "@, threshold) } else { seq![] });
            assert(vx_out.out() =~= out0 + t); assert(flat(all(*trace), duration_norm, threshold, max_cols - 2, h, l, t));""")

def make_listing():
    u = model("profile_listing")
    assuming(u, "C09", activity)
    hot(u)
    breakdown(u)
    listing(u)
    return u

TREE = r"""
// ---- C15: the hierarchical profile ----
pub struct Node { pub text: Seq<char>, pub leaves: Seq<Node> }
#[derive(Clone, Copy)] pub struct GlyphPalette { pub middle_item: &'static str, pub last_item: &'static str, pub item_indent: &'static str, pub middle_skip: &'static str, pub last_skip: &'static str, pub skip_indent: &'static str }
#[verifier::external_body] pub struct Tree {}
impl Tree {
    pub uninterp spec fn view(&self) -> Node;
    pub uninterp spec fn glyphs(&self) -> GlyphPalette;
    #[verifier::external_body] pub fn new(t: VxString) -> (r: Tree) ensures r@ == (Node { text: t@, leaves: seq![] }) { unimplemented!() }
    #[verifier::external_body] pub fn with_glyphs(self, p: GlyphPalette) -> (r: Tree) ensures r@ == self@, r.glyphs() == p { unimplemented!() }
    #[verifier::external_body] pub fn with_leaves(self, l: Vec<Tree>) -> (r: Tree) ensures r@ == (Node { text: self@.text, leaves: l@.map(|_i: int, x: Tree| x@) }), r.glyphs() == self.glyphs() { unimplemented!() }
}
// the tree as printed, line feed after each line included (termtree)
pub uninterp spec fn rendered(t: Tree) -> Seq<char>;
impl VxShow for Tree { open spec fn shown(&self) -> Seq<char> { rendered(*self) } }
impl VxBytes { #[verifier::external_body] fn vx_owned_text(self) -> (r: VxString) ensures r@ == self@ { unimplemented!() } }
"""
TSPEC = r"""
pub open spec fn glyph_cols(p: GlyphPalette) -> int { width(p.middle_item@) as int + width(p.item_indent@) }
pub open spec fn narrow(p: GlyphPalette) -> bool { 1 <= width(p.middle_item@) <= 0xffff && width(p.item_indent@) <= 0xffff }
pub open spec fn dur_crit(norm: T) -> spec_fn(Act) -> T { |k: Act| t_mul(dur(k), norm) }
pub open spec fn rest(n: int, cols: int, thr: T) -> Seq<char> { let t = "…"@ + dec(n as usize) + " callee(s) below "@ + fixed2(t_mul(thr, t_num(100))) + "%…"@; if width(t) > cols { seq!['…'] } else { t } }
spec fn shows(k: Act, norm: T, thr: T, cols: int, g: int, t: Node) -> bool decreases cols {
    &&& line_of(k, cols, dur(k), norm, t.text)
    &&& if cols <= g || g <= 0 { t.leaves.len() == 0 } else { exists|h: Seq<Act>| #[trigger] children_shown(k, norm, thr, cols - g, h, t.leaves) && forall|i: int| 0 <= i < h.len() ==> shows(h[i], norm, thr, cols - g, g, #[trigger] t.leaves[i]) }
}
// the hottest children, hottest first, then a line about the others, if any
spec fn children_shown(k: Act, norm: T, thr: T, cols: int, h: Seq<Act>, l: Seq<Node>) -> bool {
    &&& hottest(kids(k), dur_crit(norm), thr, h)
    &&& l.len() == h.len() + (if h.len() < kids(k).len() { 1int } else { 0 })
    &&& (h.len() < kids(k).len() ==> l[h.len() as int] == (Node { text: rest(kids(k).len() - h.len(), cols, thr), leaves: seq![] }))
}
// nothing in it is too wide, the columns taken by the glyphs included
spec fn all_fit(t: Node, cols: int, g: int) -> bool decreases cols { width(t.text) <= cols && (t.leaves.len() == 0 || cols > g && g > 0 && forall|i: int| 0 <= i < t.leaves.len() ==> all_fit(#[trigger] t.leaves[i], cols - g, g)) }
proof fn lemma_fit(k: Act, norm: T, thr: T, cols: int, g: int, t: Node) requires shows(k, norm, thr, cols, g, t), g > 0, cols > 0, ensures all_fit(t, cols, g) decreases cols {
    if cols > g {
        let h = choose|h: Seq<Act>| #[trigger] children_shown(k, norm, thr, cols - g, h, t.leaves) && forall|i: int| 0 <= i < h.len() ==> shows(h[i], norm, thr, cols - g, g, #[trigger] t.leaves[i]);
        ax_plain('…');
        assert forall|i: int| 0 <= i < t.leaves.len() implies all_fit(#[trigger] t.leaves[i], cols - g, g) by { if i < h.len() { lemma_fit(h[i], norm, thr, cols - g, g, t.leaves[i]); } }
    }
}
"""
def tree(u):
    u.trust("termtree: Tree::new, with_glyphs, with_leaves build the tree they name, printing it puts the text of a node at depth d behind d pairs of glyphs", TREE)
    u.raw(TSPEC)
    rw = LIT + [("String::from_utf8($i_x).expect($m).into_boxed_str()", "$i_x.vx_owned_text()", "text of what was written"), ("Vec::<u8>::new()", "VxBytes::new()", "text sink"),
        ("display_activity(&mut $i_o, $x).expect($m)", "vx_written(display_activity(&mut $i_o, $x))", "writing to a collection does not fail"),
        ("palette.middle_item.width() as u16", "vx_u16(vx_width(palette.middle_item))", "cast must be lossless"), ("palette.item_indent.width() as u16", "vx_u16(vx_width(palette.item_indent))", "cast must be lossless"),
        ("trace::hottest_activities", "hottest_activities", "path"), ("hottest_children.iter().map(ActivityTrace::id).collect::<Vec<_>>()", "vx_ids(&hottest_children)", "iterator as the list of its items"),
        ("hottest_activities($a, |$i_a| $e, threshold,)", "hottest_activities($a, |$i_a: &ActivityTrace| -> (d: T) ensures d == crit($i_a.k) { $e }, threshold, Ghost(crit))", "criterion as a specified closure"),
        ("crate::ui::force_parse_arg", "force_parse_arg", "path"), ("terminator.into()", "terminator", "conversion"), ("child_cols.into()", "vx_wide(child_cols)", "lossless conversion"), ("terminator.push('…')", "terminator.push('…')", "")][:-1]
    LOOP = "for vx_id in hottest_ids { let vx_t = make_child_tree(vx_id, trace, palette, duration_norm, threshold, child_cols); vx_l.push(vx_t); }"
    lp = dict(kw="for", it="it", before="proof { h = hottest_ids@; }", inv="""invariant it.seq() == h, same_trace(trace0, *trace), vx_l@.len() == it.index@, narrow(palette), child_cols == max_cols - glyph_cols(palette), child_cols >= 1,
            forall|i: int| 0 <= i < vx_l@.len() ==> shows(h[i], duration_norm, threshold, child_cols as int, glyph_cols(palette), #[trigger] vx_l@[i]@),""", start="proof { assert(vx_id == h[it.index@ as int]); }")
    CON = r"""
        requires {c} >= 1, narrow(palette),
        ensures same_trace(*old(trace), *final(trace)), shows({k}, duration_norm, threshold, {c} as int, glyph_cols(palette), r@), r.glyphs() == palette,
        decreases {c}, {n} """
    u.fn(S, "hierarchical_profile_tree", closure=("make_child_tree", "child_id"), rewrites=rw,
        sig="fn make_child_tree(child_id: ActivityTraceId, trace: &mut ClangTrace, palette: GlyphPalette, duration_norm: Duration, threshold: Duration, child_cols: u16) -> (r: Tree)",
        contract=CON.format(c="child_cols", k="child_id", n="1int"))
    u.fn(S, "hierarchical_profile_tree", lifted=["make_child_tree"], fmt=True, attrs="#[verifier::loop_isolation(false)]",
        sig="fn hierarchical_profile_tree(trace: &mut ClangTrace, palette: GlyphPalette, root_id: ActivityTraceId, duration_norm: Duration, threshold: Duration, max_cols: u16) -> (r: Tree)",
        rewrites=[("tree.with_leaves(hottest_ids.into_iter().map(make_child_tree).chain(std::iter::once($t,)),)", "{ let vx_last = $t; let mut vx_l: Vec<Tree> = Vec::new(); " + LOOP + " vx_l.push(vx_last); tree.with_leaves(vx_l) }", "iterator written out as a loop"),
            ("tree.with_leaves(hottest_ids.into_iter().map(make_child_tree))", "{ let mut vx_l: Vec<Tree> = Vec::new(); " + LOOP + " tree.with_leaves(vx_l) }", "iterator written out as a loop")] + rw,
        contract=CON.format(c="max_cols", k="root_id", n="0int"),
        outer="let ghost mut h: Seq<Act> = seq![]; let ghost g = glyph_cols(palette);",
        tail="""if max_cols > g {
            let l = vx_ret@.leaves;
            assert(children_shown(root_id, duration_norm, threshold, max_cols - g, h, l));
            assert forall|i: int| 0 <= i < h.len() implies shows(h[i], duration_norm, threshold, max_cols - g, g, #[trigger] l[i]) by {} }""",
        hints=[("before", "let mut tree = Tree::new(root_display)", """proof {
                let (a, x) = choose|a: ActivityArgument, x: Seq<char>| content_of(a) == argument(root_id) && #[trigger] activity_shown(aid(root_id), a, max_cols as int, profile(dur(root_id), duration_norm), x) && root_display@ == Seq::<char>::empty() + x;
                assert(root_display@ =~= x); assert(line_of(root_id, max_cols as int, dur(root_id), duration_norm, root_display@)); }"""),
            ("before", "tree = if num_hottest == num_children", "proof { lemma_kept(kids(root_id), crit, threshold, hottest_ids@); }")],
        start="let ghost trace0 = *trace; let ghost crit = dur_crit(duration_norm); proof { reveal_strlit(\"…\"); assert(\"…\"@ =~= seq!['…']); ax_plain('…'); }",
        loops=[dict(lp), dict(lp)])

HIER = r"""
pub uninterp spec fn render(t: Node, p: GlyphPalette) -> Seq<char>;
#[verifier::external_body] pub proof fn ax_render(t: Tree) ensures rendered(t) == render(t@, t.glyphs()) {}
pub open spec fn each_rendered(n: Seq<Node>, p: GlyphPalette) -> Seq<char> decreases n.len() { if n.len() == 0 { seq![] } else { each_rendered(n.drop_last(), p) + render(n.last(), p) + "\n"@ } }
pub open spec fn glyphs() -> GlyphPalette { GlyphPalette { middle_item: "├", last_item: "└", item_indent: "─", middle_skip: "│", last_skip: " ", skip_indent: " " } }
// one tree per root activity, in order
spec fn trees(r: Seq<Act>, norm: T, thr: T, cols: int, n: Seq<Node>, t: Seq<char>) -> bool {
    &&& n.len() == r.len() && forall|i: int| 0 <= i < n.len() ==> shows(r[i], norm, thr, cols, 2, #[trigger] n[i])
    &&& t == "\nHierarchical profile:\n"@ + each_rendered(n, glyphs())
}
#[verifier::external_body] pub proof fn ax_box(c: char) requires c == '├' || c == '─', ensures width(seq![c]) == 1 {}
"""
RUN = r"""
pub uninterp spec fn header_text(t: ClangTrace, cols: int) -> Seq<char>;
#[verifier::external_body] fn metadata(trace: &ClangTrace, max_cols: u16) -> (r: VxString) requires max_cols >= 1, ensures r@ == header_text(*trace, max_cols as int) { unimplemented!() }
#[verifier::external_body] pub struct VxPath {}
#[verifier::external_body] pub struct VxLoadError {}
pub uninterp spec fn loaded(p: VxPath) -> Option<ClangTrace>;
impl ClangTrace { #[verifier::external_body] fn from_file(p: VxPath) -> (r: Result<ClangTrace, VxLoadError>) ensures match r { Ok(t) => loaded(p) == Some(t) && summable(all(t)), Err(_) => loaded(p) is None } { unimplemented!() } }
pub struct CliArgs { pub input: Option<VxPath>, pub self_threshold: f32, pub hierarchical_threshold: f32, pub max_cols: u16 }
pub uninterp spec fn terminal() -> Option<(u16, u16)>;
#[verifier::external_body] fn vx_terminal_size() -> (r: Option<(u16, u16)>) ensures r == terminal() { unimplemented!() }
fn vx_min(a: u16, b: u16) -> (r: u16) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
fn vx_max(a: u16, b: u16) -> (r: u16) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
pub open spec fn columns(c: u16) -> int { let w = match terminal() { Some((w, _h)) if w < c => w, _ => c }; if w >= 3 { w as int } else { 3 } }
pub open spec fn percent(x: f32) -> T { t_div(t_of(x), t_num(100)) }
// C14, C15: header (C13), types, activities, trees
spec fn report(t: ClangTrace, cols: int, sthr: T, hthr: T, o: Seq<char>) -> bool {
    let norm = norm_of(roots(t));
    exists|e: Seq<Entry>, p: Seq<char>, f: Seq<char>, g: Seq<char>| {
        &&& (c14() ==> breakdown(all(t), e) && p == #[trigger] types_listed(e, 0, norm, sthr))
        &&& (c14() ==> exists|h: Seq<Act>, l: Seq<Seq<char>>| #[trigger] flat(all(t), norm, sthr, cols - 2, h, l, f))
        &&& (c15() ==> exists|n: Seq<Node>| #[trigger] trees(roots(t), norm, hthr, cols, n, g))
        &&& o == #[trigger] vx_parts(header_text(t, cols), p, f, g)
    }
}
spec fn reported(before: Seq<char>, after: Seq<char>, t: ClangTrace, cols: int, sthr: T, hthr: T) -> bool { exists|o: Seq<char>| after == before + o && #[trigger] report(t, cols, sthr, hthr, o) }
pub open spec fn vx_parts(h: Seq<char>, p: Seq<char>, f: Seq<char>, g: Seq<char>) -> Seq<char> { "\n"@ + h + "\n"@ + ("\nSelf-duration breakdown by activity type:\n"@ + p) + f + g }
"""
def hierarchy(u):
    u.trust("a box drawing character takes one column", HIER)
    u.fn(S, "print_hierarchical_profile", fmt=True, attrs="#[verifier::loop_isolation(false)]", sig="fn print_hierarchical_profile(vx_out: &mut VxOut, trace: &mut ClangTrace, duration_norm: Duration, threshold: Duration, max_cols: u16)",
        rewrites=[("trace.root_activities().map(|$i_r| $i_r.id()).collect::<Vec<_>>()", "vx_root_ids(trace)", "iterator as the list of its items"),
                  ("vx_fmt(&(hierarchical_profile_tree($x)))", "{ let vx_tree = hierarchical_profile_tree($x); proof { ax_render(vx_tree); vx_node = vx_tree@; } vx_fmt(&vx_tree) }", "tree named")],
        contract="requires max_cols >= 1, ensures same_trace(*old(trace), *final(trace)), exists|n: Seq<Node>, t: Seq<char>| final(vx_out).out() == old(vx_out).out() + t && #[trigger] trees(roots(*final(trace)), duration_norm, threshold, max_cols as int, n, t),",
        outer="let ghost mut n: Seq<Node> = seq![]; let ghost out0 = vx_out.out(); let ghost head = \"\\nHierarchical profile:\\n\"@; let ghost trace0 = *trace;",
        start="let ghost mut vx_node: Node = Node { text: seq![], leaves: seq![] }; proof { reveal_strlit(\"├\"); reveal_strlit(\"─\"); assert(\"├\"@ =~= seq!['├']); assert(\"─\"@ =~= seq!['─']); ax_box('├'); ax_box('─'); }",
        loops=[dict(kw="for", it="it", before="proof { assert(out0 + head + each_rendered(n, glyphs()) =~= out0 + head); }",
            inv="invariant it.seq() == roots(trace0), same_trace(trace0, *trace), n.len() == it.index@, vx_out.out() == out0 + head + each_rendered(n, glyphs()), palette == glyphs(), narrow(palette), glyph_cols(palette) == 2, forall|i: int| 0 <= i < n.len() ==> shows(roots(trace0)[i], duration_norm, threshold, max_cols as int, 2, #[trigger] n[i]),",
            start="let ghost o = vx_out.out(); proof { assert(root_id == roots(trace0)[it.index@ as int]); }",
            end="proof { let m = n.push(vx_node); assert(m.drop_last() =~= n); assert(vx_out.out() =~= out0 + head + each_rendered(m, glyphs())); n = m; }")],
        tail="assert(vx_out.out() =~= out0 + (head + each_rendered(n, glyphs()))); assert(trees(roots(*trace), duration_norm, threshold, max_cols as int, n, head + each_rendered(n, glyphs())));")
def run(u, mode):
    u.trust("ClangTrace::from_file as in C11, with sums of self times that are numbers; the metadata header as in C13; the terminal size is whatever the terminal says", RUN)
    u.item(S, "const", "MIN_COLS")
    u.raw("spec fn c14() -> bool { %s } spec fn c15() -> bool { %s }" % ("true" if mode == "C14" else "false", "true" if mode == "C15" else "false"))
    u.fn(S, "run", fmt=True, sig="fn run(vx_out: &mut VxOut, args: CliArgs)",
        rewrites=LIT + [("env_logger::init();", "", "log not modelled"), ('#[cfg(feature = "unstable_interner_stats")] trace.log_interner_usage();', "", "off by default"),
            ("termion::terminal_size().map(|($i_w, $i_h)| $e).unwrap_or($d).max($m)", "vx_max(match vx_terminal_size() { Some(($i_w, $i_h)) => $e, None => $d }, $m)", "terminal size"),
            ("$i_w.min($x)", "vx_min($i_w, $x)", "std"), ("trace::duration_norm", "duration_norm", "path"), ("args.self_threshold as Duration", "vx_of(args.self_threshold)", "conversion"), ("args.hierarchical_threshold as Duration", "vx_of(args.hierarchical_threshold)", "conversion"),
            ("print_activity_type_profile(", "print_activity_type_profile(vx_out,", "standard output"), ("print_flat_profile(", "print_flat_profile(vx_out,", "standard output"), ("print_hierarchical_profile(", "print_hierarchical_profile(vx_out,", "standard output")],
        contract=r"""
        ensures args.input is None || loaded(args.input->Some_0) is None ==> final(vx_out).out() == old(vx_out).out(),
            args.input is Some && loaded(args.input->Some_0) is Some ==> reported(old(vx_out).out(), final(vx_out).out(), loaded(args.input->Some_0)->Some_0, columns(args.max_cols), percent(args.self_threshold), percent(args.hierarchical_threshold)), """,
        start="let ghost out0 = vx_out.out(); let ghost in0 = args.input;", hints=[
        ("before", "let duration_norm =", "proof { assert(in0 is Some); assert(loaded(in0->Some_0) == Some(trace)); } let ghost t0 = trace; let ghost o1 = vx_out.out();"),
        ("after", "print_activity_type_profile($x);", "let ghost o2 = vx_out.out();"),
        ("after", "print_flat_profile($x);", "let ghost o3 = vx_out.out();"),
        ("after", "print_hierarchical_profile($x);", """proof {
            let norm = norm_of(roots(t0)); let st = percent(args.self_threshold); let ht = percent(args.hierarchical_threshold); let c = columns(args.max_cols);
            let p = choose|p: Seq<Entry>| breakdown(all(t0), p) && o2 == o1 + ("\\nSelf-duration breakdown by activity type:\\n"@ + #[trigger] types_listed(p, 0, norm, st));
            let (h, l, f) = choose|h: Seq<Act>, l: Seq<Seq<char>>, f: Seq<char>| o3 == o2 + f && #[trigger] flat(all(t0), norm, st, c - 2, h, l, f);
            let (n, g) = choose|n: Seq<Node>, g: Seq<char>| vx_out.out() == o3 + g && #[trigger] trees(roots(t0), norm, ht, c, n, g);
            let o = vx_parts(header_text(t0, c), types_listed(p, 0, norm, st), f, g);
            assert(vx_out.out() =~= out0 + o); assert(report(t0, c, st, ht, o));}""")])

def make_tree():
    u = model("profile_tree")
    assuming(u, "C09", activity)
    assuming(u, "C14", hot)
    listing_args(u)
    tree(u)
    hierarchy(u)
    return u

def make_run(mode):
    u = model("stdio_run_" + mode)
    assuming(u, "C09", activity)
    assuming(u, "C14", hot, breakdown, listing)
    assuming(u, "C15", tree, hierarchy)
    run(u, mode)
    return u
def make_run14(): return make_run("C14")
def make_run15(): return make_run("C15")
