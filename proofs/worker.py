"""C20, C21: worker threads of the build measurement (cmakeperf/src/measure/worker.rs) and their work queue."""
from vx.unit import Unit
from .measure import M, MAIN, WORKER, flags, SEQ, F, FM
W = "Tracked(&mut *vx_w)"
TW = "Tracked(vx_w): Tracked<&mut World>"

SYSTEM = r"""
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct Pid(u32);
impl Pid { fn from_u32(p: u32) -> (r: Pid) ensures r == Pid(p) { Pid(p) } }
fn vx_is(a: Option<Pid>, b: Pid) -> (r: bool) ensures r == (a == Some(b)) { match a { Some(x) => x == b, None => false } }
#[verifier::external_body] pub struct ThreadKind {}
// processes and threads of the system when it was last looked at
pub struct Process { pid: Pid, parent: Option<Pid>, memory: u64, thread: Option<ThreadKind>, }
impl Process {
    fn parent(&self) -> (r: Option<Pid>) ensures r == self.parent { self.parent }
    fn memory(&self) -> (r: u64) ensures r == self.memory { self.memory }
    #[verifier::external_body] fn thread_kind(&self) -> (r: Option<ThreadKind>) ensures r is None == (self.thread is None) { unimplemented!() }
    // a signal is sent; not all signals exist everywhere
    #[verifier::external_body] fn kill_with(&self, s: Signal, Tracked(vx_w): Tracked<&mut World>) -> (r: Option<bool>) ensures *final(vx_w) == (match r { Some(_) => World { ended: old(vx_w).ended.push(self.pid), ..*old(vx_w) }, None => *old(vx_w) }) { unimplemented!() }
    #[verifier::external_body] fn kill(&self, Tracked(vx_w): Tracked<&mut World>) -> (r: bool) ensures *final(vx_w) == (World { ended: old(vx_w).ended.push(self.pid), ..*old(vx_w) }) { unimplemented!() }
}
pub enum Signal { Term, Kill, Stop, Interrupt, Hangup, Quit, Continue }
#[verifier::external_body] pub struct System {}
pub type Procs = Seq<(Pid, Process)>;
impl System {
    pub uninterp spec fn view(&self) -> Procs;
    // every process is listed once, its parent is not one of its descendants; all memory there is can be counted
    #[verifier::external_body] fn processes(&self) -> (r: Vec<(Pid, Process)>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] fn process(&self, p: Pid) -> (r: Option<&Process>) ensures r matches Some(x) ==> self@.contains((p, *x)), r is None ==> !known(self@, p) { unimplemented!() }
}
spec fn sane(s: Procs) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.pid == s[i].0
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& exists|rank: Map<Pid, nat>| #[trigger] acyclic(s, rank)
    &&& forall|l: Seq<Pid>| #[trigger] l.no_duplicates() ==> used(s, l) <= u64::MAX
}
spec fn acyclic(s: Procs, rank: Map<Pid, nat>) -> bool { forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]).1.parent matches Some(q) ==> rank[s[i].0] > rank[q]) }
spec fn known(s: Procs, p: Pid) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == p }
spec fn find(s: Procs, p: Pid) -> Option<Process> { if known(s, p) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == p; Some(s[i].1) } else { None } }
"""
TREE = r"""
// ---- C21: the processes of a job are its root process and all descendants of it ----
spec fn gen(s: Procs, root: Pid, p: Pid, n: int) -> bool decreases n { if n <= 0 { n == 0 && p == root } else { find(s, p) matches Some(x) && x.parent matches Some(q) && gen(s, root, q, n - 1) } }
spec fn in_tree(s: Procs, root: Pid, p: Pid) -> bool { exists|n: int| #[trigger] gen(s, root, p, n) }
spec fn below(s: Procs, root: Pid, p: Pid, k: int) -> bool { exists|n: int| 0 <= n < k && #[trigger] gen(s, root, p, n) }
spec fn listing(s: Procs, root: Pid, l: Seq<Pid>) -> bool { l.len() > 0 && l[0] == root && l.no_duplicates() && forall|p: Pid| #[trigger] l.contains(p) == in_tree(s, root, p) }
// memory in use: threads share the memory of the process that they belong to
spec fn mem(s: Procs, p: Pid) -> int { match find(s, p) { Some(x) => if x.thread is None { x.memory as int } else { 0 }, None => 0 } }
spec fn used(s: Procs, l: Seq<Pid>) -> int decreases l.len() { if l.len() == 0 { 0 } else { used(s, l.drop_last()) + mem(s, l.last()) } }
// the processes of a list that are still there, in its order
spec fn alive(s: Procs, l: Seq<Pid>) -> Seq<Pid> decreases l.len() { if l.len() == 0 { Seq::empty() } else if known(s, l.last()) { alive(s, l.drop_last()).push(l.last()) } else { alive(s, l.drop_last()) } }
proof fn lemma_find(s: Procs, i: int) requires sane(s), 0 <= i < s.len() ensures find(s, s[i].0) == Some(s[i].1), known(s, s[i].0) { let p = s[i].0; assert(known(s, p)); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == p; if i < j { assert(s[i].0 != s[j].0); } else if j < i { assert(s[j].0 != s[i].0); } }
// generations do not overlap
proof fn lemma_rank(s: Procs, rank: Map<Pid, nat>, root: Pid, p: Pid, n: int) requires sane(s), acyclic(s, rank), gen(s, root, p, n) ensures n >= 0, rank[p] >= rank[root] + n decreases n
{ if n > 0 { let x = find(s, p)->0; let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == p; assert(s[i].1 == x); lemma_rank(s, rank, root, x.parent->0, n - 1); } }
proof fn lemma_gen(s: Procs, root: Pid, p: Pid, n: int, m: int) requires sane(s), gen(s, root, p, n), gen(s, root, p, m) ensures n == m decreases n
{ let rank = choose|rank: Map<Pid, nat>| #[trigger] acyclic(s, rank);
  lemma_rank(s, rank, root, p, n); lemma_rank(s, rank, root, p, m);
  if n > 0 && m > 0 { lemma_gen(s, root, find(s, p)->0.parent->0, n - 1, m - 1); }
  else if n != m { let k = if n == 0 { m } else { n }; assert(p == root); } }
// the generation before k + 1 is that before k and generation k
proof fn lemma_down(s: Procs, root: Pid, p: Pid, n: int, k: int) requires 0 <= k <= n, gen(s, root, p, n) ensures exists|q: Pid| gen(s, root, q, k) decreases n - k
{ if k < n { lemma_down(s, root, find(s, p)->0.parent->0, n - 1, k); } }
proof fn lemma_done(s: Procs, root: Pid, k: int) requires sane(s), 0 <= k, forall|p: Pid| !gen(s, root, p, k) ensures forall|p: Pid| in_tree(s, root, p) == below(s, root, p, k)
{ assert forall|p: Pid| in_tree(s, root, p) implies below(s, root, p, k) by { let n = choose|n: int| #[trigger] gen(s, root, p, n); let rank = choose|rank: Map<Pid, nat>| #[trigger] acyclic(s, rank); lemma_rank(s, rank, root, p, n); if n >= k { lemma_down(s, root, p, n, k); } } }
// no more processes are found than there are
proof fn lemma_few(s: Procs, root: Pid, l: Seq<Pid>) requires sane(s), l.no_duplicates(), forall|p: Pid| #[trigger] l.contains(p) ==> p == root || known(s, p) ensures l.len() <= s.len() + 1
{ let names = s.map_values(|e: (Pid, Process)| e.0); let all = names.push(root);
  assert forall|p: Pid| #[trigger] l.to_set().contains(p) implies all.to_set().contains(p) by { assert(l.contains(p)); if p == root { assert(all[s.len() as int] == p); } else { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == p; assert(all[i] == p); } }
  assert(l.to_set().subset_of(all.to_set())); vstd::set_lib::lemma_len_subset(l.to_set(), all.to_set()); l.unique_seq_to_set(); all.lemma_cardinality_of_set(); }
"""

SUMS = r"""
spec fn listed(s: Procs, l: Seq<Pid>, r: Seq<&Process>) -> bool { r.len() == alive(s, l).len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).pid == alive(s, l)[i] && find(s, r[i].pid) == Some(*r[i]) }
proof fn lemma_alive(s: Procs, l: Seq<Pid>) ensures used(s, alive(s, l)) == used(s, l), forall|p: Pid| #[trigger] alive(s, l).contains(p) ==> l.contains(p), l.no_duplicates() ==> alive(s, l).no_duplicates() decreases l.len()
{ if l.len() > 0 { let m = l.drop_last(); lemma_alive(s, m); let a = alive(s, m);
    assert forall|p: Pid| #[trigger] alive(s, l).contains(p) implies l.contains(p) by { let i = choose|i: int| 0 <= i < alive(s, l).len() && alive(s, l)[i] == p; if i < a.len() { assert(a.contains(a[i])); let j = choose|j: int| 0 <= j < m.len() && m[j] == p; assert(l[j] == p); } else { assert(l[l.len() - 1] == p); } }
    if l.no_duplicates() { assert(m.no_duplicates()); if known(s, l.last()) { assert forall|i: int| 0 <= i < a.len() implies a[i] != l.last() by { assert(a.contains(a[i])); let j = choose|j: int| 0 <= j < m.len() && m[j] == a[i]; assert(l[j] == m[j]); } } }
    if known(s, l.last()) { assert(a.push(l.last()).drop_last() =~= a); } } }
proof fn lemma_known(s: Procs, p: Pid, x: Process) requires sane(s), s.contains((p, x)) ensures find(s, p) == Some(x), x.pid == p, known(s, p) { let i = choose|i: int| 0 <= i < s.len() && s[i] == (p, x); lemma_find(s, i); }
// memory in use does not depend on the order in which it is counted
proof fn lemma_without(s: Procs, l: Seq<Pid>, i: int) requires 0 <= i < l.len() ensures used(s, l) == used(s, l.remove(i)) + mem(s, l[i]) decreases l.len()
{ let m = l.drop_last(); if i == l.len() - 1 { assert(l.remove(i) =~= m); } else { lemma_without(s, m, i); assert(l.remove(i).drop_last() =~= m.remove(i)); assert(l.remove(i).last() == l.last()); } }
proof fn lemma_order(s: Procs, a: Seq<Pid>, b: Seq<Pid>) requires a.no_duplicates(), b.no_duplicates(), forall|p: Pid| #[trigger] a.contains(p) == b.contains(p) ensures used(s, a) == used(s, b) decreases a.len()
{ if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); } } else { let p = a.last(); assert(a[a.len() - 1] == p); assert(a.contains(p)); assert(b.contains(p)); let i = choose|i: int| 0 <= i < b.len() && b[i] == p; lemma_without(s, b, i); let c = a.drop_last(); let d = b.remove(i);
    assert forall|q: Pid| #[trigger] c.contains(q) == d.contains(q) by {
        if c.contains(q) { let j = choose|j: int| 0 <= j < c.len() && c[j] == q; assert(a[j] == q); assert(a.contains(q)); assert(b.contains(q)); let k = choose|k: int| 0 <= k < b.len() && b[k] == q; assert(q != p); if k < i { assert(d[k] == q); } else { assert(d[k - 1] == q); } }
        if d.contains(q) { let k = choose|k: int| 0 <= k < d.len() && d[k] == q; let k2 = if k < i { k } else { k + 1 }; assert(b[k2] == q); assert(b.contains(q)); assert(a.contains(q)); let j = choose|j: int| 0 <= j < a.len() && a[j] == q; assert(q != p); assert(c[j] == q); } }
    lemma_order(s, c, d); } }
// C21: memory of a job: that of all processes that are the root or descend from it, in any order
spec fn job_mem(s: Procs, root: Pid) -> int { let l = choose|l: Seq<Pid>| #[trigger] listing(s, root, l); used(s, l) }
proof fn theorem_mem(s: Procs, root: Pid, l: Seq<Pid>) requires listing(s, root, l) ensures used(s, l) == job_mem(s, root) { let m = choose|m: Seq<Pid>| #[trigger] listing(s, root, m); assert forall|p: Pid| #[trigger] l.contains(p) == m.contains(p) by { assert(l.contains(p) == in_tree(s, root, p)); } lemma_order(s, l, m); }
"""
GENS = r"""
spec fn generation(s: Procs, root: Pid, l: Seq<Pid>, k: int) -> bool { l.no_duplicates() && forall|p: Pid| #[trigger] l.contains(p) == gen(s, root, p, k) }
spec fn so_far(s: Procs, root: Pid, l: Seq<Pid>, k: int) -> bool { l.no_duplicates() && (k > 0 ==> l.len() > 0 && l[0] == root) && (k == 0 ==> l.len() == 0) && forall|p: Pid| #[trigger] l.contains(p) == below(s, root, p, k) }
spec fn child(s: Procs, ps: Seq<Pid>, c: Pid) -> bool { find(s, c) matches Some(x) && x.parent matches Some(q) && ps.contains(q) }
spec fn child_in(s: Procs, n: int, p: Pid, c: Pid) -> bool { exists|j: int| 0 <= j < n && (#[trigger] s[j]).0 == c && s[j].1.parent == Some(p) }
proof fn lemma_start(s: Procs, root: Pid, l: Seq<Pid>) requires l.len() == 1, l[0] == root ensures generation(s, root, l, 0)
{ assert forall|p: Pid| #[trigger] l.contains(p) == gen(s, root, p, 0) by { if p == root { assert(l[0] == p); } } }
proof fn lemma_fresh(s: Procs, ps: Seq<Pid>, a: int, j: int, cs: Seq<Pid>) requires sane(s), ps.no_duplicates(), 0 <= a < ps.len(), 0 <= j < s.len(), forall|c: Pid| #[trigger] cs.contains(c) == (child(s, ps.take(a), c) || child_in(s, j, ps[a], c))
    ensures s[j].1.parent == Some(ps[a]) ==> !cs.contains(s[j].0)
{ lemma_find(s, j); if s[j].1.parent == Some(ps[a]) { let c = s[j].0;
    if child(s, ps.take(a), c) { let b = choose|b: int| 0 <= b < a && ps.take(a)[b] == ps[a]; assert(ps[b] == ps[a]); }
    if child_in(s, j, ps[a], c) { let i = choose|i: int| 0 <= i < j && (#[trigger] s[i]).0 == c && s[i].1.parent == Some(ps[a]); assert(s[i].0 != s[j].0); } } }
proof fn lemma_step(s: Procs, ps: Seq<Pid>, a: int, j: int, cs: Seq<Pid>, ds: Seq<Pid>) requires sane(s), 0 <= a < ps.len(), 0 <= j < s.len(), ds == (if s[j].1.parent == Some(ps[a]) { cs.push(s[j].0) } else { cs }),
        forall|c: Pid| #[trigger] cs.contains(c) == (child(s, ps.take(a), c) || child_in(s, j, ps[a], c)) ensures forall|c: Pid| #[trigger] ds.contains(c) == (child(s, ps.take(a), c) || child_in(s, j + 1, ps[a], c))
{ assert forall|c: Pid| #[trigger] ds.contains(c) == (child(s, ps.take(a), c) || child_in(s, j + 1, ps[a], c)) by {
    if s[j].1.parent == Some(ps[a]) { assert(ds[cs.len() as int] == s[j].0); if cs.contains(c) { let i = choose|i: int| 0 <= i < cs.len() && cs[i] == c; assert(ds[i] == c); } }
    if ds.contains(c) && !cs.contains(c) { assert(c == s[j].0); assert(child_in(s, j + 1, ps[a], c)); }
    if cs.contains(c) && child_in(s, j, ps[a], c) { let i = choose|i: int| 0 <= i < j && (#[trigger] s[i]).0 == c && s[i].1.parent == Some(ps[a]); assert(child_in(s, j + 1, ps[a], c)); }
    if child_in(s, j + 1, ps[a], c) { let i = choose|i: int| 0 <= i < j + 1 && (#[trigger] s[i]).0 == c && s[i].1.parent == Some(ps[a]); if i < j { assert(child_in(s, j, ps[a], c)); } } } }
proof fn lemma_children(s: Procs, ps: Seq<Pid>, a: int, cs: Seq<Pid>) requires sane(s), 0 <= a < ps.len(), forall|c: Pid| #[trigger] cs.contains(c) == (child(s, ps.take(a), c) || child_in(s, s.len() as int, ps[a], c))
    ensures forall|c: Pid| #[trigger] cs.contains(c) == child(s, ps.take(a + 1), c)
{ assert forall|c: Pid| #[trigger] cs.contains(c) == child(s, ps.take(a + 1), c) by {
    if child(s, ps.take(a + 1), c) { let x = find(s, c)->0; let q = x.parent->0; let b = choose|b: int| 0 <= b < a + 1 && #[trigger] (ps.take(a + 1)[b]) == q; if b < a { assert(ps.take(a)[b] == q); } else { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == c; assert(s[i].1 == x); assert(child_in(s, s.len() as int, ps[a], c)); } }
    if child(s, ps.take(a), c) { let q = find(s, c)->0.parent->0; let b = choose|b: int| 0 <= b < a && ps.take(a)[b] == q; assert(ps.take(a + 1)[b] == q); }
    if child_in(s, s.len() as int, ps[a], c) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == c && s[i].1.parent == Some(ps[a]); lemma_find(s, i); assert(ps.take(a + 1)[a] == ps[a]); } } }
proof fn lemma_next(s: Procs, root: Pid, t: Seq<Pid>, ps: Seq<Pid>, t2: Seq<Pid>, cs: Seq<Pid>, k: int)
    requires sane(s), k >= 0, generation(s, root, ps, k), so_far(s, root, t, k), ps.len() > 0, t2 =~= t + ps, cs.no_duplicates(), forall|c: Pid| #[trigger] cs.contains(c) == child(s, ps, c)
    ensures generation(s, root, cs, k + 1), so_far(s, root, t2, k + 1), t2.len() > t.len(), t2.len() <= s.len() + 1
{
    assert forall|c: Pid| #[trigger] cs.contains(c) == gen(s, root, c, k + 1) by { if cs.contains(c) { assert(child(s, ps, c)); } if gen(s, root, c, k + 1) { assert(ps.contains(find(s, c)->0.parent->0)); } }
    assert forall|p: Pid| #[trigger] t2.contains(p) == below(s, root, p, k + 1) by {
        if below(s, root, p, k + 1) { let n = choose|n: int| 0 <= n < k + 1 && #[trigger] gen(s, root, p, n); if n < k { assert(below(s, root, p, k)); assert(t.contains(p)); let i = choose|i: int| 0 <= i < t.len() && t[i] == p; assert(t2[i] == p); } else { assert(ps.contains(p)); let i = choose|i: int| 0 <= i < ps.len() && ps[i] == p; assert(t2[t.len() + i] == p); } }
        if t2.contains(p) { let i = choose|i: int| 0 <= i < t2.len() && t2[i] == p; if i < t.len() { assert(t.contains(t[i])); let n = choose|n: int| 0 <= n < k && #[trigger] gen(s, root, p, n); assert(gen(s, root, p, n)); } else { assert(ps.contains(ps[i - t.len()])); assert(gen(s, root, p, k)); } } }
    assert forall|i: int, j: int| 0 <= i < t2.len() && 0 <= j < t2.len() && i != j implies t2[i] != t2[j] by {
        if i < t.len() && j >= t.len() { assert(t.contains(t[i])); assert(ps.contains(ps[j - t.len()])); lemma_apart(s, root, t[i], ps[j - t.len()], k); }
        if j < t.len() && i >= t.len() { assert(t.contains(t[j])); assert(ps.contains(ps[i - t.len()])); lemma_apart(s, root, t[j], ps[i - t.len()], k); } }
    if k == 0 { assert(t2[0] == ps[0]); assert(ps.contains(ps[0])); } else { assert(t2[0] == t[0]); }
    assert forall|p: Pid| #[trigger] t2.contains(p) implies p == root || known(s, p) by { let n = choose|n: int| 0 <= n < k + 1 && #[trigger] gen(s, root, p, n); }
    lemma_few(s, root, t2);
}
proof fn lemma_apart(s: Procs, root: Pid, p: Pid, q: Pid, k: int) requires sane(s), below(s, root, p, k), gen(s, root, q, k) ensures p != q
{ let n = choose|n: int| 0 <= n < k && #[trigger] gen(s, root, p, n); if p == q { lemma_gen(s, root, p, n, k); } }
"""

def processes(u, more=""):
    u.raw("pub tracked struct World { pub ghost ended: Seq<Pid>, " + more + " }")

def make_processes():
    u = Unit("process_tree")
    processes(u)
    u.trust("sysinfo: a system monitor lists every process once under its number, parents are not descendants of their children, and all memory there is can be counted in 64 bits; signals are recorded", SYSTEM)
    u.raw(TREE + GENS)
    u.item(WORKER, "struct", "ProcessTree")
    u.raw(r"""impl ProcessTree { spec fn idle(&self) -> bool { self.parents@.len() == 0 && self.children@.len() == 0 } }
fn vx_assert(b: bool) requires b {}
fn vx_take(v: &mut Vec<Pid>) -> (r: Vec<Pid>) ensures r@ == old(v)@, final(v)@.len() == 0 { let mut r = Vec::new(); std::mem::swap(v, &mut r); r }
""")
    u.fn(WORKER, "new", impl="ProcessTree", ret="r", contract="ensures r.idle(), r.tree@.len() == 0,")
    u.fn(WORKER, "set_root", impl="ProcessTree", ret="r", contract="ensures final(self).tree@ == seq![root], final(self).parents == old(self).parents, final(self).children == old(self).children,")
    u.fn(WORKER, "refresh", impl="ProcessTree", ret="r",
         rewrites=[("assert!($x);", "vx_assert($x);", "must not fail"), ("*self.tree.first().expect($x)", "self.tree[0]", "first and expect: the list must not be empty"), ("self.$i_f.is_empty()", "(self.$i_f.len() == 0)", ""),
                   ("for parent_pid in self.parents.drain(..) {", "let vx_ps = vx_take(&mut self.parents); for parent_pid in vx_ps {", "drain: all elements are taken out"),
                   ("for (&$i_a, $i_b) in system.processes() {", "let vx_all = system.processes(); for vx_i in 0..vx_all.len() { let $i_a = vx_all[vx_i].0; let $i_b = &vx_all[vx_i].1;", "iteration over a map, in any order"),
                   ("child.parent() == Some($i_p)", "vx_is(child.parent(), $i_p)", "")],
         contract="requires old(self).idle(), old(self).tree@.len() > 0, sane(system@) ensures final(self).idle(), listing(system@, old(self).tree@[0], final(self).tree@),",
         loops=[dict(kw="while", before="let ghost s = system@; let ghost root = old(self).tree@[0]; let ghost mut k = 0int; proof { lemma_start(s, root, self.parents@); } #[verifier::loop_isolation(false)]",
                     inv="""invariant sane(s), k >= 0, k == 0 ==> self.parents@.len() > 0, self.children@.len() == 0, generation(s, root, self.parents@, k), so_far(s, root, self.tree@, k), decreases s.len() + 1 - self.tree@.len(),""",
                     start="let ghost tree0 = self.tree@; let ghost ps = self.parents@;", end="proof { lemma_next(s, root, tree0, ps, self.tree@, self.parents@, k); k = k + 1; }",
                     after="proof { assert forall|p: Pid| !gen(s, root, p, k) by { assert(!self.parents@.contains(p)); } lemma_done(s, root, k); }"),
                dict(kw="for", it="it", before="#[verifier::loop_isolation(false)]", inv="""invariant it.seq() == ps, self.parents@.len() == 0, self.tree@ =~= tree0 + ps.take(it.index@ as int), self.children@.no_duplicates(),
                        forall|c: Pid| #[trigger] self.children@.contains(c) == child(s, ps.take(it.index@ as int), c),""",
                     start="let ghost a = it.index@ as int; proof { assert(ps.take(a + 1) =~= ps.take(a).push(parent_pid)); assert(ps[a] == parent_pid); }",
                     end="proof { lemma_children(s, ps, a, self.children@); }", after="proof { assert(ps.take(ps.len() as int) =~= ps); }"),
                dict(kw="for", it="jt", before="#[verifier::loop_isolation(false)]", inv="""invariant jt.seq().len() == s.len(), vx_all@ == s, self.parents@.len() == 0, self.tree@ =~= tree0 + ps.take(a), self.children@.no_duplicates(),
                        forall|c: Pid| #[trigger] self.children@.contains(c) == (child(s, ps.take(a), c) || child_in(s, jt.index@ as int, parent_pid, c)),""",
                     start="let ghost cs = self.children@; let ghost j = jt.index@ as int; proof { assert(vx_i == j); lemma_find(s, j); lemma_fresh(s, ps, a, j, cs); }",
                     end="proof { lemma_step(s, ps, a, j, cs, self.children@); }")])
    watching(u)
    return u

def watching(u):
    """what is done with the processes of a tree, with contracts"""
    u.raw(SUMS)
    u.fn(WORKER, "processes", impl="ProcessTree", sig="fn processes<'a>(&'a self, system: &'a System) -> (r: Vec<&'a Process>)",
         rewrites=[("self.tree.iter().flat_map(|pid| $x)", "{ let mut vx_v: Vec<&'a Process> = Vec::new(); for vx_i in 0..self.tree.len() { let pid = &self.tree[vx_i]; match $x { Some(vx_p) => vx_v.push(vx_p), None => {} } } vx_v }", "iterator evaluated at once"),
                   ("self.tree.iter().filter_map(|pid| $x)", "{ let mut vx_v: Vec<&'a Process> = Vec::new(); for vx_i in 0..self.tree.len() { let pid = &self.tree[vx_i]; match $x { Some(vx_p) => vx_v.push(vx_p), None => {} } } vx_v }", "iterator evaluated at once")],
         contract="requires sane(system@) ensures listed(system@, self.tree@, r@),",
         hints=[("before", "let mut vx_v", "proof { assert(self.tree@.take(0) =~= Seq::empty()); }")],
         loops=[dict(kw="for", it="it", before="#[verifier::loop_isolation(false)]", inv="invariant it.seq().len() == self.tree@.len(), sane(system@), listed(system@, self.tree@.take(it.index@ as int), vx_v@),",
                     start="let ghost l = self.tree@; let ghost i = it.index@ as int; proof { assert(vx_i == i); assert(l.take(i + 1).drop_last() =~= l.take(i)); assert(l.take(i + 1).last() == l[i]); assert forall|x: Process| system@.contains((l[i], x)) implies find(system@, l[i]) == Some(x) && x.pid == l[i] && known(system@, l[i]) by { lemma_known(system@, l[i], x); } }",
                     after="proof { assert(self.tree@.take(self.tree@.len() as int) =~= self.tree@); }")])
    u.fn(WORKER, "memory", impl="ProcessTree", ret="r",
         rewrites=[("self.processes(system).filter(|process| $c).map(|process| $m).sum()", "{ let mut vx_t: u64 = 0; let vx_ps = self.processes(system); for process in vx_ps { if $c { vx_t = vx_t + $m; } } vx_t }", "filter, map and sum spelled out"),
                   ("process.thread_kind().is_none()", "(match process.thread_kind() { Some(_) => false, None => true })", "")],
         contract="requires self.tree@.no_duplicates(), sane(system@) ensures r == used(system@, self.tree@),",
         loops=[dict(kw="for", it="it", before="let ghost s = system@; let ghost l = alive(s, self.tree@); proof { lemma_alive(s, self.tree@); assert(l.take(0) =~= Seq::empty()); } #[verifier::loop_isolation(false)]", inv="invariant it.seq() == vx_ps@, vx_t == used(s, l.take(it.index@ as int)),",
                     start="let ghost i = it.index@ as int; proof { assert(l.take(i + 1).drop_last() =~= l.take(i)); assert(l.take(i + 1).last() == l[i]); assert(l.take(i + 1).no_duplicates()); assert(process == vx_ps@[i]); }",
                     after="proof { assert(l.take(l.len() as int) =~= l); }")])
    u.fn(WORKER, "kill", impl="ProcessTree", sig=f"fn kill(&self, system: &System, {TW}) -> (r: bool)",
         rewrites=[("for process in self.processes(system)", "let vx_ps = self.processes(system); for process in vx_ps", ""),
                   ("global_result &= process.kill_with($s).unwrap_or_else(|| process.kill());", f"let vx_k = match process.kill_with($s, {W}) {{ Some(vx_b) => vx_b, None => process.kill({W}) }}; if !vx_k {{ global_result = false; }}", "unwrap_or_else and &= spelled out, signals recorded")],
         contract="requires sane(system@) ensures *final(vx_w) == (World { ended: old(vx_w).ended + alive(system@, self.tree@), ..*old(vx_w) }),",
         loops=[dict(kw="for", it="it", before="let ghost l = alive(system@, self.tree@); proof { assert(old(vx_w).ended + l.take(0) =~= old(vx_w).ended); } #[verifier::loop_isolation(false)]", inv="invariant it.seq() == vx_ps@, *vx_w == (World { ended: old(vx_w).ended + l.take(it.index@ as int), ..*old(vx_w) }),",
                     start="let ghost i = it.index@ as int; proof { assert(process == vx_ps@[i]); assert(old(vx_w).ended + l.take(i + 1) =~= (old(vx_w).ended + l.take(i)).push(l[i])); }",
                     after="proof { assert(l.take(l.len() as int) =~= l); }")])

JOB = r"""
// ---- what a worker does and sees ----
pub ghost struct Launch { pub program: Seq<char>, pub args: Seq<Seq<char>>, pub dir: Seq<char>, pub no_input: bool, pub captured: bool }
pub ghost struct Prof { pub path: Seq<char>, pub mem: int, pub time: Option<Span> }
pub ghost struct Span { pub from: int, pub to: int }   // commands started before it begins, commands finished before it ends
pub ghost enum Msg { Done(Prof), Killed(DatabaseEntry), Failed(JobError) }
"""
JENV = r"""
#[verifier::external_body] pub struct Path { p: String }
pub type PathBuf = Path;
impl Path { pub uninterp spec fn view(&self) -> Seq<char>; #[verifier::external_body] pub fn to_owned(&self) -> (r: Path) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub struct Text { s: String }
impl Text { pub uninterp spec fn view(&self) -> Seq<char>; #[verifier::external_body] pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
spec fn texts(v: Seq<Text>) -> Seq<Seq<char>> { v.map_values(|t: Text| t@) }
pub uninterp spec fn cwd() -> Option<Seq<char>>;
pub uninterp spec fn diff(p: Seq<char>, base: Seq<char>) -> Option<Seq<char>>;
spec fn relative(p: Seq<char>) -> Seq<char> { match cwd() { Some(d) => match diff(p, d) { Some(q) => q, None => p }, None => p } }
#[verifier::external_body] fn vx_cwd() -> (r: Result<Path, IoError>) ensures match cwd() { Some(d) => r matches Ok(p) && p@ == d, None => r is Err } { unimplemented!() }
#[verifier::external_body] fn vx_diff(p: &Path, base: Path) -> (r: Option<Path>) ensures match diff(p@, base@) { Some(d) => r matches Some(q) && q@ == d, None => r is None } { unimplemented!() }
#[verifier::external_body] pub struct IoError {}
#[verifier::external_body] pub struct DatabaseEntry {}
impl DatabaseEntry {
    pub uninterp spec fn id(&self) -> int; pub uninterp spec fn words(&self) -> Seq<Seq<char>>; pub uninterp spec fn dir(&self) -> Seq<char>; pub uninterp spec fn file(&self) -> Seq<char>;
    #[verifier::external_body] fn program(&self) -> (r: Option<Text>) ensures r is Some == (self.words().len() > 0), r matches Some(t) ==> t@ == self.words()[0] { unimplemented!() }
    #[verifier::external_body] fn args(&self) -> (r: Vec<Text>) ensures texts(r@) == (if self.words().len() > 0 { self.words().skip(1) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body] fn current_dir(&self) -> (r: &Path) ensures r@ == self.dir() { unimplemented!() }
    #[verifier::external_body] fn input(&self) -> (r: &Path) ensures r@ == self.file() { unimplemented!() }
    spec fn launch(&self) -> Launch { Launch { program: self.words()[0], args: self.words().skip(1), dir: self.dir(), no_input: true, captured: true } }
}
#[verifier::external_body] pub struct UnitProfile {}
impl UnitProfile {
    pub uninterp spec fn prof(&self) -> Prof;
    #[verifier::external_body] fn new(p: Path, m: u64, t: Option<Duration>) -> (r: Self) ensures r.prof() == (Prof { path: p@, mem: m as int, time: match t { Some(d) => Some(d.span()), None => None } }) { unimplemented!() }
}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Duration {}
impl Duration { pub uninterp spec fn span(&self) -> Span; }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Instant {}
impl Instant {
    pub uninterp spec fn at(&self) -> int;
    #[verifier::external_body] fn now(Tracked(w): Tracked<&World>) -> (r: Instant) ensures r.at() == w.launched.len() { unimplemented!() }
    #[verifier::external_body] fn elapsed(&self, Tracked(w): Tracked<&World>) -> (r: Duration) ensures r.span() == (Span { from: self.at(), to: w.exited }) { unimplemented!() }
}
#[verifier::external_body] pub struct PollClock {}
impl PollClock { #[verifier::external_body] fn start() -> (r: Self) { unimplemented!() } #[verifier::external_body] fn poll_delay(&mut self) -> (r: Duration) { unimplemented!() } }
// starting a process
pub enum Stdio { Null, Piped, Inherit }
impl Stdio { fn null() -> (r: Stdio) ensures r is Null { Stdio::Null } fn piped() -> (r: Stdio) ensures r is Piped { Stdio::Piped } fn inherit() -> (r: Stdio) ensures r is Inherit { Stdio::Inherit } }
#[verifier::external_body] pub struct Command {}
pub ghost struct Plan { program: Seq<char>, args: Seq<Seq<char>>, dir: Option<Seq<char>>, inp: Stdio, out: Stdio, err: Stdio }
impl Plan { spec fn launch(&self) -> Launch { Launch { program: self.program, args: self.args, dir: match self.dir { Some(d) => d, None => match cwd() { Some(d) => d, None => Seq::empty() } }, no_input: self.inp is Null, captured: self.out is Piped && self.err is Piped } } }
impl Command {
    uninterp spec fn view(&self) -> Plan;
    #[verifier::external_body] fn new(p: &str) -> (r: Self) ensures r@ == (Plan { program: p@, args: Seq::empty(), dir: None, inp: Stdio::Inherit, out: Stdio::Inherit, err: Stdio::Inherit }) { unimplemented!() }
    #[verifier::external_body] fn current_dir(&mut self, d: &Path) ensures final(self)@ == (Plan { dir: Some(d@), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] fn stdin(&mut self, d: Stdio) ensures final(self)@ == (Plan { inp: d, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] fn stdout(&mut self, d: Stdio) ensures final(self)@ == (Plan { out: d, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] fn stderr(&mut self, d: Stdio) ensures final(self)@ == (Plan { err: d, ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] fn arg(&mut self, a: &str) ensures final(self)@ == (Plan { args: old(self)@.args.push(a@), ..old(self)@ }) { unimplemented!() }
    #[verifier::external_body] fn spawn(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<Child, IoError>) ensures *final(self) == *old(self), match r { Ok(c) => *final(w) == (World { launched: old(w).launched.push(old(self)@.launch()), ..*old(w) }) && c.root() == old(w).launched.len(), Err(_) => *final(w) == *old(w) } { unimplemented!() }
}
#[verifier::external_body] pub struct Child {}
#[verifier::external_body] pub struct ExitStatus {}
impl ExitStatus { pub uninterp spec fn good(&self) -> bool; #[verifier::external_body] fn success(&self) -> (r: bool) ensures r == self.good() { unimplemented!() }
    // no exit code if it was ended by a signal
    #[verifier::external_body] fn code(&self) -> (r: Option<i32>) ensures self.good() == (r == Some(0i32)) { unimplemented!() } }
pub uninterp spec fn pid_of(n: int) -> Pid;   // process number of the nth command that was started
impl Child {
    pub uninterp spec fn root(&self) -> int;
    #[verifier::external_body] fn id(&self) -> (r: u32) ensures Pid(r) == pid_of(self.root()) { unimplemented!() }
    #[verifier::external_body] fn wait_timeout(&mut self, d: Duration, Tracked(w): Tracked<&mut World>) -> (r: Result<Option<ExitStatus>, IoError>) ensures final(self).root() == old(self).root(),
        *final(w) == (match r { Ok(Some(e)) => World { exited: old(w).exited + 1, good: e.good(), ..*old(w) }, _ => *old(w) }) { unimplemented!() }
}
#[verifier::external_body] pub struct StdPipes {}
impl StdPipes { #[verifier::external_body] fn new(p: &mut Child) -> (r: Self) ensures final(p).root() == old(p).root() { unimplemented!() } }
#[verifier::external_body] fn vx_text() -> String { unimplemented!() }
#[verifier::external_body] fn report_stdpipe(p: StdPipes) -> String { unimplemented!() }
fn vx_empty(s: &String) -> bool { vx_nondet() }
// the main thread asks workers to stop, they look whenever they start a job or have looked at the system
pub struct MustStop;
#[verifier::external_body] pub struct MonitorClient {}
impl MonitorClient {
    #[verifier::external_body] fn switch_job(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), MustStop>) ensures *final(w) == (World { asked: r is Err, worked: if r is Ok { 0 } else { old(w).worked }, ..*old(w) }) { unimplemented!() }
    #[verifier::external_body] fn keep_job(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), MustStop>) ensures *final(w) == (World { asked: r is Err, worked: if r is Ok { old(w).worked + 1 } else { old(w).worked }, ..*old(w) }) { unimplemented!() }
    #[verifier::external_body] fn system(&self, Tracked(w): Tracked<&mut World>) -> (r: System) ensures *final(w) == (World { seen: old(w).seen.push(r@), ..*old(w) }), sane(r@) { unimplemented!() }
}
// the processes that there are when they are looked at, not when the main thread last did so
uninterp spec fn current(s: Procs) -> bool;
#[verifier::external_body] fn vx_current(Tracked(w): Tracked<&mut World>) -> (r: System) ensures *final(w) == (World { seen: old(w).seen.push(r@), ..*old(w) }), sane(r@), current(r@) { unimplemented!() }
fn vx_assert(b: bool) requires b {}
#[verifier::external_body] pub struct Panic {}
#[verifier::external_body] pub struct WorkReceiver {}
pub enum WaitOutcome { Continue, Finished }
impl WorkReceiver {
    // jobs come from the work queue until there are no more and there will be no more
    #[verifier::external_body] fn wait(&mut self) -> (r: WaitOutcome) { unimplemented!() }
    #[verifier::external_body] fn next(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Option<DatabaseEntry>) ensures *final(w) == (match r { Some(j) => World { got: old(w).got.push(j), ..*old(w) }, None => World { drained: true, ..*old(w) } }) { unimplemented!() }
}
#[verifier::external_body] pub struct Output {}
impl Output {
    // the main thread keeps the receiver until all workers are gone
    #[verifier::external_body] fn send(&self, m: Result<UnitProfile, JobError>, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { sent: old(w).sent.push(msg(m)), ..*old(w) }) { unimplemented!() }
}
spec fn msg(r: Result<UnitProfile, JobError>) -> Msg { match r { Ok(u) => Msg::Done(u.prof()), Err(JobError::Killed(j)) => Msg::Killed(j), Err(e) => Msg::Failed(e) } }
fn vx_max(a: u64, b: u64) -> (r: u64) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
"""
PROC = r"""
// ---- C21: what comes of a job ----
spec fn peak(seen: Seq<Procs>, from: int, root: Pid) -> int decreases seen.len() { if seen.len() <= from || seen.len() == 0 { 0 } else { let a = peak(seen.drop_last(), from, root); let b = job_mem(seen.last(), root); if a > b { a } else { b } } }
// all its processes are told to end: those of a listing of them that are still there
spec fn all_told(s: Procs, root: Pid, told: Seq<Pid>) -> bool { exists|l: Seq<Pid>| #[trigger] listing(s, root, l) && told == alive(s, l) }
spec fn started(job: DatabaseEntry, w0: World, w: World) -> bool { job.words().len() > 0 && w.launched == w0.launched.push(job.launch()) && w.seen.len() >= w0.seen.len() && w.seen.take(w0.seen.len() as int) =~= w0.seen }
spec fn processed(job: DatabaseEntry, timed: bool, r: Result<UnitProfile, JobError>, w0: World, w: World) -> bool {
    let root = pid_of(w0.launched.len() as int);
    &&& w.got == w0.got && w.sent == w0.sent && w.drained == w0.drained
    &&& match r {
        // the command ended well: its most memory, where its input is, and how long it took
        Ok(u) => started(job, w0, w) && w.exited == w0.exited + 1 && w.good && w.ended == w0.ended && !w.asked
            && u.prof() == (Prof { path: relative(job.file()), mem: peak(w.seen, w0.seen.len() as int, root), time: if timed { Some(Span { from: w0.launched.len() as int, to: w0.exited + 1 }) } else { None } }),
        // asked to stop: either nothing was started, or all that it had started is told to end
        Err(JobError::Killed(j)) => j == job && w.asked && w.exited == w0.exited && (w.launched == w0.launched && w.ended == w0.ended
            || started(job, w0, w) && w.seen.len() > w0.seen.len() && exists|told: Seq<Pid>| #[trigger] all_told(w.seen.last(), root, told) && current(w.seen.last()) && w.ended == w0.ended + told),
        Err(JobError::NoProgram) => job.words().len() == 0 && w.launched == w0.launched && w.ended == w0.ended,
        Err(JobError::SpawnFailed(_)) => job.words().len() > 0 && w.launched == w0.launched && w.ended == w0.ended,
        Err(JobError::WaitFailed(_)) => started(job, w0, w) && w.ended == w0.ended,
        Err(JobError::JobFailed) => started(job, w0, w) && w.exited == w0.exited + 1 && !w.good && w.ended == w0.ended,
        Err(JobError::WorkerPanicked) => false,
    }
}
"""
RUN = r"""
// every job is answered, in order: all but the last are done; the worker ends when no job is left or one was not done
spec fn answers(job: DatabaseEntry, timed: bool, m: Msg) -> bool { match m { Msg::Done(p) => p.path == relative(job.file()) && p.time is Some == timed, Msg::Killed(j) => j == job, Msg::Failed(e) => true } }
spec fn worked(timed: bool, w: World) -> bool {
    &&& w.sent.len() == w.got.len() && forall|i: int| 0 <= i < w.got.len() ==> #[trigger] answers(w.got[i], timed, w.sent[i])
    &&& forall|i: int| 0 <= i < w.sent.len() - 1 ==> #[trigger] w.sent[i] is Done
}
"""

def make_worker():
    u = Unit("worker")
    u.raw(JOB)
    processes(u, "pub ghost launched: Seq<Launch>, pub ghost exited: int, pub ghost good: bool, pub ghost seen: Seq<Procs>, pub ghost asked: bool, pub ghost worked: int, pub ghost got: Seq<DatabaseEntry>, pub ghost sent: Seq<Msg>, pub ghost drained: bool,")
    u.trust("sysinfo: a system monitor lists every process once under its number, parents are not descendants of their children, and all memory there is can be counted in 64 bits; signals are recorded", SYSTEM)
    u.raw(TREE + GENS)
    u.item(WORKER, "struct", "ProcessTree")
    u.raw("impl ProcessTree { spec fn idle(&self) -> bool { self.parents@.len() == 0 && self.children@.len() == 0 } }")
    u.assumed = "C21 (unit process_tree)"
    u.fn(WORKER, "new", impl="ProcessTree", ret="r", contract="ensures r.idle(), r.tree@.len() == 0,")
    u.fn(WORKER, "set_root", impl="ProcessTree", contract="ensures final(self).tree@ == seq![root], final(self).parents == old(self).parents, final(self).children == old(self).children,")
    u.fn(WORKER, "refresh", impl="ProcessTree", contract="requires old(self).idle(), old(self).tree@.len() > 0, sane(system@) ensures final(self).idle(), listing(system@, old(self).tree@[0], final(self).tree@),")
    watching(u)
    u.assumed = None
    u.item(WORKER, "enum", "JobError", rewrites=[("io::Error", "IoError", "")])
    u.trust("the environment of a worker: processes, their exit status and the clock; commands and inputs of jobs by what C16 proves, records by C18, stop requests by C19 and C20; reading of the output of a process in the background", JENV)
    u.raw(PROC)
    u.rule("log::error!($x);", "", "logging")
    u.rule("log::warn!($x);", "", "logging")
    u.fn(WORKER, "start_job", sig=f"fn start_job(job: &DatabaseEntry, {TW}) -> (r: Result<Child, JobError>)",
         rewrites=[("command.$i_a($x).$i_b($y)", "command.$i_a($x); command.$i_b($y)", "chained calls")] * 8 + [("command.args(job.args());", "for arg in job.args() { command.arg(arg.as_ref()); }", "all arguments, one by one"),
                   ("for arg in job.args()", "let vx_args = job.args(); for arg in vx_args", ""), ("command.spawn()", f"command.spawn({W})", "recorded")],
         contract="""ensures match r { Ok(c) => job.words().len() > 0 && c.root() == old(vx_w).launched.len() && *final(vx_w) == (World { launched: old(vx_w).launched.push(job.launch()), ..*old(vx_w) }),
            Err(JobError::NoProgram) => job.words().len() == 0 && *final(vx_w) == *old(vx_w), Err(JobError::SpawnFailed(_)) => job.words().len() > 0 && *final(vx_w) == *old(vx_w), Err(_) => false },""",
         loops=[dict(kw="for", it="it", before="let ghost c0 = command@; proof { assert(job.words().skip(1).take(0) =~= Seq::empty()); } #[verifier::loop_isolation(false)]", inv="invariant it.seq() == vx_args@, command@ == (Plan { args: job.words().skip(1).take(it.index@ as int), ..c0 }),",
                     start="let ghost i = it.index@ as int; proof { let a = job.words().skip(1); assert(arg == vx_args@[i]); assert(texts(vx_args@)[i] == a[i]); assert(a.take(i + 1) =~= a.take(i).push(a[i])); }",
                     after="proof { let a = job.words().skip(1); assert(texts(vx_args@).len() == vx_args@.len()); assert(a.take(a.len() as int) =~= a); }")])
    u.fn(WORKER, "report_process", ret="r", rewrites=[("format!($x)", "vx_text()", "text of a message"), ("stdpipe_report.is_empty()", "vx_empty(&stdpipe_report)", "text of a message")],
         contract="ensures exit_status.good() ==> r is Ok, !exit_status.good() ==> (r matches Err(e) && e is JobFailed),")
    u.fn(WORKER, "process_job", sig=f"fn process_job(tree: &mut ProcessTree, job: DatabaseEntry, monitor_client: &mut MonitorClient, measure_time: bool, {TW}) -> (r: Result<UnitProfile, JobError>)",
         rewrites=[("monitor_client.switch_job()", f"monitor_client.switch_job({W})", "recorded"), ("monitor_client.keep_job()", f"monitor_client.keep_job({W})", "recorded"), ("monitor_client.system()", f"monitor_client.system({W})", "recorded"),
                   ("measure_time.then(Instant::now)", "(if measure_time { Some(Instant::now(Tracked(&*vx_w))) } else { None })", "then"), ("measure_time.then(|| Instant::now())", "(if measure_time { Some(Instant::now(Tracked(&*vx_w))) } else { None })", "then"),
                   ("start_job(&job)", f"start_job(&job, {W})", "recorded"), ("process.wait_timeout($x)", f"process.wait_timeout($x, {W})", "recorded"), ("tree.kill(&system);", f"proof {{ assert(vx_w.seen.take(n) =~= w0.seen); assert(all_told(vx_w.seen.last(), root, alive(system@, tree.tree@))); }} tree.kill(&system, {W});", "recorded"),
                   ("System::new_with_specifics(RefreshKind::new().with_processes(ProcessRefreshKind::new()),)", f"vx_current({W})", "the processes there are"), ("System::new_with_specifics(RefreshKind::new().with_processes(ProcessRefreshKind::new()))", f"vx_current({W})", "the processes there are"), ("System::new_with_specifics(Monitor::refresh_kind())", f"vx_current({W})", "the processes there are"),
                   ("max_rss_bytes.max($x)", "vx_max(max_rss_bytes, $x)", ""), ("let mut max_rss_bytes = 0;", "let mut max_rss_bytes: u64 = 0;", ""),
                   ("let exit_status = loop { $b_x };", "let vx_exit: ExitStatus; loop { $b_x } let exit_status = vx_exit;", "value of a loop"), ("break exit_status", "{ vx_exit = exit_status; break }", "value of a loop"),
                   ("start.map(|start| start.elapsed())", "(match start { Some(start) => Some(start.elapsed(Tracked(&*vx_w))), None => None })", "map"),
                   ("std::env::current_dir().ok().and_then(|workdir| $d).unwrap_or_else(|| $o)", "(match vx_cwd() { Ok(workdir) => match $d { Some(vx_p) => vx_p, None => $o }, Err(_) => $o })", "ok, and_then and unwrap_or_else spelled out"),
                   ("pathdiff::diff_paths($x)", "vx_diff($x)", "")],
         contract="requires old(tree).idle() ensures final(tree).idle(), processed(job, measure_time, r, *old(vx_w), *final(vx_w)),",
         attrs="#[verifier::exec_allows_no_decreases_clause]",
         loops=[dict(kw="loop", before="let ghost w0 = *old(vx_w); let ghost n = w0.seen.len() as int; let ghost root = pid_of(w0.launched.len() as int); #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]",
                     inv="invariant_except_break vx_w.exited == w0.exited, invariant tree.idle(), tree.tree@.len() > 0, tree.tree@[0] == root, max_rss_bytes == peak(vx_w.seen, n, root), *vx_w == (World { launched: w0.launched.push(job.launch()), exited: vx_w.exited, good: vx_w.good, seen: vx_w.seen, asked: false, worked: vx_w.worked, ..w0 }), started(job, w0, *vx_w), ensures vx_w.exited == w0.exited + 1, vx_exit.good() == vx_w.good,",
                     start="let ghost seen1 = vx_w.seen;")],
         hints=[("after", "tree.refresh(&system);", "proof { theorem_mem(system@, root, tree.tree@); assert(vx_w.seen == seen1.push(system@)); assert(vx_w.seen.drop_last() =~= seen1); assert(vx_w.seen.take(n) =~= w0.seen); assert(all_told(vx_w.seen.last(), root, alive(system@, tree.tree@))); }")])
    u.raw(RUN)
    u.fn(WORKER, "run", sig=f"fn run(mut input: WorkReceiver, output: Output, mut monitor_client: MonitorClient, measure_time: bool, {TW})",
         rewrites=[("let output_ref = AssertUnwindSafe(&output);", "let output_ref = &output;", "marker for unwinding"), ("let mut monitor_client = AssertUnwindSafe(&mut monitor_client);", "", "marker for unwinding"),
                   ("let maybe_panic = std::panic::catch_unwind(move || { $b_x });", "{ $b_x } let maybe_panic: Result<(), Panic> = Ok(());", "panics are excluded by the proof"), ("std::panic::resume_unwind($x);", "vx_assert(false);", "must not be reached"),
                   ("for job in input {", f"loop {{ let job = match input.next({W}) {{ Some(vx_j) => vx_j, None => break }};", "iteration until next() is None"),
                   ("process_job(&mut tree, job, &mut monitor_client, measure_time)", f"process_job(&mut tree, job, &mut monitor_client, measure_time, {W})", "recorded"),
                   ("output_ref.send($x).expect($e);", f"output_ref.send($x, {W});", "the main thread is there"), ("output.send($x).expect($e);", f"output.send($x, {W});", "the main thread is there"), ("result.is_err()", "(match result { Ok(_) => false, Err(_) => true })", "")],
         contract="requires old(vx_w).got.len() == 0, old(vx_w).sent.len() == 0, !old(vx_w).drained ensures worked(measure_time, *final(vx_w)), final(vx_w).drained || final(vx_w).sent.len() > 0 && !(final(vx_w).sent.last() is Done),",
         attrs="#[verifier::exec_allows_no_decreases_clause]",
         loops=[dict(kw="loop", before="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]",
                     inv="invariant_except_break tree.idle(), !vx_w.drained, forall|i: int| 0 <= i < vx_w.sent.len() ==> #[trigger] vx_w.sent[i] is Done, invariant worked(measure_time, *vx_w), ensures vx_w.drained || vx_w.sent.len() > 0 && !(vx_w.sent.last() is Done),",
                     start="let ghost w1 = *vx_w;")],
         hints=[("before", "let result", "let ghost j1 = job;"), ("before", "let failed", "let ghost r1 = result; proof { assert(processed(j1, measure_time, r1, World { got: w1.got.push(j1), ..w1 }, *vx_w)); assert(answers(j1, measure_time, msg(r1))); }")])
    return u

QENV = r"""
// jobs in the queues of crossbeam: what is pushed to one is handed out once, to whoever takes it first; in the order of the program of the main thread
pub tracked struct World {
    pub ghost futex: u32,         // written by the main thread only
    pub ghost pushed: Seq<int>,   // jobs handed out so far
    pub ghost told: int,          // how many of them had been handed out when the futex was last changed
    pub ghost woken: int,         // since then: 0: nobody, 1: a worker that sleeps, if there is one, 2: all of them
}
#[verifier::external_body] pub struct DatabaseEntry {}
impl DatabaseEntry { pub uninterp spec fn id(&self) -> int; }
spec fn ids(s: Seq<DatabaseEntry>) -> Seq<int> { s.map_values(|j: DatabaseEntry| j.id()) }
#[verifier::external_body] pub struct Injector {}
impl Injector {
    #[verifier::external_body] fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn push(&self, j: DatabaseEntry, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { pushed: old(w).pushed.push(j.id()), ..*old(w) }) { unimplemented!() }
}
#[verifier::external_body] pub struct Worker {}
#[verifier::external_body] pub struct Stealer {}
impl Stealer { pub uninterp spec fn of(&self) -> int; }
impl Worker { pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] fn new_fifo() -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn stealer(&self) -> (r: Stealer) ensures r.of() == self.id() { unimplemented!() } }
#[verifier::external_body] pub struct AtomicU32 {}
impl AtomicU32 {
    #[verifier::external_body] fn new(v: u32, Tracked(w): Tracked<&mut World>) -> (r: Self) ensures *final(w) == (World { futex: v, told: old(w).pushed.len() as int, woken: 0, ..*old(w) }) { unimplemented!() }
    #[verifier::external_body] fn load(&self, Tracked(w): Tracked<&World>) -> (r: u32) ensures r == w.futex { unimplemented!() }
    // those who wait compare with what they have last seen: a value that stays the same would leave them asleep
    #[verifier::external_body] fn store(&self, v: u32, Tracked(w): Tracked<&mut World>) requires v != old(w).futex ensures *final(w) == (World { futex: v, told: old(w).pushed.len() as int, woken: 0, ..*old(w) }) { unimplemented!() }
}
#[verifier::external_body] fn vx_wake_one(f: &AtomicU32, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { woken: if old(w).woken > 1 { old(w).woken } else { 1 }, ..*old(w) }) { unimplemented!() }
#[verifier::external_body] fn vx_wake_all(f: &AtomicU32, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { woken: 2, ..*old(w) }) { unimplemented!() }
"""
SEND = r"""
fn vx_assert(b: bool) requires b {}
impl<'queue> WorkSender<'queue> { spec fn ok(&self, w: &World) -> bool { self.last_futex_value == w.futex } }
"""

def constants(u):
    for c in ("FUTEX_FINISHED", "FUTEX_INITIAL"):
        u.item(M, "const", c)
        for o in ("WorkQueue::", "Self::"): u.rule(o + c, c, "constant")

def make_sender():
    u = Unit("work_sender")
    u.trust("crossbeam's queues, atomic words and the futex, recorded; the main thread is the only one that writes to the futex", QENV)
    u.item(M, "struct", "WorkQueue", rewrites=[("Injector<DatabaseEntry>", "Injector", ""), ("Vec<Stealer<DatabaseEntry>>", "Vec<Stealer>", "")])
    u.item(MAIN, "struct", "WorkSender")
    u.raw(SEND)
    Q = "WorkQueue"
    constants(u)
    u.rule("queue.futex.load(Ordering::Relaxed)", "queue.futex.load(Tracked(&*vx_w))", "recorded")
    u.rule("assert_eq!($a, $b, $c);", "vx_assert($a == $b);", "must not fail"); u.rule("assert_eq!($a, $b);", "vx_assert($a == $b);", "must not fail"); u.rule("assert!($a, $b);", "vx_assert($a);", "must not fail")
    u.fn(M, "new", impl=Q, sig=f"fn new(jobs: Vec<DatabaseEntry>, {TW}) -> (r: Self)",
         rewrites=[("global.push($x);", f"global.push($x, {W});", "recorded"), ("AtomicU32::new($x)", f"AtomicU32::new($x, {W})", "recorded")],
         contract="requires old(vx_w).pushed.len() == 0 ensures final(vx_w).pushed == ids(jobs@), final(vx_w).futex == FUTEX_INITIAL, final(vx_w).told == jobs@.len(), r.stealers@.len() == 0,",
         loops=[dict(kw="for", it="it", before="let ghost js = jobs@; #[verifier::loop_isolation(false)]", inv="invariant it.seq() == js, vx_w.pushed =~= ids(js).take(it.index@ as int),", start="proof { assert(job == js[it.index@ as int]); }", after="proof { assert(ids(js).take(js.len() as int) =~= ids(js)); }")])
    u.fn(M, "local_queues", impl=Q, sig="fn local_queues(&mut self, concurrency: usize) -> (r: Vec<Worker>)",
         rewrites=[("let local_queues = std::iter::repeat_with(Worker::new_fifo).take($n).collect::<Vec<_>>();", "let vx_n = $n; let mut local_queues: Vec<Worker> = Vec::new(); for vx_i in 0..vx_n { local_queues.push(Worker::new_fifo()); }", "repeat_with, take and collect spelled out"),
                   ("self.stealers.extend(local_queues.iter().map(Worker::stealer));", "for vx_i in 0..local_queues.len() { self.stealers.push(local_queues[vx_i].stealer()); }", "extend and map spelled out"), ("local_queues.into_iter()", "local_queues", "collected")],
         contract="requires old(self).stealers@.len() == 0, concurrency > 0 ensures r@.len() == concurrency, final(self).stealers@.len() == concurrency, forall|i: int| 0 <= i < concurrency ==> (#[trigger] final(self).stealers@[i]).of() == r@[i].id(),",
         loops=[dict(kw="for", it="it", before="#[verifier::loop_isolation(false)]", inv="invariant it.seq().len() == vx_n, local_queues@.len() == it.index@,"),
                dict(kw="for", it="jt", before="#[verifier::loop_isolation(false)]", inv="invariant jt.seq().len() == local_queues@.len(), self.stealers@.len() == jt.index@, forall|i: int| 0 <= i < jt.index@ ==> (#[trigger] self.stealers@[i]).of() == local_queues@[i].id(),", start="proof { assert(vx_i == jt.index@); }")])
    u.fn(MAIN, "new", impl="WorkSender", sig="fn new(queue: &'queue WorkQueue, Tracked(vx_w): Tracked<&World>) -> (r: Self)", contract="requires vx_w.futex == FUTEX_INITIAL ensures r.ok(vx_w), r.last_futex_value == FUTEX_INITIAL,")
    u.fn(M, "sender", impl=Q, sig="fn sender(&self, Tracked(vx_w): Tracked<&World>) -> (r: WorkSender<'_>)", rewrites=[("WorkSender::new(self)", "WorkSender::new(self, Tracked(&*vx_w))", "memory passed on")], contract="requires vx_w.futex == FUTEX_INITIAL ensures r.ok(vx_w), r.last_futex_value == FUTEX_INITIAL,")
    u.fn(MAIN, "update_futex", impl="WorkSender", sig=f"fn update_futex<UF: FnOnce(u32) -> u32>(&mut self, updater: UF, {TW})",
         rewrites=[("self.queue.futex.store(self.last_futex_value, Ordering::Release);", f"self.queue.futex.store(self.last_futex_value, {W});", "recorded")],
         contract="requires old(self).ok(old(vx_w)), updater.requires((old(self).last_futex_value,)), forall|v: u32| updater.ensures((old(self).last_futex_value,), v) ==> v != old(self).last_futex_value ensures final(self).ok(final(vx_w)), updater.ensures((old(self).last_futex_value,), final(self).last_futex_value), *final(vx_w) == (World { futex: final(self).last_futex_value, told: old(vx_w).pushed.len() as int, woken: 0, ..*old(vx_w) }),")
    C = [("assert_ne!($a, $b, $c);", "vx_assert($a != $b);", "must not fail"), ("assert_ne!($a, $b, $c,);", "vx_assert($a != $b);", "must not fail"),
         ("atomic_wait::wake_all($x);", f"vx_wake_all($x, {W});", "recorded"), ("atomic_wait::wake_one($x);", f"vx_wake_one($x, {W});", "recorded"), ("self.queue.global.push($x);", f"self.queue.global.push($x, {W});", "recorded")]
    u.fn(MAIN, "start", impl="WorkSender", sig=f"fn start(&mut self, {TW})",
         rewrites=C + [("self.update_futex(|last_value| { $b_x });", f"self.update_futex(|last_value: u32| -> (vx_n: u32) requires last_value == FUTEX_INITIAL ensures vx_n != FUTEX_INITIAL, vx_n != FUTEX_FINISHED {{ $b_x }}, {W});", "specified closure")],
         contract="requires old(self).ok(old(vx_w)), old(self).last_futex_value == FUTEX_INITIAL ensures final(self).ok(final(vx_w)), final(vx_w).futex != FUTEX_INITIAL, final(vx_w).futex != FUTEX_FINISHED, final(vx_w).pushed == old(vx_w).pushed, final(vx_w).told == final(vx_w).pushed.len(), final(vx_w).woken == 2,")
    u.fn(MAIN, "push", impl="WorkSender", sig=f"fn push(&mut self, job: DatabaseEntry, {TW})",
         rewrites=C + [("self.update_futex(|last_value| { $b_x });", f"self.update_futex(|last_value: u32| -> (vx_n: u32) requires last_value != FUTEX_FINISHED ensures vx_n != last_value, vx_n != FUTEX_FINISHED, vx_n != FUTEX_INITIAL {{ $b_x }}, {W});", "specified closure"),
                       ("last_value.checked_add(1).unwrap_or($x)", "(match last_value.checked_add(1) { Some(vx_v) => vx_v, None => $x })", "unwrap_or")],
         contract="requires old(self).ok(old(vx_w)), old(vx_w).futex != FUTEX_FINISHED ensures final(self).ok(final(vx_w)), final(vx_w).pushed == old(vx_w).pushed.push(job.id()), final(vx_w).told == final(vx_w).pushed.len(), final(vx_w).futex != old(vx_w).futex, final(vx_w).futex != FUTEX_FINISHED, final(vx_w).futex != FUTEX_INITIAL, final(vx_w).woken >= 1,")
    u.fn(MAIN, "close", impl="WorkSender", sig=f"fn close(&mut self, {TW})",
         rewrites=C + [("self.update_futex(|_| $x);", f"self.update_futex(|vx_l: u32| -> (vx_n: u32) ensures vx_n == FUTEX_FINISHED {{ $x }}, {W});", "specified closure")],
         contract="requires old(self).ok(old(vx_w)), old(vx_w).futex != FUTEX_FINISHED ensures final(vx_w).futex == FUTEX_FINISHED, final(vx_w).pushed == old(vx_w).pushed, final(vx_w).told == final(vx_w).pushed.len(), final(vx_w).woken == 2,")
    return u

RENV = r"""
// what a worker learns about the work queue, and when: other threads may add, take and announce jobs between any two of its steps
pub tracked struct World {
    pub ghost now: int,
    pub ghost closed: Option<int>,      // when it was seen that no more jobs will be handed out
    pub ghost none_here: int,           // when its own queue was last seen empty
    pub ghost none_there: Map<int, int>,// when the queue of the nth worker was last seen empty
    pub ghost none_new: int,            // when the queue of jobs that are handed out was last seen empty
    pub ghost taken: Seq<int>,          // jobs taken so far
}
impl World {
    spec fn ok(&self) -> bool { self.closed matches Some(t) ==> t <= self.now }
    spec fn later(&self, w: &World) -> bool { self.now <= w.now && (self.closed is Some ==> w.closed == self.closed) && w.ok() }
    spec fn took(&self, w: &World, j: int) -> bool { self.later(w) && w.taken == self.taken.push(j) }
    spec fn nothing(&self, w: &World) -> bool { self.later(w) && w.taken == self.taken && self.now < w.now && w.closed == self.closed }
}
#[verifier::external_body] pub struct DatabaseEntry {}
impl DatabaseEntry { pub uninterp spec fn id(&self) -> int; }
pub enum Steal { Empty, Success(DatabaseEntry), Retry }
impl Steal {
    fn is_retry(&self) -> (r: bool) ensures r == (self is Retry) { match self { Steal::Retry => true, _ => false } }
    fn success(self) -> (r: Option<DatabaseEntry>) ensures r == (match self { Steal::Success(j) => Some(j), _ => None }) { match self { Steal::Success(j) => Some(j), _ => None } }
}
#[verifier::external_body] pub struct Injector {}
impl Injector {
    #[verifier::external_body] fn steal(&self, Tracked(w): Tracked<&mut World>) -> (r: Steal) requires old(w).ok() ensures match r { Steal::Success(j) => old(w).took(final(w), j.id()), _ => old(w).nothing(final(w)) && final(w).none_here == old(w).none_here && final(w).none_there == old(w).none_there && final(w).none_new == (if r is Empty { final(w).now } else { old(w).none_new }) } { unimplemented!() }
    // others that it takes along are put into the queue of the worker
    #[verifier::external_body] fn steal_batch_and_pop(&self, to: &Worker, Tracked(w): Tracked<&mut World>) -> (r: Steal) requires old(w).ok() ensures match r { Steal::Success(j) => old(w).took(final(w), j.id()), _ => old(w).nothing(final(w)) && final(w).none_here == old(w).none_here && final(w).none_there == old(w).none_there && final(w).none_new == (if r is Empty { final(w).now } else { old(w).none_new }) } { unimplemented!() }
}
#[verifier::external_body] pub struct Worker {}
#[verifier::external_body] pub struct Stealer {}
impl Stealer { pub uninterp spec fn of(&self) -> int;
    #[verifier::external_body] fn steal_batch_and_pop(&self, to: &Worker, Tracked(w): Tracked<&mut World>) -> (r: Steal) requires old(w).ok() ensures match r { Steal::Success(j) => old(w).took(final(w), j.id()), _ => old(w).nothing(final(w)) && final(w).none_here == old(w).none_here && final(w).none_there == (if r is Empty { old(w).none_there.insert(self.of(), final(w).now) } else { old(w).none_there }) && final(w).none_new == old(w).none_new } { unimplemented!() }
    #[verifier::external_body] fn steal(&self, Tracked(w): Tracked<&mut World>) -> (r: Steal) requires old(w).ok() ensures match r { Steal::Success(j) => old(w).took(final(w), j.id()), _ => old(w).nothing(final(w)) && final(w).none_here == old(w).none_here && final(w).none_there == (if r is Empty { old(w).none_there.insert(self.of(), final(w).now) } else { old(w).none_there }) && final(w).none_new == old(w).none_new } { unimplemented!() }
}
impl Worker { #[verifier::external_body] fn pop(&self, Tracked(w): Tracked<&mut World>) -> (r: Option<DatabaseEntry>) requires old(w).ok() ensures match r { Some(j) => old(w).took(final(w), j.id()), None => old(w).nothing(final(w)) && final(w).none_here == final(w).now && final(w).none_there == old(w).none_there && final(w).none_new == old(w).none_new } { unimplemented!() } }
#[verifier::external_body] pub struct AtomicU32 {}
impl AtomicU32 { #[verifier::external_body] fn load(&self, Tracked(w): Tracked<&mut World>) -> (r: u32) requires old(w).ok()
    ensures *final(w) == (World { now: old(w).now + 1, closed: if r == FUTEX_FINISHED && old(w).closed is None { Some(old(w).now) } else { old(w).closed }, ..*old(w) }) { unimplemented!() } }
#[verifier::external_body] fn vx_wait(f: &AtomicU32, v: u32, Tracked(w): Tracked<&mut World>) requires old(w).ok() ensures *final(w) == *old(w) { unimplemented!() }
"""
RECV = r"""
fn vx_assert(b: bool) requires b {}
impl<'queue> WorkReceiver<'queue> {
    // a worker that remembers the end of work has seen it
    spec fn ok(&self, w: &World) -> bool { w.ok() && (self.last_futex_value == FUTEX_FINISHED ==> w.closed is Some) }
    // C21: nothing was left anywhere at some time after it was announced that no more jobs will come
    spec fn over(&self, w: &World) -> bool { w.closed matches Some(t) && w.none_here > t && w.none_new > t && forall|i: int| 0 <= i < self.shared.stealers@.len() ==> w.none_there.dom().contains((#[trigger] self.shared.stealers@[i]).of()) && w.none_there[self.shared.stealers@[i].of()] > t }
}
"""

def make_receiver():
    u = Unit("work_receiver")
    constants(u)
    u.trust("crossbeam's queues, atomic words and the futex: a job is taken by one thread only, `Empty` and `None` mean that the queue was empty at that time", RENV)
    u.item(M, "struct", "WorkQueue", rewrites=[("Injector<DatabaseEntry>", "Injector", ""), ("Vec<Stealer<DatabaseEntry>>", "Vec<Stealer>", "")])
    u.item(WORKER, "struct", "WorkReceiver", rewrites=[("Worker<DatabaseEntry>", "Worker", "")])
    u.item(WORKER, "enum", "WaitOutcome")
    u.raw(RECV)
    u.fn(WORKER, "new", impl="WorkReceiver", sig="fn new(local: Worker, shared: &'queue WorkQueue) -> (r: Self)", contract="ensures r.shared == shared, r.local == local, r.last_futex_value == FUTEX_INITIAL,")
    u.fn(WORKER, "wait", impl="WorkReceiver", sig=f"fn wait(&mut self, {TW}) -> (r: WaitOutcome)",
         rewrites=[("self.last_futex_value = loop { $b_x };", "let vx_new: u32; loop { $b_x } self.last_futex_value = vx_new;", "value of a loop"), ("break new_futex_value;", "{ vx_new = new_futex_value; break; }", "value of a loop"),
                   ("futex.load(Ordering::Acquire)", f"futex.load({W})", "recorded"), ("atomic_wait::wait($x);", f"vx_wait($x, {W});", "recorded")],
         contract="""requires old(self).ok(old(vx_w)) ensures final(self).ok(final(vx_w)), final(self).shared == old(self).shared, final(self).local == old(self).local, old(vx_w).later(final(vx_w)), final(vx_w).taken == old(vx_w).taken,
            r is Finished == (old(self).last_futex_value == FUTEX_FINISHED), r is Finished ==> *final(vx_w) == *old(vx_w) && *final(self) == *old(self), r is Continue ==> final(self).last_futex_value != old(self).last_futex_value,""",
         attrs="#[verifier::exec_allows_no_decreases_clause]",
         loops=[dict(kw="loop", before="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]", inv="invariant_except_break true, invariant vx_w.ok(), old(vx_w).later(vx_w), vx_w.taken == old(vx_w).taken, ensures vx_new != self.last_futex_value, vx_new == FUTEX_FINISHED ==> vx_w.closed is Some,")])
    u.fn(WORKER, "next", impl="WorkReceiver", trait="Iterator", header="impl<'queue> WorkReceiver<'queue>", sig=f"fn next(&mut self, {TW}) -> (r: Option<DatabaseEntry>)",
         rewrites=[("self.local.pop().or_else(|| { $b_x })", f"(match self.local.pop({W}) {{ Some(vx_j) => Some(vx_j), None => {{ $b_x }} }})", "or_else"),
                   ("std::iter::repeat_with(|| { $b_x }).find(|s| !s.is_retry()).and_then(|s| s.success())", "{ let vx_got: Steal; loop { let vx_s = { $b_x }; if !vx_s.is_retry() { vx_got = vx_s; break; } } vx_got.success() }", "repeat_with, find and and_then spelled out"),
                   ("self.shared.stealers.iter().map(|s| s.$i_f(&self.local)).collect::<Steal<_>>().or_else(|| $x)", f"""{{ let mut vx_c: Steal = Steal::Empty; for vx_i in 0..self.shared.stealers.len() {{ match vx_c {{ Steal::Success(_) => {{}}, _ => {{
                        match self.shared.stealers[vx_i].$i_f(&self.local, {W}) {{ Steal::Success(vx_j) => {{ vx_c = Steal::Success(vx_j); }}, Steal::Retry => {{ vx_c = Steal::Retry; }}, Steal::Empty => {{}} }} }} }} }}
                        match vx_c {{ Steal::Success(vx_j) => Steal::Success(vx_j), Steal::Empty => $x, Steal::Retry => match $x {{ Steal::Success(vx_j) => Steal::Success(vx_j), _ => Steal::Retry }} }} }}""", "collect::<Steal<_>> takes the first success, or else asks for a retry if one of them does; or_else"),
                   ("self.shared.global.steal()", f"self.shared.global.steal({W})", "recorded"), ("self.shared.global.steal_batch_and_pop(&self.local)", f"self.shared.global.steal_batch_and_pop(&self.local, {W})", "recorded"),
                   ("self.wait()", f"self.wait({W})", "recorded"), ("break None", "return None", "value of a loop")],
         contract="""requires old(self).ok(old(vx_w)) ensures final(self).ok(final(vx_w)), final(self).shared == old(self).shared, old(vx_w).later(final(vx_w)),
            match r { Some(j) => final(vx_w).taken == old(vx_w).taken.push(j.id()), None => final(vx_w).taken == old(vx_w).taken && final(self).over(final(vx_w)) },""",
         attrs="#[verifier::exec_allows_no_decreases_clause]",
         loops=[dict(kw="loop", before="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]", inv="invariant self.ok(vx_w), self.shared == old(self).shared, old(vx_w).later(vx_w), vx_w.taken == old(vx_w).taken,", start="let ghost t0 = vx_w.now; let ghost n = self.shared.stealers@.len() as int; let ghost w1 = *vx_w;"),
                dict(kw="loop", before="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]", inv="""invariant_except_break vx_w.none_here > t0, vx_w.closed == w1.closed, vx_w.taken == w1.taken, invariant w1.later(vx_w), vx_w.now > t0,
                    ensures match vx_got { Steal::Success(j) => vx_w.taken == w1.taken.push(j.id()), Steal::Retry => false, Steal::Empty => vx_w.taken == w1.taken && vx_w.closed == w1.closed && vx_w.none_here > t0 && vx_w.none_new > t0 && forall|i: int| 0 <= i < n ==> vx_w.none_there.dom().contains((#[trigger] self.shared.stealers@[i]).of()) && vx_w.none_there[self.shared.stealers@[i].of()] > t0 },"""),
                dict(kw="for", it="it", before="#[verifier::loop_isolation(false)]", inv="""invariant it.seq().len() == n, w1.later(vx_w), vx_w.now > t0, match vx_c { Steal::Success(j) => vx_w.taken == w1.taken.push(j.id()), _ => vx_w.taken == w1.taken && vx_w.closed == w1.closed && vx_w.none_here > t0 },
                    vx_c is Empty ==> forall|i: int| 0 <= i < it.index@ ==> vx_w.none_there.dom().contains((#[trigger] self.shared.stealers@[i]).of()) && vx_w.none_there[self.shared.stealers@[i].of()] > t0,""", start="proof { assert(vx_i == it.index@); }")])
    return u
