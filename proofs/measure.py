"""C19, C20: stop flags and the out-of-memory killer (cmakeperf/src/measure)."""
from vx.unit import Unit
M = "cmakeperf/src/measure/mod.rs"
MAIN = "cmakeperf/src/measure/main.rs"
WORKER = "cmakeperf/src/measure/worker.rs"
F = "Tracked(vx_m): Tracked<&Mem>"
FM = "Tracked(vx_m): Tracked<&mut Mem>"

CELLS = r"""
global size_of usize == 8;
// atomic words: each is a cell of a memory that only the main thread writes to; seen in the order of the program
pub tracked struct Mem { pub ghost cells: Map<int, usize> }
impl Mem { pub open spec fn has(&self, i: int) -> bool { self.cells.dom().contains(i) } pub open spec fn at(&self, i: int) -> usize { self.cells[i] } }
#[verifier::external_body] pub struct AtomicUsize { }
impl AtomicUsize {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] fn new(v: usize, Tracked(vx_m): Tracked<&mut Mem>) -> (r: Self)
        ensures !old(vx_m).has(r.id()), final(vx_m).cells == old(vx_m).cells.insert(r.id(), v) { unimplemented!() }
    #[verifier::external_body] fn load(&self, Tracked(vx_m): Tracked<&Mem>) -> (r: usize) requires vx_m.has(self.id()) ensures r == vx_m.at(self.id()) { unimplemented!() }
    #[verifier::external_body] fn store(&self, v: usize, Tracked(vx_m): Tracked<&mut Mem>) requires old(vx_m).has(self.id()) ensures final(vx_m).cells == old(vx_m).cells.insert(self.id(), v) { unimplemented!() }
}
"""
BITS = r"""
// bits of a word
pub open spec fn bit(w: usize, i: int) -> bool { w & (1usize << (i as usize)) != 0 }
pub open spec fn cnt(w: usize, k: int) -> int decreases k { if k <= 0 { 0 } else { cnt(w, k - 1) + if bit(w, k - 1) { 1int } else { 0 } } }
"""
BITF = r"""
#[verifier::external_body] fn vx_count_ones(w: usize) -> (r: u32) ensures r == cnt(w, 64), r <= 64 { unimplemented!() }
#[verifier::external_body] fn vx_count_zeros(w: usize) -> (r: u32) ensures r == 64 - cnt(w, 64), r <= 64 { unimplemented!() }
#[verifier::external_body] fn vx_trailing_zeros(w: usize) -> (r: u32) ensures r <= 64, r == 64 <==> w == 0, r < 64 ==> bit(w, r as int), forall|j: int| 0 <= j < r ==> !#[trigger] bit(w, j) { unimplemented!() }
#[verifier::external_body] fn vx_leading_zeros(w: usize) -> (r: u32) ensures r <= 64, r < 64 ==> bit(w, 63 - r), forall|j: int| 64 - r <= j < 64 ==> !#[trigger] bit(w, j) { unimplemented!() }
#[verifier::external_body] fn vx_trailing_ones(w: usize) -> (r: u32) ensures r <= 64, r < 64 ==> !bit(w, r as int), forall|j: int| 0 <= j < r ==> #[trigger] bit(w, j) { unimplemented!() }
fn vx_checked_shr(w: usize, k: u32) -> (r: Option<usize>) ensures r == (if k < 64 { Some((w >> k) as usize) } else { None }) { if k < 64 { Some(w >> k) } else { None } }
"""
LEM = r"""
proof fn lemma_ones(i: int) requires 0 <= i < 64 ensures bit(usize::MAX, i) { let k = i as usize; assert(k < 64 ==> 0xffff_ffff_ffff_ffffusize & (1usize << k) != 0) by (bit_vector); }
proof fn lemma_low(n: int, i: int) requires 0 < n < 64, 0 <= i < 64 ensures bit(((1usize << (n as usize)) - 1) as usize, i) == (i < n), (1usize << (n as usize)) >= 1
{ let a = n as usize; let k = i as usize; assert(0 < a < 64 && k < 64 ==> ((((1usize << a) - 1) as usize) & (1usize << k) != 0) == (k < a)) by (bit_vector); assert(0 < a < 64 ==> (1usize << a) >= 1) by (bit_vector); }
proof fn lemma_zero(i: int) ensures !bit(0, i) { let k = i as usize; assert(0usize & (1usize << k) == 0) by (bit_vector); }
proof fn lemma_clear(w: usize, i: int, j: int) requires 0 <= i < 64, 0 <= j < 64 ensures bit(w & !(1usize << (i as usize)), j) == (bit(w, j) && j != i)
{ let a = i as usize; let k = j as usize; assert(a < 64 && k < 64 ==> ((w & !(1usize << a)) & (1usize << k) != 0) == ((w & (1usize << k) != 0) && k != a)) by (bit_vector); }
proof fn lemma_shr(w: usize, k: int, j: int) requires 0 <= k < 64, 0 <= j < 64 ensures bit(w >> (k as usize), j) == (k + j < 64 && bit(w, k + j))
{ let a = k as usize; let b = j as usize; let c = (k + j) as usize;
  assert(a < 64 && b < 64 && c == a + b && c < 64 ==> ((w >> a) & (1usize << b) != 0) == (w & (1usize << c) != 0)) by (bit_vector);
  assert(a < 64 && b < 64 && a + b >= 64 ==> (w >> a) & (1usize << b) == 0) by (bit_vector); }
proof fn lemma_cnt(w: usize, k: int) requires 0 <= k <= 64 ensures 0 <= cnt(w, k) <= k decreases k { if k > 0 { lemma_cnt(w, k - 1); } }
"""
SEQ = r"""
// ---- C19: a worker is active until it has been stopped ----
impl StopFlags {
    spec fn cell(&self, w: int) -> int { self.0@[w].id() }
    // separate words, all of them in the memory, as many as the flags need and not absurdly many
    spec fn ok(&self, m: &Mem, len: int) -> bool {
        &&& self.0@.len() == (len + 63) / 64 && 0 <= len && self.0@.len() < 0x0040_0000_0000_0001
        &&& forall|w: int| 0 <= w < self.0@.len() ==> m.has(#[trigger] self.cell(w))
        &&& forall|v: int, w: int| 0 <= v < w < self.0@.len() ==> #[trigger] self.cell(v) != #[trigger] self.cell(w)
        &&& forall|i: int| len <= i < 64 * self.0@.len() ==> !#[trigger] self.active(m, i)
    }
    spec fn active(&self, m: &Mem, i: int) -> bool { bit(m.at(self.cell(i / 64)), i % 64) }
    // the active workers below n, in ascending order
    spec fn list(&self, m: &Mem, n: int) -> Seq<usize> decreases n { if n <= 0 { Seq::empty() } else if self.active(m, n - 1) { self.list(m, n - 1).push((n - 1) as usize) } else { self.list(m, n - 1) } }
    proof fn lemma_list(&self, m: &Mem, n: int) requires 0 <= n < usize::MAX
        ensures self.list(m, n).len() <= n, forall|j: int| 0 <= j < self.list(m, n).len() ==> 0 <= #[trigger] self.list(m, n)[j] < n && self.active(m, self.list(m, n)[j] as int),
            forall|i: int| 0 <= i < n && #[trigger] self.active(m, i) ==> self.list(m, n).contains(i as usize),
            forall|i: int, j: int| 0 <= i < j < self.list(m, n).len() ==> self.list(m, n)[i] < self.list(m, n)[j]
        decreases n
    { if n > 0 { self.lemma_list(m, n - 1); let s = self.list(m, n - 1); let t = self.list(m, n);
        assert forall|i: int| 0 <= i < n && #[trigger] self.active(m, i) implies t.contains(i as usize) by {
            if i == n - 1 { assert(t[s.len() as int] == i as usize); } else { let j = choose|j: int| 0 <= j < s.len() && s[j] == i as usize; assert(t[j] == i as usize); } } } }
    proof fn lemma_same(&self, m: &Mem, a: int, b: int) requires 0 <= a <= b, forall|i: int| a <= i < b ==> !#[trigger] self.active(m, i) ensures self.list(m, b) == self.list(m, a) decreases b
    { if a < b { assert(!self.active(m, b - 1)); self.lemma_same(m, a, b - 1); } }
    proof fn lemma_word(&self, m: &Mem, w: int, k: int) requires 0 <= w, 0 <= k <= 64 ensures self.list(m, 64 * w + k).len() == self.list(m, 64 * w).len() + cnt(m.at(self.cell(w)), k) decreases k
    { if k > 0 { self.lemma_word(m, w, k - 1); let i = 64 * w + k - 1; assert(i / 64 == w && i % 64 == k - 1); } }
}
"""
RULES = [
    ("BITS_PER_USIZE", "BITS_PER_USIZE", ""),
    (".load(Ordering::Relaxed)", ".load(Tracked(&*vx_m))", "atomic words are cells of a memory"),
    ("word.count_ones()", "vx_count_ones(word)", "std, specified"), ("$i_w.trailing_zeros()", "vx_trailing_zeros($i_w)", "std, specified"),
    ("word_value.leading_zeros()", "vx_leading_zeros(word_value)", "std, specified"), ("word_value.count_zeros()", "vx_count_zeros(word_value)", "std, specified"),
    ("word_value.trailing_ones()", "vx_trailing_ones(word_value)", "std, specified"), ("$i_w.checked_shr($x)", "vx_checked_shr($i_w, $x)", "std"),
    ("mask.count_ones()", "vx_count_ones(mask)", "std, specified"),
    ("atomic::fence($x);", "", "memory ordering: not part of the sequential view"),
    ("debug_assert_eq!($a, $b, $c);", "vx_assert($a == $b);", "must not fail"), ("debug_assert_eq!($a, $b, $c,);", "vx_assert($a == $b);", "must not fail"), ("assert!($a, $b);", "vx_assert($a);", "must not fail"),
]

def flags(name):
    u = Unit(name)
    u.trust("atomic words: the main thread is their only writer, reads and writes happen in program order (memory ordering, and when other threads see a write, are not modelled)", CELLS)
    u.raw(BITS)
    u.trust("std: count_ones, count_zeros, trailing_zeros, leading_zeros, trailing_ones of a word", BITF)
    u.raw("fn vx_assert(b: bool) requires b {}")
    for r in RULES[1:]: u.rule(*r)
    return u

def make_flags():
    u = flags("stop_flags")
    u.raw(LEM)
    u.item(M, "const", "BITS_PER_USIZE", rewrites=[("std::mem::size_of::<usize>()", "8", "64-bit target")])
    u.item(M, "struct", "StopFlags")
    u.raw(SEQ)
    u.fn(M, "new", impl="StopFlags", sig="fn new(len: usize, Tracked(vx_m): Tracked<&mut Mem>) -> (r: Self)",
         rewrites=[("Self(std::iter::repeat_with(|| AtomicUsize::new($c)).take($n).chain(($b).then_some(AtomicUsize::new($d))).collect(),)", """
            let vx_last = AtomicUsize::new($d, Tracked(&mut *vx_m)); let mut vx_v: Vec<AtomicUsize> = Vec::new(); let vx_n = $n;
            for vx_i in 0..vx_n { vx_v.push(AtomicUsize::new($c, Tracked(&mut *vx_m))); }
            if $b { vx_v.push(vx_last); } Self(vx_v)""", "repeat_with, take, chain, then_some and collect spelled out")],
         contract="""requires len < 0x1000_0000_0000_0000 ensures r.ok(&*final(vx_m), len as int), forall|i: int| 0 <= i < len ==> #[trigger] r.active(&*final(vx_m), i),
            forall|c: int| #[trigger] old(vx_m).has(c) ==> final(vx_m).has(c) && final(vx_m).at(c) == old(vx_m).at(c), forall|w: int| 0 <= w < r.0@.len() ==> !old(vx_m).has(#[trigger] r.cell(w)),""",
         hints=[("before", "let vx_last", "proof { if trailing_bits != 0 { lemma_low(trailing_bits as int, 0); } else { assert(1usize << 0usize == 1) by (bit_vector); } }")],
         loops=[dict(kw="for", it="it", before="#[verifier::loop_isolation(false)]", inv="""invariant it.seq().len() == vx_n, vx_v@.len() == it.index@, vx_m.has(vx_last.id()), !old(vx_m).has(vx_last.id()), trailing_bits != 0 ==> vx_m.at(vx_last.id()) == ((1usize << trailing_bits) - 1) as usize,
                forall|c: int| #[trigger] old(vx_m).has(c) ==> vx_m.has(c) && vx_m.at(c) == old(vx_m).at(c),
                forall|i: int| 0 <= i < it.index@ ==> vx_m.has(#[trigger] vx_v@[i].id()) && vx_m.at(vx_v@[i].id()) == usize::MAX && vx_v@[i].id() != vx_last.id() && !old(vx_m).has(vx_v@[i].id()),
                forall|i: int, j: int| 0 <= i < j < it.index@ ==> #[trigger] vx_v@[i].id() != #[trigger] vx_v@[j].id(),""")],
         tail="""assert forall|i: int| 0 <= i < 64 * vx_ret.0@.len() implies #[trigger] vx_ret.active(vx_m, i) == (i < len) by {
            let w = i / 64; if w < len / 64 { lemma_ones(i % 64); } else { lemma_low(len as int % 64, i % 64); } };""")
    server(u)
    clients(u)
    return u

def server(u):
    """the functions of StopServer, with their contracts"""
    u.item(MAIN, "struct", "StopServer")
    u.fn(MAIN, "word_values", impl="StopServer", sig=f"fn word_values(&self, {F}) -> (r: Vec<usize>)",
         rewrites=[("self.0 .0.iter().map(|a| $e)", "{ let vx_w = &self.0.0; let mut vx_v: Vec<usize> = Vec::new(); for vx_i in 0..vx_w.len() { let a = &vx_w[vx_i]; vx_v.push($e); } vx_v }", "iterator evaluated at once")],
         contract="requires forall|w: int| 0 <= w < self.0.0@.len() ==> vx_m.has(#[trigger] self.0.cell(w)) ensures r@.len() == self.0.0@.len(), forall|w: int| 0 <= w < r@.len() ==> #[trigger] r@[w] == vx_m.at(self.0.cell(w)),",
         loops=[dict(kw="for", it="it", before="#[verifier::loop_isolation(false)]", inv="invariant it.seq().len() == self.0.0@.len(), vx_w == self.0.0, vx_v@.len() == it.index@, forall|w: int| 0 <= w < it.index@ ==> #[trigger] vx_v@[w] == vx_m.at(self.0.cell(w)),", start="proof { assert(vx_m.has(self.0.cell(vx_i as int))); }")])
    u.raw("impl<'flags> StopServer<'flags> { spec fn ok(&self, m: &Mem, len: int) -> bool { self.0.ok(m, len) } spec fn list(&self, m: &Mem) -> Seq<usize> { self.0.list(m, 64 * self.0.0@.len() as int) } }")
    WV = ("self.word_values()", "self.word_values(Tracked(&*vx_m))", "memory passed on")
    u.fn(MAIN, "num_active", impl="StopServer", sig=f"fn num_active(&self, {F}, Ghost(len): Ghost<int>) -> (r: usize)",
         rewrites=[WV, ("$i_s.word_values($a).map(|$i_w| $e).sum()", "{ let vx_all = $i_s.word_values($a); let mut vx_n = 0usize; for $i_w in vx_all { vx_n += $e; } vx_n }", "map and sum spelled out")],
         contract="requires self.ok(vx_m, len) ensures r == self.list(vx_m).len(),",
         loops=[dict(kw="for", it="it", before="proof { assert(forall|w: int| 0 <= w < self.0.0@.len() ==> vx_m.has(#[trigger] self.0.cell(w))); } #[verifier::loop_isolation(false)]", inv="invariant it.seq() == vx_all@, vx_n == self.0.list(vx_m, 64 * it.index@).len(), vx_n <= 64 * it.index@, vx_all@.len() < 0x0040_0000_0000_0001,",
                     start="proof { let w = it.index@ as int; assert(vx_all@[w] == vx_m.at(self.0.cell(w))); self.0.lemma_word(vx_m, w, 64); lemma_cnt(word, 64); assert(64 * w + 64 == 64 * (w + 1)); }")])
    u.fn(MAIN, "enumerate_active", impl="StopServer", sig=f"fn enumerate_active(&self, {F}, Ghost(len): Ghost<int>) -> (r: Vec<usize>)",
         rewrites=[WV, ("$i_s.word_values($a).enumerate().flat_map(|($i_k, mut $i_v)| { $s_head std::iter::from_fn(move || { if $c { return None; } $s_mid Some($e) }) })",
                        "{ let vx_all = $i_s.word_values($a); let mut vx_out: Vec<usize> = Vec::new(); let vx_len = vx_all.len(); for $i_k in 0..vx_len { let mut $i_v = vx_all[$i_k]; $s_head loop { if $c { break; } $s_mid vx_out.push($e); } } vx_out }", "flat_map and from_fn spelled out as loops, evaluated at once")],
         contract="requires self.ok(vx_m, len) ensures r@ == self.list(vx_m),",
         loops=[dict(kw="for", it="it", before="#[verifier::loop_isolation(false)]", inv="invariant it.seq().len() == vx_all@.len(), vx_out@ == self.0.list(vx_m, 64 * it.index@), vx_all@.len() < 0x0040_0000_0000_0001,",
                                          end="proof { assert(64 * word_idx + 64 == 64 * (word_idx + 1)); }"),
                dict(kw="loop", before="let ghost w0 = vx_all@[word_idx as int]; let ghost mut k = 0int; proof { assert(word_idx == it.index@); assert(w0 == vx_m.at(self.0.cell(word_idx as int))); assert(vx_out@ == self.0.list(vx_m, 64 * word_idx + k)); assert forall|j: int| 0 <= j < 64 implies #[trigger] bit(word_value, j) == (k + j < 64 && bit(w0, k + j)) by {} } #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]", inv="""invariant_except_break 0 <= k <= 64, bit_offset == 64 * word_idx + k, vx_out@ == self.0.list(vx_m, 64 * word_idx + k), forall|j: int| 0 <= j < 64 ==> #[trigger] bit(word_value, j) == (k + j < 64 && bit(w0, k + j)),
                    ensures vx_out@ == self.0.list(vx_m, 64 * word_idx + 64), decreases 64 - k,""")],
         hints=[("before", "if word_value == 0", """proof { let b = 64 * word_idx; if word_value == 0 { assert forall|i: int| b + k <= i < b + 64 implies !#[trigger] self.0.active(vx_m, i) by { assert(i / 64 == word_idx && i % 64 == i - b); lemma_zero(i - b - k); assert(!bit(word_value, i - b - k)); } self.0.lemma_same(vx_m, b + k, b + 64); } }"""),
                ("before", "bit_offset += offset_after_first_one;", """let ghost w1 = word_value; let ghost o = offset_after_first_one as int; proof { let b = 64 * word_idx; assert(bit(w1, o - 1)); assert(k + o <= 64 && bit(w0, k + o - 1));
                    assert forall|i: int| b + k <= i < b + k + o - 1 implies !#[trigger] self.0.active(vx_m, i) by { assert(i / 64 == word_idx && i % 64 == i - b); assert(!bit(w1, i - b - k)); }
                    self.0.lemma_same(vx_m, b + k, b + k + o - 1); let i = b + k + o - 1; assert(i / 64 == word_idx && i % 64 == i - b); assert(self.0.active(vx_m, i)); }"""),
                ("after", "vx_out.push(bit_offset - 1);", """proof { assert forall|j: int| 0 <= j < 64 implies #[trigger] bit(word_value, j) == (k + o + j < 64 && bit(w0, k + o + j)) by {
                    if o < 64 { lemma_shr(w1, o, j); if o + j < 64 { assert(bit(w1, o + j) == (k + (o + j) < 64 && bit(w0, k + (o + j)))); } } else { lemma_zero(j); } } k = k + o; }""")])
    u.fn(MAIN, "word_and_mask", impl="StopServer", sig="fn word_and_mask(&self, idx: usize) -> (r: (&AtomicUsize, usize))",
         rewrites=[("self.0 .0", "self.0.0", "")],
         contract="requires idx < 64 * self.0.0@.len() ensures r.0 == self.0.0@[idx as int / 64], r.1 == 1usize << ((idx % 64) as usize),")
    u.raw("spec fn others_same(f: &StopFlags, a: &Mem, b: &Mem) -> bool { forall|c: int| #[trigger] a.has(c) ==> b.has(c) && ((forall|w: int| 0 <= w < f.0@.len() ==> f.cell(w) != c) ==> b.at(c) == a.at(c)) }")
    u.fn(MAIN, "stop", impl="StopServer", sig=f"fn stop(&self, idx: usize, {FM}, Ghost(len): Ghost<int>)",
         rewrites=[("word.store($e, Ordering::Release);", "word.store($e, Tracked(&mut *vx_m));", "memory passed on")],
         contract="""requires self.ok(old(vx_m), len), 0 <= idx < len, self.0.active(old(vx_m), idx as int)
            ensures self.ok(final(vx_m), len), others_same(self.0, old(vx_m), final(vx_m)), forall|i: int| 0 <= i < 64 * self.0.0@.len() ==> #[trigger] self.0.active(final(vx_m), i) == (self.0.active(old(vx_m), i) && i != idx),""",
         start="proof { assert(old(vx_m).has(self.0.cell(idx as int / 64))); }",
         tail="""assert forall|i: int| 0 <= i < 64 * self.0.0@.len() implies #[trigger] self.0.active(vx_m, i) == (self.0.active(m0, i) && i != idx) by {
            assert(self.0.cell(i / 64) == self.0.cell(idx as int / 64) <==> i / 64 == idx as int / 64); lemma_clear(m0.at(self.0.cell(idx as int / 64)), idx as int % 64, i % 64); };""", outer="let ghost m0 = vx_m;")
    u.fn(MAIN, "stop_all", impl="StopServer", sig=f"fn stop_all(&self, {FM}, Ghost(len): Ghost<int>)",
         rewrites=[("self.0 .0", "self.0.0", ""), ("for $i_w in &self.0.0 {", "let vx_ws = &self.0.0; for vx_i in 0..vx_ws.len() { let $i_w = &vx_ws[vx_i];", "by index"), ("word.store($e, Ordering::Relaxed);", "word.store($e, Tracked(&mut *vx_m));", "memory passed on")],
         contract="""requires self.ok(old(vx_m), len)
            ensures self.ok(final(vx_m), len), others_same(self.0, old(vx_m), final(vx_m)), forall|i: int| 0 <= i < 64 * self.0.0@.len() ==> !#[trigger] self.0.active(final(vx_m), i),""",
         loops=[dict(kw="for", it="it", before="#[verifier::loop_isolation(false)]", inv="""invariant it.seq().len() == vx_ws@.len(), *vx_ws == self.0.0, others_same(self.0, old(vx_m), vx_m), forall|w: int| 0 <= w < it.index@ ==> vx_m.at(#[trigger] self.0.cell(w)) == 0, forall|w: int| 0 <= w < self.0.0@.len() ==> vx_m.has(#[trigger] self.0.cell(w)),""",
                     start="let ghost m1 = *vx_m; proof { assert(m1.has(self.0.cell(vx_i as int))); }",
                     end="proof { assert forall|w: int| 0 <= w < vx_i implies vx_m.at(#[trigger] self.0.cell(w)) == 0 by { assert(self.0.cell(w) != self.0.cell(vx_i as int)); } assert(vx_m.at(self.0.cell(vx_i as int)) == 0); }")],
         tail="assert forall|i: int| 0 <= i < 64 * self.0.0@.len() implies !#[trigger] self.0.active(vx_m, i) by { assert(vx_m.at(self.0.cell(i / 64)) == 0); lemma_zero(i % 64); };")
    return u

def clients(u):
    u.item(WORKER, "struct", "StopClient")
    u.raw("""impl<'word> StopClient<'word> { spec fn of(&self, f: &StopFlags, i: int) -> bool { *self.word == f.0@[i / 64] && self.mask == 1usize << ((i % 64) as usize) } }
proof fn lemma_mask(k: int) requires 0 <= k < 64 ensures cnt(1usize << (k as usize), 64) == 1 { lemma_mask_cnt(k, 64); }
proof fn lemma_mask_cnt(k: int, n: int) requires 0 <= k < 64, 0 <= n <= 64 ensures cnt(1usize << (k as usize), n) == (if n > k { 1int } else { 0 }) decreases n
{ if n > 0 { lemma_mask_cnt(k, n - 1); let a = k as usize; let b = (n - 1) as usize; assert(a < 64 && b < 64 ==> ((1usize << a) & (1usize << b) != 0) == (a == b)) by (bit_vector); } }
proof fn lemma_double(k: int) requires 0 <= k < 63 ensures (1usize << (k as usize)) << 1 == 1usize << ((k + 1) as usize)
{ let a = k as usize; let b = (k + 1) as usize; assert(a < 63 && b == a + 1 ==> (1usize << a) << 1 == 1usize << b) by (bit_vector); }
proof fn lemma_full(w: usize, k: int) requires 0 <= k <= 64, forall|j: int| 0 <= j < 64 ==> #[trigger] bit(w, j) ensures k == 0 || w & (usize::MAX >> ((64 - k) as usize)) == usize::MAX >> ((64 - k) as usize) decreases k
{ if k > 0 { lemma_full(w, k - 1); let a = (k - 1) as usize; let c = (64 - k) as usize; assert(bit(w, k - 1)); let m = usize::MAX;
    assert(a < 64 && c == 63 - a && m == 0xffff_ffff_ffff_ffffusize && (w & (1usize << a) != 0) && (a == 0 || w & (m >> ((c + 1) as usize)) == m >> ((c + 1) as usize)) ==> w & (m >> c) == m >> c) by (bit_vector); } }
proof fn lemma_all(w: usize, t: int) requires 0 <= t <= 64, forall|j: int| 0 <= j < 64 ==> #[trigger] bit(w, j) == (j < t) ensures t == 64 ==> w == usize::MAX
{ if t == 64 { lemma_full(w, 64); let m = usize::MAX; assert(w & (m >> 0usize) == m >> 0usize && m == 0xffff_ffff_ffff_ffffusize ==> w == m) by (bit_vector); } }
proof fn lemma_run(w: usize, t: int) requires 0 <= t <= 64, forall|j: int| 0 <= j < 64 ==> #[trigger] bit(w, j) == (j < t) ensures cnt(w, 64) == t { lemma_run_n(w, t, 64); }
proof fn lemma_run_n(w: usize, t: int, n: int) requires 0 <= t <= 64, 0 <= n <= 64, forall|j: int| 0 <= j < 64 ==> #[trigger] bit(w, j) == (j < t) ensures cnt(w, n) == (if n < t { n } else { t }) decreases n
{ if n > 0 { lemma_run_n(w, t, n - 1); assert(bit(w, n - 1) == (n - 1 < t)); } }
""")
    u.fn(WORKER, "new", impl="StopClient", ret="r", contract="requires cnt(mask, 64) == 1 ensures *r.word == *word, r.mask == mask,")
    u.fn(WORKER, "must_stop", impl="StopClient", sig=f"fn must_stop(&self, {F}, Ghost(f): Ghost<&StopFlags>, Ghost(i): Ghost<int>, Ghost(len): Ghost<int>) -> (r: bool)",
         contract="requires f.ok(vx_m, len), 0 <= i < len, self.of(f, i) ensures r == !f.active(vx_m, i),",
         start="proof { assert(vx_m.has(f.cell(i / 64))); }")
    u.fn(M, "clients", impl="StopFlags", sig=f"fn clients(&self, {F}, Ghost(len): Ghost<int>) -> (r: Vec<StopClient>)",
         rewrites=[("self.0.iter().enumerate().flat_map(|($i_k, $i_v)| { $s_head std::iter::from_fn(move || { ($c).then(|| { $b_mid }) }) })",
                    "{ let mut vx_out: Vec<StopClient> = Vec::new(); let vx_len = self.0.len(); for $i_k in 0..vx_len { let $i_v = &self.0[$i_k]; $s_head while $c { vx_out.push({ $b_mid }); } } vx_out }", "flat_map and from_fn spelled out as loops, evaluated at once"),
                   ("let mut mask = 1;", "let mut mask = 1usize;", "type given"), ("mask <<= 1", "mask = mask << 1", "")],
         contract="""requires self.ok(vx_m, len), forall|i: int| 0 <= i < len ==> #[trigger] self.active(vx_m, i)
            ensures r@.len() == len, forall|i: int| 0 <= i < len ==> #[trigger] r@[i].of(self, i),""",
         loops=[dict(kw="for", it="it", before="#[verifier::loop_isolation(false)]", inv="""invariant it.seq().len() == self.0@.len(), it.index@ < self.0@.len() ==> vx_out@.len() == 64 * it.index@, it.index@ == self.0@.len() ==> vx_out@.len() == len, forall|i: int| 0 <= i < vx_out@.len() ==> #[trigger] vx_out@[i].of(self, i),""",
                     start="""proof { let w = idx as int; assert(w == it.index@); assert(vx_m.has(self.cell(w))); let t = if w < self.0@.len() - 1 { 64int } else { len - 64 * w };
                        assert forall|j: int| 0 <= j < 64 implies #[trigger] bit(vx_m.at(self.cell(w)), j) == (j < t) by { let i = 64 * w + j; assert(i / 64 == w && i % 64 == j); assert(self.active(vx_m, i) == bit(vx_m.at(self.cell(w)), j)); }
                        lemma_run(vx_m.at(self.cell(w)), t); lemma_all(vx_m.at(self.cell(w)), t); assert(t > 0 && bit(vx_m.at(self.cell(w)), t - 1)); if t < 64 { assert(!bit(vx_m.at(self.cell(w)), t)); } }"""),
                dict(kw="while", before="""let ghost n0 = num_iters as int; let ghost w = idx as int; let ghost mut k = 0int; proof { assert(mask == 1usize << 0usize) by { assert(1usize << 0usize == 1) by (bit_vector); } assert(n0 == if w < self.0@.len() - 1 { 64int } else { len - 64 * w }); } #[verifier::loop_isolation(false)]""",
                     inv="""invariant 0 <= k <= n0 <= 64, num_iters == n0 - k, vx_out@.len() == 64 * w + k, k < n0 ==> mask == 1usize << (k as usize), forall|i: int| 0 <= i < vx_out@.len() ==> #[trigger] vx_out@[i].of(self, i), decreases num_iters,""",
                     start="proof { lemma_mask(k); if k < 63 { lemma_double(k); } let i = 64 * w + k; assert(i / 64 == w && i % 64 == k); }", end="proof { k = k + 1; }")])
    return u

SYS = r"""
// sysinfo: what is refreshed, and what a refreshed system monitor says
pub struct MemoryRefreshKind { pub ghost_ram: bool } pub struct ProcessRefreshKind { pub ghost_mem: bool } 
#[derive(Clone, Copy)] pub struct RefreshKind { pub ram: bool, pub procs: bool }
impl MemoryRefreshKind { #[verifier::external_body] fn new() -> (r: Self) ensures !r.ghost_ram { unimplemented!() } #[verifier::external_body] fn with_ram(self) -> (r: Self) ensures r.ghost_ram { unimplemented!() } }
impl ProcessRefreshKind { #[verifier::external_body] fn new() -> (r: Self) ensures !r.ghost_mem { unimplemented!() } #[verifier::external_body] fn with_memory(self) -> (r: Self) ensures r.ghost_mem { unimplemented!() } }
impl RefreshKind {
    #[verifier::external_body] fn new() -> (r: Self) ensures !r.ram, !r.procs { unimplemented!() }
    #[verifier::external_body] fn with_memory(self, k: MemoryRefreshKind) -> (r: Self) ensures r.ram == k.ghost_ram, r.procs == self.procs { unimplemented!() }
    #[verifier::external_body] fn with_processes(self, k: ProcessRefreshKind) -> (r: Self) ensures r.ram == self.ram, r.procs == k.ghost_mem { unimplemented!() }
}
#[verifier::external_body] pub struct SystemLock {}
#[verifier::external_body] pub struct Guard {}
// a: memory available at the time of a refresh
uninterp spec fn measured(a: u64) -> bool;
impl SystemLock { #[verifier::external_body] fn vx_write(&self) -> (r: Guard) { unimplemented!() } }
impl Guard {
    uninterp spec fn fresh(&self) -> bool;
    #[verifier::external_body] fn refresh_specifics(&mut self, k: RefreshKind) ensures final(self).fresh() == (k.ram && k.procs) { unimplemented!() }
    #[verifier::external_body] fn available_memory(&self) -> (r: u64) ensures r < 0x8000_0000_0000_0000, self.fresh() ==> measured(r) { unimplemented!() }
}
// counters of the workers: t is what they say during one update
pub ghost struct Snap { pub at: Map<int, usize> }
#[verifier::external_body] pub struct Counter {}
impl Counter { pub uninterp spec fn id(&self) -> int; #[verifier::external_body] fn load(&self, Ghost(t): Ghost<Snap>) -> (r: usize) ensures r == t.at[self.id()] { unimplemented!() } }
#[verifier::external_body] fn vx_assumed_bkg() -> (r: usize) ensures r < 0x8000_0000 { unimplemented!() }
"""
OOM = r"""
impl Monitor { spec fn elapsed(&self, t: Snap, i: int) -> int { t.at[self.elapsed@[i].id()] as int } }
impl<'monitor> MonitorServer<'monitor> {
    spec fn len(&self) -> int { self.monitor.elapsed@.len() as int }
    spec fn ok(&self, m: &Mem) -> bool {
        &&& *self.stop_server.0 == self.monitor.stop && self.monitor.stop.ok(m, self.len()) && self.len() < 0x8000_0000 && self.assumed_bkg_threads < 0x8000_0000
        &&& self.last_available_memory is Some && self.last_available_memory->0 < 0x8000_0000_0000_0000 && self.refresh_kind.ram && self.refresh_kind.procs
    }
    spec fn list(&self, m: &Mem) -> Seq<usize> { self.stop_server.list(m) }
    proof fn lemma_count(&self, m: &Mem) requires self.ok(m) ensures self.list(m).len() <= self.len(), forall|j: int| 0 <= j < self.list(m).len() ==> #[trigger] self.list(m)[j] < self.len()
    { let f = self.stop_server.0; f.lemma_same(m, self.len(), 64 * f.0@.len() as int); f.lemma_list(m, self.len()); }
}
impl<'monitor> MonitorServer<'monitor> {
    proof fn lemma_pick(&self, m: &Mem, y: int) requires self.ok(m), 0 <= y < self.list(m).len() ensures self.list(m)[y] < self.len(), self.stop_server.0.active(m, self.list(m)[y] as int)
    { let f = self.stop_server.0; f.lemma_same(m, self.len(), 64 * f.0@.len() as int); f.lemma_list(m, self.len()); }
    proof fn lemma_stopped(&self, m1: &Mem, m2: &Mem, y: int)
        requires self.ok(m1), 0 <= y < self.list(m1).len(), forall|i: int| 0 <= i < 64 * self.stop_server.0.0@.len() ==> #[trigger] self.stop_server.0.active(m2, i) == (self.stop_server.0.active(m1, i) && i != self.list(m1)[y])
        ensures self.list(m2) == self.list(m1).remove(y)
    { let f = self.stop_server.0; let s = self.list(m1); let n = 64 * f.0@.len() as int; self.lemma_pick(m1, y); let p = f.list(m1, s[y] as int).len() as int; f.lemma_gone(m1, m2, s[y] as int, n); f.lemma_list(m1, n); assert(s[p] == s[y]); assert(p == y); }
}
// ---- C20: who is killed, and what becomes of the safety margin ----
// the one that has spent the least time on its job, the first among equals
spec fn youngest(s: Seq<usize>, w: &Monitor, t: Snap) -> int decreases s.len()
{ if s.len() <= 1 { 0 } else { let y = youngest(s.drop_last(), w, t); if w.elapsed(t, s.last() as int) < w.elapsed(t, s[y] as int) { s.len() - 1 } else { y } } }
ghost struct Oom { act: Seq<usize>, margin: int, everyone: bool }
spec fn shrunk(margin: int, act: int, bkg: int) -> int { margin / (act + bkg) * (act - 1 + bkg) }
spec fn oom(act: Seq<usize>, margin: int, avail: int, bkg: int, w: &Monitor, t: Snap) -> Oom decreases act.len()
{
    if avail >= margin || act.len() == 0 { Oom { act, margin, everyone: false } } else {
        let y = youngest(act, w, t);
        let rest = if 0 <= y < act.len() { act.remove(y) } else { Seq::empty() };
        let m = shrunk(margin, act.len() as int, bkg);
        if rest.len() == 0 { Oom { act: rest, margin: m, everyone: true } } else { oom(rest, m, avail, bkg, w, t) }
    }
}
// the margin has to cover what was used up since the last look
spec fn tightened(margin: int, last: int, avail: int, threads: int) -> int { let used = if last > avail { last - avail } else { 0 }; if used > margin { (used / threads + 1) * threads } else { margin } }
spec fn same_but(a: &MonitorServer, b: &MonitorServer) -> bool { b.monitor == a.monitor && b.stop_server == a.stop_server && b.assumed_bkg_threads == a.assumed_bkg_threads && b.refresh_kind == a.refresh_kind }
spec fn killed(o: Oom, b: &MonitorServer, m1: &Mem, r: MonitorStatus) -> bool { b.list(m1) == o.act && b.oom_margin == o.margin && (r is KilledEveryone) == o.everyone }
spec fn updated(a: &MonitorServer, m0: &Mem, b: &MonitorServer, m1: &Mem, t: Snap, avail: u64, r: MonitorStatus) -> bool {
    &&& same_but(a, b) && b.last_available_memory == Some(avail)
    &&& killed(oom(a.list(m0), tightened(a.oom_margin as int, a.last_available_memory->0 as int, avail as int, a.list(m0).len() + a.assumed_bkg_threads), avail as int, a.assumed_bkg_threads as int, a.monitor, t), b, m1, r)
}
proof fn lemma_div(a: int, b: int) requires a >= 0, b > 0 ensures 0 <= a / b * b <= a, a < (a / b + 1) * b <= a + b, 0 <= a / b * (b - 1) <= a, 0 <= a / b { assert(a == b * (a / b) + a % b && 0 <= a % b < b) by (nonlinear_arith) requires b > 0; assert(a / b >= 0) by (nonlinear_arith) requires a >= 0, b > 0; 
    assert(a / b * b == b * (a / b)) by (nonlinear_arith); assert((a / b + 1) * b == b * (a / b) + b) by (nonlinear_arith); assert(a / b * (b - 1) == b * (a / b) - a / b) by (nonlinear_arith); assert(a / b * (b - 1) >= 0) by (nonlinear_arith) requires a / b >= 0, b >= 1; }
proof fn lemma_youngest(s: Seq<usize>, w: &Monitor, t: Snap) requires s.len() > 0
    ensures 0 <= youngest(s, w, t) < s.len(), forall|i: int| 0 <= i < s.len() ==> w.elapsed(t, s[youngest(s, w, t)] as int) <= w.elapsed(t, #[trigger] s[i] as int) decreases s.len()
{ if s.len() > 1 { lemma_youngest(s.drop_last(), w, t); assert forall|i: int| 0 <= i < s.len() implies w.elapsed(t, s[youngest(s, w, t)] as int) <= w.elapsed(t, #[trigger] s[i] as int) by { if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); } } } }
// no one is killed without need, those who stay have worked at least as long as those who had to go, and in the end there is memory to spare or no one left
proof fn theorem_oom(act: Seq<usize>, margin: int, avail: int, bkg: int, w: &Monitor, t: Snap)
    requires act.len() > 0, margin >= 0, bkg >= 0, forall|i: int, j: int| 0 <= i < j < act.len() ==> act[i] != act[j]
    ensures ({ let o = oom(act, margin, avail, bkg, w, t);
        &&& avail >= margin ==> o.act == act && o.margin == margin
        &&& o.everyone == (o.act.len() == 0)
        &&& !o.everyone ==> avail >= o.margin
        &&& 0 <= o.margin <= margin
        &&& forall|s: usize| #[trigger] o.act.contains(s) ==> act.contains(s)
        &&& forall|s: usize, k: usize| o.act.contains(s) && act.contains(k) && !o.act.contains(k) ==> #[trigger] w.elapsed(t, k as int) <= #[trigger] w.elapsed(t, s as int) })
    decreases act.len()
{
    if avail < margin {
        lemma_youngest(act, w, t); let y = youngest(act, w, t); let rest = act.remove(y); let m = shrunk(margin, act.len() as int, bkg); lemma_div(margin, act.len() + bkg);
        let o = oom(act, margin, avail, bkg, w, t);
        assert forall|s: usize| rest.contains(s) implies #[trigger] act.contains(s) by { let i = choose|i: int| 0 <= i < rest.len() && rest[i] == s; if i < y { assert(act[i] == s); } else { assert(act[i + 1] == s); } }
        assert forall|k: usize| #[trigger] act.contains(k) && k != act[y] implies rest.contains(k) by { let i = choose|i: int| 0 <= i < act.len() && act[i] == k; if i < y { assert(rest[i] == k); } else { assert(rest[i - 1] == k); } }
        if rest.len() > 0 {
            assert forall|i: int, j: int| 0 <= i < j < rest.len() implies rest[i] != rest[j] by { assert(rest[i] == act[if i < y { i } else { i + 1 }] && rest[j] == act[if j < y { j } else { j + 1 }]); }
            theorem_oom(rest, m, avail, bkg, w, t);
            assert forall|s: usize, k: usize| o.act.contains(s) && act.contains(k) && !o.act.contains(k) implies #[trigger] w.elapsed(t, k as int) <= #[trigger] w.elapsed(t, s as int) by {
                assert(rest.contains(s)); assert(act.contains(s)); let i = choose|i: int| 0 <= i < act.len() && act[i] == s; if k != act[y] { assert(rest.contains(k)); } }
        }
    }
}
proof fn theorem_margin(margin: int, last: int, avail: int, threads: int) requires margin >= 0, threads > 0, avail >= 0 ensures tightened(margin, last, avail, threads) >= margin, tightened(margin, last, avail, threads) >= last - avail, tightened(margin, last, avail, threads) <= margin || tightened(margin, last, avail, threads) <= last - avail + threads
{ if last > avail { lemma_div(last - avail, threads); } }
impl StopFlags {
    // stopping one takes it out of the list
    proof fn lemma_gone(&self, m0: &Mem, m1: &Mem, idx: int, n: int) requires 0 <= idx < usize::MAX, 0 <= n < usize::MAX, self.active(m0, idx), forall|i: int| 0 <= i < n ==> #[trigger] self.active(m1, i) == (self.active(m0, i) && i != idx)
        ensures n <= idx ==> self.list(m1, n) == self.list(m0, n), n > idx ==> ({ let p = self.list(m0, idx).len() as int; p < self.list(m0, n).len() && self.list(m0, n)[p] == idx && self.list(m1, n) == self.list(m0, n).remove(p) })
        decreases n
    {
        if n > 0 {
            self.lemma_gone(m0, m1, idx, n - 1);
            assert(self.active(m1, n - 1) == (self.active(m0, n - 1) && n - 1 != idx));
            let p = self.list(m0, idx).len() as int; let a = self.list(m0, n - 1);
            if n - 1 == idx { assert(self.list(m0, n).remove(p) =~= a); }
            if n - 1 > idx { if self.active(m0, n - 1) { assert(self.list(m0, n).remove(p) =~= a.remove(p).push((n - 1) as usize)); } }
        }
    }
}
"""

def make_oom():
    u = flags("oom_killer")
    u.assumed = "C19"
    u.item(M, "struct", "StopFlags")
    u.raw(SEQ)
    u.raw("")
    server(u)
    u.assumed = None
    u.trust("sysinfo: a refreshed system monitor says how much memory is available (below 2^63 bytes); locks are not poisoned; the counters of the workers do not change during one update; fewer than 2^31 worker and background threads", SYS)
    u.rule("log::warn!($x);", "", "logging")
    u.rule("log::info!($x);", "", "logging")
    u.item(M, "struct", "Monitor", rewrites=[("RwLock<System>", "SystemLock", ""), ("Vec<CachePadded<AtomicUsize>>", "Vec<Counter>", "padding")])
    u.item(MAIN, "struct", "MonitorServer")
    u.item(MAIN, "enum", "MonitorStatus")
    u.item(MAIN, "const", "OOM_MARGIN_PER_THREAD")
    u.raw(OOM)
    P = "Tracked(&*vx_m), Ghost(self.len())"
    u.fn(M, "refresh_kind", impl="Monitor", ret="r", contract="ensures r.ram, r.procs,")
    u.fn(M, "concurrency", impl="Monitor", ret="r", contract="ensures r == self.elapsed@.len(),")
    u.fn(MAIN, "new", impl="StopServer", ret="r", contract="ensures *r.0 == *flags,")
    u.fn(M, "server", impl="StopFlags", ret="r", contract="ensures *r.0 == *self,")
    u.fn(MAIN, "refresh_and_check_memory", impl="MonitorServer", ret="r",
         rewrites=[("self.monitor.system.write().expect($e)", "self.monitor.system.vx_write()", "locks are not poisoned")],
         contract="requires old(self).refresh_kind.ram, old(self).refresh_kind.procs ensures *final(self) == *old(self), measured(r), r < 0x8000_0000_0000_0000,")
    u.fn(MAIN, "new", impl="MonitorServer", sig="fn new(monitor: &'monitor Monitor, Tracked(vx_m): Tracked<&Mem>) -> (r: Self)",
         rewrites=[("OOM_ASSUMED_BKG_THREADS.load(Ordering::Relaxed)", "vx_assumed_bkg()", "configuration")],
         contract="""requires monitor.stop.ok(vx_m, monitor.elapsed@.len() as int), monitor.elapsed@.len() < 0x8000_0000
            ensures r.ok(vx_m), *r.monitor == *monitor, r.oom_margin == 100_000_000 * (monitor.elapsed@.len() + r.assumed_bkg_threads), measured(r.last_available_memory->0),""")
    u.fn(MAIN, "assumed_threads", impl="MonitorServer", sig=f"fn assumed_threads(&self, {F}) -> (r: usize)",
         rewrites=[("self.stop_server.num_active()", f"self.stop_server.num_active({P})", "memory passed on")],
         contract="requires self.ok(vx_m) ensures r == self.list(vx_m).len() + self.assumed_bkg_threads,", start="proof { self.lemma_count(vx_m); }")
    u.fn(MAIN, "update_oom_threshold", impl="MonitorServer", sig=f"fn update_oom_threshold(&mut self, available_memory: u64, {F})",
         rewrites=[("self.assumed_threads()", "self.assumed_threads(Tracked(&*vx_m))", "memory passed on"), ("self.last_available_memory.expect($e)", "(match self.last_available_memory { Some(vx_l) => vx_l, None => { vx_assert(false); 0 } })", "expect")],
         contract="""requires old(self).ok(vx_m), old(self).list(vx_m).len() > 0, available_memory < 0x8000_0000_0000_0000
            ensures final(self).ok(vx_m), same_but(old(self), final(self)), final(self).last_available_memory == Some(available_memory),
                final(self).oom_margin == tightened(old(self).oom_margin as int, old(self).last_available_memory->0 as int, available_memory as int, old(self).list(vx_m).len() + old(self).assumed_bkg_threads),""",
         start="proof { self.lemma_count(vx_m); let l = self.last_available_memory->0; if l > available_memory { lemma_div(l - available_memory, self.list(vx_m).len() + self.assumed_bkg_threads); } }")
    u.fn(MAIN, "handle_oom_and_termination", impl="MonitorServer", sig=f"fn handle_oom_and_termination(&mut self, available_memory: u64, {FM}, Ghost(t): Ghost<Snap>) -> (r: MonitorStatus)",
         rewrites=[("self.assumed_threads()", "self.assumed_threads(Tracked(&*vx_m))", "memory passed on"),
                   ("self.monitor.elapsed[idx].load(Ordering::Relaxed)", "self.monitor.elapsed[idx].load(Ghost(t))", "counters as they are during the call"),
                   ("self.stop_server.enumerate_active().min_by_key(|&$i_x| $k).expect($e)", f"""{{ let vx_all = self.stop_server.enumerate_active({P}); vx_assert(vx_all.len() > 0); let mut vx_b = vx_all[0]; let mut vx_bk = {{ let $i_x = vx_b; $k }};
                        for vx_i in 1..vx_all.len() {{ let $i_x = vx_all[vx_i]; let vx_k = $k; if vx_k < vx_bk {{ vx_b = $i_x; vx_bk = vx_k; }} }} vx_b }}""", "min_by_key spelled out: the first of the least"),
                   ("self.stop_server.num_active()", f"self.stop_server.num_active({P})", "memory passed on"),
                   ("self.stop_server.stop(youngest_alive_worker);", "self.stop_server.stop(youngest_alive_worker, Tracked(&mut *vx_m), Ghost(self.len()));", "memory passed on")],
         contract="""requires old(self).ok(old(vx_m)), old(self).list(old(vx_m)).len() > 0
            ensures final(self).ok(final(vx_m)), same_but(old(self), final(self)), final(self).last_available_memory == old(self).last_available_memory, others_same(old(self).stop_server.0, old(vx_m), final(vx_m)),
                killed(oom(old(self).list(old(vx_m)), old(self).oom_margin as int, available_memory as int, old(self).assumed_bkg_threads as int, old(self).monitor, t), final(self), final(vx_m), r),""",
         loops=[dict(kw="while", before="let ghost o = oom(self.list(vx_m), self.oom_margin as int, available_memory as int, self.assumed_bkg_threads as int, self.monitor, t); #[verifier::loop_isolation(false)]",
                     inv="""invariant self.ok(vx_m), self.list(vx_m).len() > 0, same_but(old(self), self), self.last_available_memory == old(self).last_available_memory, others_same(self.stop_server.0, old(vx_m), vx_m),
                        o == oom(self.list(vx_m), self.oom_margin as int, available_memory as int, self.assumed_bkg_threads as int, self.monitor, t), decreases self.list(vx_m).len(),""",
                     start="let ghost m1 = *vx_m; let ghost s = self.list(vx_m); proof { self.lemma_count(vx_m); lemma_youngest(s, self.monitor, t); lemma_div(self.oom_margin as int, s.len() + self.assumed_bkg_threads); }"),
                dict(kw="for", it="it", before="#[verifier::loop_isolation(false)]", inv="""invariant it.seq().len() == s.len() - 1, vx_all@ == s, vx_b == s[youngest(s.take(it.index@ + 1), self.monitor, t)], vx_bk == self.monitor.elapsed(t, vx_b as int), 0 <= youngest(s.take(it.index@ + 1), self.monitor, t) <= it.index@,""",
                     start="proof { let k = it.index@ as int; assert(vx_i == k + 1); assert(s.take(k + 2).drop_last() =~= s.take(k + 1)); assert(s.take(k + 2).last() == s[k + 1]); }", end="")],
         hints=[("before", "self.stop_server.stop(", """let ghost y = youngest(s, self.monitor, t); proof { assert(s.take(s.len() as int) =~= s); assert(youngest_alive_worker == s[y]); self.lemma_pick(&m1, y); }"""),
                ("after", "self.stop_server.stop($e);", """proof { self.lemma_stopped(&m1, vx_m, y); }""")])
    u.fn(MAIN, "update", impl="MonitorServer", sig=f"fn update(&mut self, {FM}, Ghost(t): Ghost<Snap>) -> (r: MonitorStatus)",
         rewrites=[("self.update_oom_threshold($e);", "self.update_oom_threshold($e, Tracked(&*vx_m));", "memory passed on"), ("self.handle_oom_and_termination($e)", "self.handle_oom_and_termination($e, Tracked(&mut *vx_m), Ghost(t))", "memory passed on")],
         contract="""requires old(self).ok(old(vx_m)), old(self).list(old(vx_m)).len() > 0
            ensures final(self).ok(final(vx_m)), exists|a: u64| measured(a) && #[trigger] updated(old(self), old(vx_m), final(self), final(vx_m), t, a, r), !(r is KilledEveryone) ==> final(self).list(final(vx_m)).len() > 0,""",
         hints=[("before", "self.update_oom_threshold($e, Tracked(&*vx_m));", "proof { vx_a = available_memory; }")],
         outer="let ghost a0 = *self; let ghost m0 = *vx_m; let ghost mut vx_a = 0u64;",
         tail="""let t0 = tightened(a0.oom_margin as int, a0.last_available_memory->0 as int, vx_a as int, a0.list(&m0).len() + a0.assumed_bkg_threads);
            assert(updated(&a0, &m0, self, vx_m, t, vx_a, vx_ret)); a0.stop_server.0.lemma_list(&m0, 64 * a0.stop_server.0.0@.len() as int);
            theorem_margin(a0.oom_margin as int, a0.last_available_memory->0 as int, vx_a as int, a0.list(&m0).len() + a0.assumed_bkg_threads as int);
            assert forall|i: int, j: int| 0 <= i < j < a0.list(&m0).len() implies a0.list(&m0)[i] != a0.list(&m0)[j] by { assert(a0.list(&m0)[i] < a0.list(&m0)[j]); }
            theorem_oom(a0.list(&m0), t0, vx_a as int, a0.assumed_bkg_threads as int, a0.monitor, t);""")
    u.fn(MAIN, "stop_all", impl="MonitorServer", sig=f"fn stop_all(&mut self, {FM})",
         rewrites=[("self.stop_server.stop_all();", "self.stop_server.stop_all(Tracked(&mut *vx_m), Ghost(self.len()));", "memory passed on")],
         contract="requires old(self).ok(old(vx_m)) ensures final(self).ok(final(vx_m)), *final(self) == *old(self), final(self).list(final(vx_m)).len() == 0,",
         tail="let f = self.stop_server.0; f.lemma_same(vx_m, 0, 64 * f.0@.len() as int);")
    return u

CSYS = r"""
pub struct RefreshKind {}
#[verifier::external_body] pub struct SystemLock {}
#[verifier::external_body] fn vx_system(k: RefreshKind) -> (r: SystemLock) { unimplemented!() }
pub struct MustStop;
"""
CLIENT = r"""
impl Monitor {
    spec fn len(&self) -> int { self.elapsed@.len() as int }
    spec fn ok(&self, m: &Mem) -> bool {
        &&& self.stop.ok(m, self.len()) && self.len() < 0x1000_0000_0000_0000
        &&& forall|i: int| 0 <= i < self.len() ==> m.has((#[trigger] self.elapsed@[i]).id())
        &&& forall|i: int, j: int| 0 <= i < j < self.len() ==> (#[trigger] self.elapsed@[i]).id() != (#[trigger] self.elapsed@[j]).id()
        &&& forall|i: int, w: int| 0 <= i < self.len() && 0 <= w < self.stop.0@.len() ==> (#[trigger] self.elapsed@[i]).id() != #[trigger] self.stop.cell(w)
    }
    spec fn count(&self, m: &Mem, i: int) -> usize { m.at(self.elapsed@[i].id()) }
}
// C20: a worker reports how often it has looked at the system while it was busy with its current job
impl<'monitor> MonitorClient<'monitor> {
    spec fn ok(&self, m: &Mem, i: int) -> bool { self.monitor.ok(m) && 0 <= i < self.monitor.len() && self.stopped.of(&self.monitor.stop, i) && *self.elapsed_shared == self.monitor.elapsed@[i] && self.monitor.count(m, i) == self.elapsed }
    spec fn same(&self, o: &Self) -> bool { self.monitor == o.monitor && self.elapsed_shared == o.elapsed_shared && self.stopped == o.stopped }
}
// asked to stop: nothing changes; otherwise the counter of this worker, and no other, takes its new value
spec fn counted(c0: MonitorClient, m0: &Mem, c: MonitorClient, m: &Mem, i: int, v: int, r: Result<(), MustStop>) -> bool {
    &&& c.same(&c0) && c.ok(m, i) && r is Err == !c0.monitor.stop.active(m0, i)
    &&& if r is Err { c == c0 && m.cells == m0.cells } else { c.elapsed == v && m.cells == m0.cells.insert(c0.elapsed_shared.id(), v as usize) }
    &&& forall|j: int| 0 <= j < c0.monitor.len() && j != i ==> #[trigger] c0.monitor.count(m, j) == c0.monitor.count(m0, j)
}
"""

def make_client():
    u = flags("worker_client")
    u.assumed = "C19"
    u.item(M, "const", "BITS_PER_USIZE", rewrites=[("std::mem::size_of::<usize>()", "8", "64-bit target")])
    u.item(M, "struct", "StopFlags")
    u.raw(SEQ)
    u.fn(M, "new", impl="StopFlags", sig="fn new(len: usize, Tracked(vx_m): Tracked<&mut Mem>) -> (r: Self)",
         contract="""requires len < 0x1000_0000_0000_0000 ensures r.ok(&*final(vx_m), len as int), forall|i: int| 0 <= i < len ==> #[trigger] r.active(&*final(vx_m), i),
            forall|c: int| #[trigger] old(vx_m).has(c) ==> final(vx_m).has(c) && final(vx_m).at(c) == old(vx_m).at(c), forall|w: int| 0 <= w < r.0@.len() ==> !old(vx_m).has(#[trigger] r.cell(w)),""")
    clients(u)
    u.assumed = None
    u.trust("sysinfo: a system monitor", CSYS)
    u.item(M, "struct", "Monitor", rewrites=[("RwLock<System>", "SystemLock", ""), ("Vec<CachePadded<AtomicUsize>>", "Vec<AtomicUsize>", "padding")])
    u.item(WORKER, "struct", "MonitorClient")
    u.raw(CLIENT)
    I = "Ghost(i): Ghost<int>"
    u.fn(M, "new", impl="Monitor", sig="fn new(concurrency: usize, Tracked(vx_m): Tracked<&mut Mem>) -> (r: Self)",
         rewrites=[("assert!(sysinfo::IS_SUPPORTED_SYSTEM, $x);", "", "a constant of the target"), ("RwLock::new(System::new_with_specifics(Self::refresh_kind()))", "vx_system(RefreshKind {})", "sysinfo"), ("CachePadded::new($x)", "$x", "padding"),
                   ("AtomicUsize::new($x)", "AtomicUsize::new($x, Tracked(&mut *vx_m))", "memory passed on"), ("StopFlags::new($x)", "StopFlags::new($x, Tracked(&mut *vx_m))", "memory passed on"),
                   ("std::iter::repeat_with(|| $e).take($n).collect()", "{ let mut vx_v: Vec<AtomicUsize> = Vec::new(); let vx_n = $n; for vx_i in 0..vx_n { let vx_a = $e; vx_v.push(vx_a); } vx_v }", "repeat_with, take and collect spelled out")],
         contract="""requires concurrency < 0x1000_0000_0000_0000 ensures r.ok(final(vx_m)), r.len() == concurrency, forall|i: int| 0 <= i < concurrency ==> #[trigger] r.stop.active(final(vx_m), i), forall|i: int| 0 <= i < concurrency ==> #[trigger] r.count(final(vx_m), i) == 0,""",
         loops=[dict(kw="for", it="it", before="#[verifier::loop_isolation(false)]", inv="""invariant it.seq().len() == vx_n, vx_v@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> vx_m.has((#[trigger] vx_v@[i]).id()) && vx_m.at(vx_v@[i].id()) == 0,
            forall|i: int, j: int| 0 <= i < j < it.index@ ==> (#[trigger] vx_v@[i]).id() != (#[trigger] vx_v@[j]).id(),""")])
    u.fn(WORKER, "new", impl="MonitorClient", ret="r", contract="ensures *r.monitor == *monitor, *r.elapsed_shared == *elapsed, r.stopped == stopped, r.elapsed == 0,")
    u.fn(M, "clients", impl="Monitor", sig=f"fn clients(&self, {F}) -> (r: Vec<MonitorClient>)",
         rewrites=[("debug_assert_eq!(self.elapsed.len(), self.stop.clients().count());", "", "debugging aid without effect"),
                   ("self.elapsed.iter().zip(self.stop.clients()).map(|(elapsed, stop_client)| $x)", "{ let vx_cs = self.stop.clients(Tracked(&*vx_m), Ghost(self.len())); let mut vx_v: Vec<MonitorClient> = Vec::new(); let mut vx_k: usize = 0; for vx_c in vx_cs { if vx_k >= self.elapsed.len() { break; } let elapsed = &self.elapsed[vx_k]; let stop_client = vx_c; vx_v.push($x); vx_k = vx_k + 1; } vx_v }", "zip and map spelled out, evaluated at once")],
         contract="requires self.ok(vx_m), forall|i: int| 0 <= i < self.len() ==> #[trigger] self.stop.active(vx_m, i) && self.count(vx_m, i) == 0 ensures r@.len() == self.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i].ok(vx_m, i),",
         loops=[dict(kw="for", it="it", before="#[verifier::loop_isolation(false)]", inv="invariant it.seq() == vx_cs@, vx_k == it.index@, vx_k == vx_v@.len(), vx_v@.len() == it.index@, forall|i: int| 0 <= i < vx_v@.len() ==> #[trigger] vx_v@[i].ok(vx_m, i),",
            start="proof { let k = it.index@ as int; assert(vx_c == vx_cs@[k]); assert(self.stop.active(vx_m, k)); assert(self.count(vx_m, k) == 0); }")])
    u.fn(WORKER, "must_stop", impl="MonitorClient", sig=f"fn must_stop(&self, {F}, {I}) -> (r: bool)", rewrites=[("self.stopped.must_stop()", "self.stopped.must_stop(Tracked(&*vx_m), Ghost(&self.monitor.stop), Ghost(i), Ghost(self.monitor.len()))", "memory passed on")],
         contract="requires self.ok(vx_m, i) ensures r == !self.monitor.stop.active(vx_m, i),")
    u.fn(WORKER, "update_elapsed", impl="MonitorClient", sig=f"fn update_elapsed<UF: FnOnce(usize) -> usize>(&mut self, update: UF, {FM}, {I}) -> (r: Result<(), MustStop>)",
         rewrites=[("self.must_stop()", "self.must_stop(Tracked(&*vx_m), Ghost(i))", "memory passed on"), ("self.elapsed_shared.store(self.elapsed, Ordering::Relaxed);", "self.elapsed_shared.store(self.elapsed, Tracked(&mut *vx_m));", "memory passed on")],
         contract="requires old(self).ok(old(vx_m), i), update.requires((old(self).elapsed,)) ensures exists|v: usize| #[trigger] counted(*old(self), old(vx_m), *final(self), final(vx_m), i, v as int, r) && (r is Ok ==> update.ensures((old(self).elapsed,), v)),",
         outer="let ghost c0 = *self; let ghost m0 = *vx_m;", hints=[("before", "return Err(MustStop);", "proof { assert(counted(c0, &m0, *self, vx_m, i, 0, Err(MustStop))); assert(c0.ok(&m0, i)); assert(counted(c0, &m0, *self, vx_m, i, 0usize as int, Err(MustStop))); }")],
         tail="""assert forall|j: int| 0 <= j < c0.monitor.len() && j != i implies #[trigger] c0.monitor.count(vx_m, j) == c0.monitor.count(&m0, j) by { if j < i { assert(c0.monitor.elapsed@[j].id() != c0.monitor.elapsed@[i].id()); } else { assert(c0.monitor.elapsed@[i].id() != c0.monitor.elapsed@[j].id()); } };
            assert forall|k: int| 0 <= k < 64 * c0.monitor.stop.0@.len() implies #[trigger] c0.monitor.stop.active(vx_m, k) == c0.monitor.stop.active(&m0, k) by { assert(c0.monitor.elapsed@[i].id() != c0.monitor.stop.cell(k / 64)); };
            assert(self.monitor.ok(vx_m)); assert(counted(c0, &m0, *self, vx_m, i, self.elapsed as int, vx_ret));""")
    u.fn(WORKER, "keep_job", impl="MonitorClient", sig=f"fn keep_job(&mut self, {FM}, {I}) -> (r: Result<(), MustStop>)",
         rewrites=[("self.update_elapsed(|elapsed| $x)", "self.update_elapsed(|elapsed: usize| -> (vx_n: usize) requires elapsed < usize::MAX ensures vx_n == elapsed + 1 { $x }, Tracked(&mut *vx_m), Ghost(i))", "specified closure")],
         contract="requires old(self).ok(old(vx_m), i), old(self).elapsed < usize::MAX ensures counted(*old(self), old(vx_m), *final(self), final(vx_m), i, old(self).elapsed + 1, r),")
    u.fn(WORKER, "switch_job", impl="MonitorClient", sig=f"fn switch_job(&mut self, {FM}, {I}) -> (r: Result<(), MustStop>)",
         rewrites=[("self.update_elapsed(|_| $x)", "self.update_elapsed(|vx_e: usize| -> (vx_n: usize) ensures vx_n == 0 { $x }, Tracked(&mut *vx_m), Ghost(i))", "specified closure")],
         contract="requires old(self).ok(old(vx_m), i) ensures counted(*old(self), old(vx_m), *final(self), final(vx_m), i, 0, r),")
    return u

WORLD = r"""
// what the main thread does and sees while it measures: all that it exchanges with workers, file and caller
pub ghost enum Msg { Done(Prof), Killed(int), Failed(JobError) }
pub ghost struct Prof { pub id: int }
pub tracked struct World {
    pub ghost file: int,              // 0: no profile file yet, 1: created
    pub ghost queue: Seq<int>,        // jobs submitted so far, in order
    pub ghost workers: int,
    pub ghost started: bool,
    pub ghost received: Seq<Msg>,     // messages from workers
    pub ghost rows: Seq<Prof>,        // records written
    pub ghost flushed: bool,          // nothing was written since the last flush
    pub ghost steps: int,             // calls of step_done
    pub ghost looks: int, pub ghost timeouts: int,
    pub ghost kill_seen: bool, pub ghost stopped: bool,
    pub ghost everyone: bool,         // the monitor has killed everyone
    pub ghost disk: bool,             // a write failed
}
impl World { pub open spec fn fresh(&self) -> bool { self.file == 0 && self.queue.len() == 0 && self.workers == 0 && !self.started && self.received.len() == 0 && self.rows.len() == 0 && self.steps == 0 && self.looks == 0 && self.timeouts == 0 && !self.kill_seen && !self.stopped && !self.everyone && !self.disk } }
"""
ENV = r"""
#[verifier::external_body] pub struct BoxPath {}
#[verifier::external_body] pub struct DatabaseEntry {}
impl DatabaseEntry { pub uninterp spec fn id(&self) -> int; }
#[verifier::external_body] pub struct UnitProfile {}
impl UnitProfile { pub uninterp spec fn prof(&self) -> Prof; }
#[verifier::external_body] pub struct IoError {}
#[verifier::external_body] pub struct CsvError {}
#[verifier::external_body] pub struct Panic {}
#[verifier::external_body] pub struct Flag {}
impl Flag { #[verifier::external_body] fn load(&self, Tracked(w): Tracked<&mut World>) -> (r: bool) ensures *final(w) == (World { kill_seen: old(w).kill_seen || r, ..*old(w) }) { unimplemented!() } }
#[verifier::external_body] pub struct Writer {}
#[verifier::external_body] fn vx_create(p: BoxPath, Tracked(w): Tracked<&mut World>) -> (r: Result<Writer, IoError>) ensures *final(w) == (if r is Ok { World { file: 1, ..*old(w) } } else { World { disk: true, ..*old(w) } }) { unimplemented!() }
impl Writer {
    #[verifier::external_body] fn serialize(&mut self, u: UnitProfile, Tracked(w): Tracked<&mut World>) -> (r: Result<(), CsvError>) requires old(w).file == 1
        ensures *final(w) == (if r is Ok { World { rows: old(w).rows.push(u.prof()), flushed: false, ..*old(w) } } else { World { disk: true, ..*old(w) } }) { unimplemented!() }
    #[verifier::external_body] fn flush(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Result<(), IoError>) ensures *final(w) == (if r is Ok { World { flushed: true, ..*old(w) } } else { World { disk: true, ..*old(w) } }) { unimplemented!() }
}
spec fn ids(s: Seq<DatabaseEntry>) -> Seq<int> { s.map_values(|j: DatabaseEntry| j.id()) }
#[verifier::external_body] pub struct WorkQueue {} #[verifier::external_body] pub struct Worker {} #[verifier::external_body] pub struct MonitorClient {} 
#[verifier::external_body] pub struct WorkSender {} #[verifier::external_body] pub struct Monitor {} #[verifier::external_body] pub struct Receiver {} #[verifier::external_body] pub struct Sender {}
#[verifier::external_body] pub struct WorkReceiver {}
impl WorkReceiver { #[verifier::external_body] fn new(l: Worker, q: &WorkQueue) -> (r: Self) { unimplemented!() } }
impl WorkQueue {
    #[verifier::external_body] fn new(jobs: Vec<DatabaseEntry>, Tracked(w): Tracked<&mut World>) -> (r: Self) ensures *final(w) == (World { queue: ids(jobs@), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body] fn local_queues(&self, n: usize) -> (r: Vec<Worker>) requires n > 0 ensures r@.len() == n { unimplemented!() }
    #[verifier::external_body] fn sender(&self) -> (r: WorkSender) { unimplemented!() }
}
impl WorkSender {
    #[verifier::external_body] fn start(&mut self, Tracked(w): Tracked<&mut World>) requires !old(w).started ensures *final(w) == (World { started: true, ..*old(w) }) { unimplemented!() }
    #[verifier::external_body] fn push(&mut self, j: DatabaseEntry, Tracked(w): Tracked<&mut World>) requires old(w).started ensures *final(w) == (World { queue: old(w).queue.push(j.id()), ..*old(w) }) { unimplemented!() }
}
#[verifier::external_body] fn vx_channel() -> (r: (Sender, Receiver)) { unimplemented!() }
impl Clone for Sender { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] fn vx_zip(a: Vec<Worker>, b: Vec<MonitorClient>) -> (r: Vec<(Worker, MonitorClient)>) ensures r@.len() == (if a@.len() < b@.len() { a@.len() } else { b@.len() }) { unimplemented!() }
#[verifier::external_body] fn vx_spawn_worker(input: WorkReceiver, output: Sender, m: MonitorClient, timed: bool, Tracked(w): Tracked<&mut World>) requires !old(w).started ensures *final(w) == (World { workers: old(w).workers + 1, ..*old(w) }) { unimplemented!() }
impl Monitor {
    #[verifier::external_body] fn new(n: usize) -> (r: Self) ensures r.workers() == n { unimplemented!() }
    uninterp spec fn workers(&self) -> int;
    #[verifier::external_body] fn clients(&self) -> (r: Vec<MonitorClient>) ensures r@.len() == self.workers() { unimplemented!() }
    #[verifier::external_body] fn server(&self) -> (r: MonitorServer) ensures r.alive() == self.workers() { unimplemented!() }
}
#[verifier::external_body] pub struct MonitorServer {}
impl MonitorServer {
    uninterp spec fn alive(&self) -> int;   // workers that have not been stopped
    #[verifier::external_body] fn update(&mut self, Tracked(w): Tracked<&mut World>) -> (r: MonitorStatus) requires old(self).alive() > 0
        ensures *final(w) == (World { looks: old(w).looks + 1, everyone: r is KilledEveryone, ..*old(w) }), !(r is KilledEveryone) ==> final(self).alive() > 0 { unimplemented!() }
    #[verifier::external_body] fn stop_all(&mut self, Tracked(w): Tracked<&mut World>) ensures *final(w) == (World { stopped: true, ..*old(w) }) { unimplemented!() }
}
pub struct MustWait {}
pub enum RecvTimeoutError { Timeout, Disconnected }
spec fn msg(r: Result<UnitProfile, JobError>) -> Msg { match r { Ok(u) => Msg::Done(u.prof()), Err(JobError::Killed(j)) => Msg::Killed(j.id()), Err(e) => Msg::Failed(e) } }
impl Receiver {
    // workers wait for the main thread, so that the channel stays open
    #[verifier::external_body] fn recv_timeout(&self, d: Duration, Tracked(w): Tracked<&mut World>) -> (r: Result<Result<UnitProfile, JobError>, RecvTimeoutError>) requires old(w).started
        ensures *final(w) == (match r { Ok(m) => World { received: old(w).received.push(msg(m)), ..*old(w) }, Err(_) => World { timeouts: old(w).timeouts + 1, ..*old(w) } }), r matches Err(e) ==> e is Timeout { unimplemented!() }
}
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Duration {}
#[derive(Clone, Copy)] #[verifier::external_body] pub struct Instant {}
impl Instant { #[verifier::external_body] fn now() -> (r: Instant) { unimplemented!() } #[verifier::external_body] fn saturating_duration_since(&self, o: Instant) -> (r: Duration) { unimplemented!() } #[verifier::external_body] fn vx_plus(self, d: Duration) -> (r: Instant) { unimplemented!() } }
#[verifier::external_body] pub struct PollClock {}
impl PollClock { #[verifier::external_body] fn start() -> (r: Self) { unimplemented!() } #[verifier::external_body] fn poll_delay(&mut self) -> (r: Duration) { unimplemented!() } }
#[derive(Clone, Copy)] pub struct NonZeroUsize { v: usize }
impl NonZeroUsize { #[verifier::type_invariant] spec fn inv(self) -> bool { self.v > 0 } fn get(self) -> (r: usize) ensures r > 0, r == self.val() { proof { use_type_invariant(self); } self.v } closed spec fn val(self) -> usize { self.v } }
#[verifier::external_body] fn vx_threads() -> (r: Option<NonZeroUsize>) { unimplemented!() }
"""
RUN = r"""
// ---- C21: the main thread ----
// the profiles among the messages, in order
spec fn done(s: Seq<Msg>) -> Seq<Prof> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { Msg::Done(p) => done(s.drop_last()).push(p), _ => done(s.drop_last()) } } }
// the jobs to be done again, in order
spec fn again(s: Seq<Msg>) -> Seq<int> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { Msg::Killed(j) => again(s.drop_last()).push(j), _ => again(s.drop_last()) } } }
spec fn usable(s: Seq<Msg>) -> bool { forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i] is Failed) }
spec fn measured(jobs: Seq<int>, timed: bool, conc: Option<usize>, r: Result<(), MeasureError>, w: World) -> bool {
    let n = jobs.len();
    // whatever happens: what was not finished is handed out again, and what was finished is on record and was counted
    &&& w.file == 1 ==> w.queue == jobs + again(w.received) || (w.disk || w.received.len() > 0 && w.received.last() is Failed)
    &&& w.started ==> w.workers > 0 && (conc matches Some(c) ==> w.workers == c) && (conc is None && timed ==> w.workers == 1)
    &&& match r {
        // all is recorded, in the order in which it was finished, and safe
        Ok(()) => w.file == 1 && usable(w.received) && done(w.received).len() == n && w.rows == done(w.received) && w.steps == n && w.flushed && w.queue == jobs + again(w.received) && !w.stopped && !w.everyone && w.looks == w.timeouts,
        Err(MeasureError::Killed) => w.kill_seen && w.stopped && w.rows == done(w.received) && w.steps == w.rows.len(),
        Err(MeasureError::OutOfMemory) => w.everyone && w.rows == done(w.received) && w.steps == w.rows.len(),
        Err(MeasureError::Job(e)) => w.received.len() > 0 && w.received.last() == Msg::Failed(e) && w.rows == done(w.received) && w.steps == w.rows.len(),
        Err(MeasureError::Csv(_)) => w.disk, Err(MeasureError::Io(_)) => w.disk,
        Err(MeasureError::Panicked(_)) => false,
    }
}
"""

def make_run():
    u = Unit("measurement")
    u.raw(WORLD)
    u.item(WORKER, "enum", "JobError", rewrites=[("io::Error", "IoError", "")])
    u.trust("the environment of the main thread: every call is recorded; workers keep the channel open; std's channel, file and csv writer; MonitorServer::update by what C20 proves", ENV)
    u.item(MAIN, "enum", "MonitorStatus")
    u.item(MAIN, "enum", "MeasureError", rewrites=[("csv::Error", "CsvError", ""), ("io::Error", "IoError", ""), ("Box<dyn Any + Send + 'static>", "Panic", "")])
    u.raw("fn vx_assert(b: bool) requires b {}")
    u.raw(RUN)
    u.rule("log::info!($x);", "", "logging")
    u.fn(MAIN, "available_parallelism", ret="r", rewrites=[("std::thread::available_parallelism().map(usize::from).unwrap_or($x)", "(match vx_threads() { Some(vx_n) => vx_n.get(), None => $x })", "map and unwrap_or spelled out")],
         contract="ensures r > 0,")
    u.fn(MAIN, "concurrency", sig="fn choose_concurrency(measure_time: bool, concurrency: Option<NonZeroUsize>) -> (r: usize)", rewrites=[("concurrency.map(usize::from).unwrap_or($x)", "(match concurrency { Some(vx_n) => vx_n.get(), None => $x })", "map and unwrap_or spelled out")],
         contract="ensures r > 0, concurrency matches Some(c) ==> r == c.val(), concurrency is None && measure_time ==> r == 1,")
    W = "Tracked(&mut *vx_w)"
    u.fn(MAIN, "run", sig="fn run(path: BoxPath, jobs: Vec<DatabaseEntry>, measure_time: bool, concurrency_opt: Option<NonZeroUsize>, kill: Flag, Tracked(vx_w): Tracked<&mut World>) -> (r: Result<(), MeasureError>)",
         rewrites=[("concurrency(measure_time, concurrency_opt)", "choose_concurrency(measure_time, concurrency_opt)", "renamed: a parameter of that function has its name"), ("std::panic::catch_unwind(move || { $b_x })?", "{ $b_x }", "panics are excluded by the proof"), ("std::thread::scope(|s| { $b_x })", "{ $b_x }", "scope"),
                   ("csv::Writer::from_writer(File::create(path)?)", f"match vx_create(path, {W}) {{ Ok(vx_f) => vx_f, Err(vx_e) => return Err(MeasureError::Io(vx_e)) }}", "? with the derived conversion"),
                   ("WorkQueue::new(jobs)", f"WorkQueue::new(jobs, {W})", "recorded"), ("let mut work_queue", "let work_queue", ""), ("mpsc::channel()", "vx_channel()", ""),
                   ("for ($i_l, $i_m) in work_queue.local_queues(concurrency).zip(monitor.clients()) {", "let vx_pairs = vx_zip(work_queue.local_queues(concurrency), monitor.clients()); for vx_p in vx_pairs { let ($i_l, $i_m) = vx_p;", "zip"),
                   ("s.spawn(move || { worker::run($a,) });", f"vx_spawn_worker($a, {W});", "a thread that runs worker::run"),
                   ("s.spawn(move || { worker::run($a) });", f"vx_spawn_worker($a, {W});", "a thread that runs worker::run"),
                   ("s.spawn(move || worker::run($a));", f"vx_spawn_worker($a, {W});", "a thread that runs worker::run"),
                   ("work_sender.start()", f"work_sender.start({W})", "recorded"), ("Instant::now() + poll_clock.poll_delay()", "Instant::now().vx_plus(poll_clock.poll_delay())", ""),
                   ("kill.load(Ordering::Relaxed)", f"kill.load({W})", "recorded"), ("atomic::fence($x);", "", "memory ordering"), ("monitor_server.stop_all()", f"monitor_server.stop_all({W})", "recorded"),
                   ("results_receiver.recv_timeout(poll_delay)", f"results_receiver.recv_timeout(poll_delay, {W})", "recorded"), ("work_sender.push(job)", f"work_sender.push(job, {W})", "recorded"),
                   ("let unit_profile = other_result?;", "let unit_profile = match other_result { Ok(vx_u) => vx_u, Err(vx_e) => return Err(MeasureError::Job(vx_e)) };", "? with the derived conversion"),
                   ("writer.serialize(unit_profile)?;", f"match writer.serialize(unit_profile, {W}) {{ Ok(_) => {{}}, Err(vx_e) => return Err(MeasureError::Csv(vx_e)) }};", "? with the derived conversion"),
                   ("step_done();", "proof { vx_w.steps = vx_w.steps + 1; }", "a call of step_done, recorded"), ("monitor_server.update()", f"monitor_server.update({W})", "recorded"),
                   ("unreachable!($x)", "{ vx_assert(false); return Ok(()); }", "must not be reached"),
                   ("writer.flush()?;", f"match writer.flush({W}) {{ Ok(_) => {{}}, Err(vx_e) => return Err(MeasureError::Io(vx_e)) }};", "? with the derived conversion")],
         contract="requires old(vx_w).fresh() ensures measured(ids(jobs@), measure_time, match concurrency_opt { Some(c) => Some(c.val()), None => None }, r, *final(vx_w)),",
         attrs="#[verifier::exec_allows_no_decreases_clause]",
         loops=[dict(kw="for", it="it", before="#[verifier::loop_isolation(false)]", inv="invariant it.seq() == vx_pairs@, *vx_w == (World { file: 1, queue: ids(jobs@), workers: it.index@ as int, ..*old(vx_w) }),"),
                dict(kw="while", before="let ghost js = ids(jobs@); let ghost w0 = *vx_w; #[verifier::loop_isolation(false)]", inv="""invariant vx_w.file == 1, vx_w.started, !vx_w.stopped, !vx_w.everyone, !vx_w.disk, vx_w.looks == vx_w.timeouts, vx_w.workers == w0.workers, monitor_server.alive() > 0,
                        vx_w.queue == js + again(vx_w.received), usable(vx_w.received), vx_w.rows == done(vx_w.received), vx_w.steps == vx_w.rows.len(), remaining_jobs + vx_w.rows.len() == js.len(),""",
                     start="let ghost w1 = *vx_w; proof { assert forall|m: Msg| #[trigger] w1.received.push(m).drop_last() == w1.received by { assert(w1.received.push(m).drop_last() =~= w1.received); } }")])
    return u
