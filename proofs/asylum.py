"""C04-C06: interners of the asylum crate."""
from vx.unit import Unit
from vx import extract as X
L = "asylum/src/lib.rs"
Q = "asylum/src/sequence.rs"
PA = "asylum/src/path.rs"

def need(u, n, *pats):
    """the mechanical rewrites that stand for implicit drops must have applied exactly n times each"""
    for p in pats:
        got = sum(v for k, v in u.rewrites.items() if k.startswith(p + "  ==>"))
        if got != n: raise X.LostAnchor(f"`{p}` found {got} times, expected {n}")

def table(u):
    u.trust("hashbrown RawTable: get(h, eq) returns an entry satisfying eq, or None only if no entry stored under hash h satisfies eq; "
            "insert(h, k, rehash) adds k under h provided rehash reproduces the hash every stored entry was inserted with (the table may "
            "re-bucket on growth)", r"""
#[verifier::external_body] #[verifier::reject_recursive_types(K)] pub struct RawTable<K> { k: Vec<K> }
impl<K> RawTable<K> {
    pub uninterp spec fn view(&self) -> Seq<(u64, K)>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn get<F: Fn(&K) -> bool>(&self, hash: u64, eq: F) -> (r: Option<&K>)
        requires forall|i: int| 0 <= i < self@.len() ==> #[trigger] eq.requires((&self@[i].1,)),
        ensures match r {
            Some(k) => exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i].1 == *k && eq.ensures((&self@[i].1,), true),
            None => forall|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).0 == hash ==> eq.ensures((&self@[i].1,), false),
        } { unimplemented!() }
    #[verifier::external_body] pub fn insert<F: Fn(&K) -> u64>(&mut self, hash: u64, k: K, rehash: F)
        requires
            forall|i: int| 0 <= i < old(self)@.len() ==> #[trigger] rehash.requires((&old(self)@[i].1,)),
            forall|i: int, h: u64| 0 <= i < old(self)@.len() && #[trigger] rehash.ensures((&old(self)@[i].1,), h) ==> h == old(self)@[i].0,
        ensures final(self)@ == old(self)@.push((hash, k)) { unimplemented!() }
}
""")
    u.trust("hashing is a function of the hasher state and of the value (Hash agrees with Eq), and == on items, slices and keys is equality of "
            "their mathematical values (lawful Eq)", r"""
#[verifier::external_body] pub struct RandomState {}
pub uninterp spec fn hash1<T>(s: RandomState, x: T) -> u64;
pub uninterp spec fn hashs<T>(s: RandomState, x: Seq<T>) -> u64;
impl RandomState { #[verifier::external_body] pub fn new() -> Self { unimplemented!() } }
#[verifier::external_body] pub fn vx_hash1<T>(s: &RandomState, x: &T) -> (r: u64) ensures r == hash1(*s, *x) { unimplemented!() }
#[verifier::external_body] pub fn vx_hashs<T>(s: &RandomState, x: &[T]) -> (r: u64) ensures r == hashs(*s, x@) { unimplemented!() }
#[verifier::external_body] pub fn vx_eq<T>(a: &T, b: &T) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
#[verifier::external_body] pub fn vx_eqs<T>(a: &[T], b: &[T]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
""")
    u.trust("Option::expect on an exhausted key space is a documented panic (the call does not return)", r"""
#[verifier::external_body] pub fn vx_expect<T>(o: Option<T>) -> (r: T) ensures o == Some(r) { unimplemented!() }
#[verifier::external_body] pub fn vx_cloned<T: Copy>(o: Option<&T>) -> (r: Option<T>)
    ensures match o { Some(x) => r == Some(*x), None => r is None } { unimplemented!() }
""")
def make_interner():
    u = Unit("interner")
    table(u)
    u.trust("lasso::Key: keys convert to and from distinct indices (into_usize inverts try_from_usize, no two keys share an index)", r"""
pub trait Key: Copy + Sized {
    spec fn idx(self) -> int;
    fn into_usize(self) -> (r: usize) ensures r == self.idx();
    fn try_from_usize(i: usize) -> (r: Option<Self>) ensures r matches Some(k) ==> k.idx() == i;
    proof fn inj(a: Self, b: Self) ensures a.idx() == b.idx() ==> a == b;
}
pub struct PhantomData<T>(Option<T>);
pub trait Hash {}
""")
    u.item(L, "struct", "Interner", rewrites=[("Item: Clone + Eq + Hash", "Item", "bounds used only through the trusted functions"), ("K: Key = Spur", "K: Key", "default type argument")],
           prefix="#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(Item)]")
    u.raw(r"""
impl<Item, K: Key> Interner<Item, K> {
    // what the interner stands for: the list of distinct items, each with its key
    spec fn wf(&self) -> bool {
        &&& self.keys@.len() == self.items@.len()
        &&& forall|i: int| 0 <= i < self.items@.len() ==> (#[trigger] self.keys@[i]).1.idx() == i
        &&& forall|i: int| 0 <= i < self.items@.len() ==> (#[trigger] self.keys@[i]).0 == hash1(self.random_state, self.items@[i])
        &&& forall|i: int, j: int| 0 <= i < j < self.items@.len() ==> self.items@[i] != self.items@[j]
    }
    spec fn issued(&self, k: K) -> bool { 0 <= k.idx() < self.items@.len() }
    spec fn at(&self, k: K) -> Item { self.items@[k.idx()] }
    // C04: two keys are equal iff the items they stand for are
    proof fn keys_identify_items(&self, a: K, b: K)
        requires self.wf(), self.issued(a), self.issued(b),
        ensures a == b <==> self.at(a) == self.at(b),
    { K::inj(a, b); }
}
""")
    R = [("self.keys.get($h, |key| $p == item).cloned().unwrap_or_else(|| { $b_body })",
          "match vx_cloned(self.keys.get($h, |key: &K| -> (b: bool) requires 0 <= key.idx() < self.items@.len(), ensures b == (self.items@[key.idx()] == item), { vx_eq(&$p, &item) })) { Some(vx_k) => vx_k, None => { $b_body } }",
          "Option::cloned/unwrap_or_else spelled out as a match, closure annotated"),
         ("self.keys.insert($h, $k, |key| { $b_body })",
          "let ghost vx_items = self.items@; let ghost vx_rs = self.random_state; { let vx_self_items = &self.items; let vx_self_rs = &self.random_state; "
          "self.keys.insert($h, $k, |key: &K| -> (b: u64) requires 0 <= key.idx() < vx_items.len(), ensures b == hash1(vx_rs, vx_items[key.idx()]), { $b_body }) }",
          "closure annotated; its captured fields bound by name"),
         ("self.random_state.hash_one(&self.items[$e])", "vx_hash1(vx_self_rs, &vx_self_items[$e])", "trusted hash function, captured fields"),
         ("self.random_state.hash_one(&item)", "vx_hash1(&self.random_state, &item)", "trusted hash function"),
         ("K::try_from_usize($a).expect($m)", "vx_expect(K::try_from_usize($a))", "Option::expect as trusted function")]
    H = "impl<Item, K: Key> Interner<Item, K>"
    u.fn(L, "new", impl="Interner", header=H, ret="r", contract="ensures r.wf(), r.items@.len() == 0,")
    u.fn(L, "intern", impl="Interner", header=H, ret="r", rewrites=R, contract=r"""
        requires old(self).wf(),
        ensures final(self).wf(), final(self).issued(r), final(self).at(r) == item,
            // nothing interned before changes
            old(self).items@.len() <= final(self).items@.len() <= old(self).items@.len() + 1,
            forall|i: int| 0 <= i < old(self).items@.len() ==> final(self).items@[i] == old(self).items@[i],
            // a known item gets the key it already has, and adds nothing
            (exists|k: K| old(self).issued(k) && old(self).at(k) == item) ==> final(self).items@ == old(self).items@ && old(self).issued(r),
            final(self).random_state == old(self).random_state,
        """,
         tail=r"""
            let old_items = old(self).items@; let old_keys = old(self).keys@;
            assert forall|i: int| 0 <= i < old_items.len() && self.items@.len() > old_items.len() implies #[trigger] old_items[i] != item by {
                assert(old_keys[i].1.idx() == i); assert(old_keys[i].0 == hash1(self.random_state, old_items[i]));
            }
            assert forall|k: K| 0 <= k.idx() < old_items.len() && old_items[k.idx()] == item implies self.items@ == old_items && vx_ret.idx() < old_items.len() by {
                let i = k.idx();
                assert(old_keys[i].1.idx() == i); K::inj(old_keys[i].1, k);
                assert(old_keys[i].0 == hash1(self.random_state, item));
            }
         """)
    u.raw(r"""
#[verifier::reject_recursive_types(K)]
pub struct Interned<Item, K: Key>(pub Box<[Item]>, pub PhantomData<K>);
#[verifier::external_body] pub fn vx_boxed<T>(v: Vec<T>) -> (r: Box<[T]>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vx_phantom<T>() -> PhantomData<T> { unimplemented!() }
""")
    u.fn(L, "get", impl="Interner", trait="Resolver", header=H, ret="r", rewrites=[("Self::Key", "K", "associated type"), ("into_impl_key()", "into_usize()", "blanket InternerKey impl for Key")],
         rename="get", contract="requires self.issued(key), ensures *r == self.at(key),")
    u.fn(L, "is_empty", impl="Interner", header=H, ret="r", contract="ensures r == (self.items@.len() == 0),")
    u.fn(L, "len", impl="Interner", header=H, ret="r", contract="ensures r == self.items@.len(),")
    u.fn(L, "finalize", impl="Interner", header=H, ret="r", rewrites=[("self.items.into()", "vx_boxed(self.items)", "Vec -> Box<[T]> conversion"), ("PhantomData", "vx_phantom()", "marker"), ("Interned<Item, K>", "Interned<Item, K>", "")],
         contract="ensures r.0@ == self.items@,")
    u.fn(L, "get", impl="Interned", trait="Resolver", header="impl<Item, K: Key> Interned<Item, K>", ret="r", rewrites=[("into_impl_key()", "into_usize()", "blanket InternerKey impl for Key")],
         contract="requires 0 <= key.idx() < self.0@.len(), ensures *r == self.0@[key.idx()],")
    return u

def sequences(name, entry=True, assumed=None):
    u = Unit(name)
    u.assumed = assumed
    table(u)
    u.trust("two in-memory lengths add up to less than usize::MAX (std: allocations are at most isize::MAX bytes; interned items are not zero-sized)", r"""
#[verifier::external_body] proof fn vx_fits<T>(v: &Vec<T>, n: usize) ensures v@.len() + n <= usize::MAX { unimplemented!() }
""")
    u.trust("Vec -> Box<[T]> conversion, Vec::truncate, Range::count/len as documented by std", r"""
#[verifier::external_body] pub fn vx_boxed<T>(v: Vec<T>) -> (r: Box<[T]>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn vx_phantom<T>() -> PhantomData<T> { unimplemented!() }
pub struct PhantomData<T>(Option<T>);
""")
    u.trust("Vec::extend_from_slice appends equal items (a clone of an interned item equals it)", r"""
#[verifier::external_body] pub fn vx_extend<T: Clone>(v: &mut Vec<T>, s: &[T]) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }
""")
    u.raw(r"""
use core::ops::Range;
// contract of a sequence key; for the key type in use it is what unit `sequence_key` proves
pub trait InternerKey: Copy + Sized {
    spec fn lo(self) -> int;
    spec fn hi(self) -> int;
    fn into_impl_key(self) -> (r: Range<usize>) ensures r.start == self.lo(), r.end == self.hi(), self.lo() <= self.hi();
    fn try_from_impl_key(r: Range<usize>) -> (k: Option<Self>)
        requires r.start <= r.end,
        ensures k matches Some(k) ==> k.lo() == r.start && k.hi() == r.end;
}
""")
    G = "Item: Clone, K: InternerKey"
    RS = [("K: InternerKey<ImplKey = Range<usize>> = SequenceKey<Spur, 8>>", "K: InternerKey>", "default type argument, associated type fixed to Range<usize>"),
          ("K: InternerKey<ImplKey = Range<usize>> = SequenceKey<Spur, 8>", "K: InternerKey", "default type argument, associated type fixed to Range<usize>"),
          ("Item: Clone + Eq + Hash", "Item: Clone", "bounds used only through the trusted functions")]
    u.item(Q, "struct", "SequenceInterner", rewrites=RS, prefix="#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(Item)]")
    u.item(Q, "struct", "InternedSequences", rewrites=RS, prefix="#[verifier::reject_recursive_types(K)]")
    if entry: u.item(Q, "struct", "SequenceEntry", rewrites=RS, prefix="#[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(Item)]")
    u.raw(r"""
impl<Item: Clone, K: InternerKey> SequenceInterner<Item, K> {
    spec fn at(&self, k: K) -> Seq<Item> { self.concatenated@.subrange(k.lo(), k.hi()) }
    spec fn issued(&self, k: K) -> bool { exists|i: int| 0 <= i < self.sequences@.len() && #[trigger] self.sequences@[i].1 == k }
    spec fn knows(&self, s: Seq<Item>) -> bool { exists|i: int| 0 <= i < self.sequences@.len() && self.at((#[trigger] self.sequences@[i]).1) == s }
    // table consistent with the first `n` stored items
    spec fn wf_upto(&self, n: int) -> bool {
        &&& 0 <= n <= self.concatenated@.len()
        &&& forall|i: int| 0 <= i < self.sequences@.len() ==> 0 <= (#[trigger] self.sequences@[i]).1.lo() <= self.sequences@[i].1.hi() <= n
        &&& forall|i: int| 0 <= i < self.sequences@.len() ==> (#[trigger] self.sequences@[i]).0 == hashs(self.random_state, self.at(self.sequences@[i].1))
        &&& forall|i: int, j: int| 0 <= i < j < self.sequences@.len() ==> self.at((#[trigger] self.sequences@[i]).1) != self.at((#[trigger] self.sequences@[j]).1)
    }
    spec fn wf(&self) -> bool { self.wf_upto(self.concatenated@.len() as int) }
    // everything interned in `o` is still there, under the same keys
    spec fn extends(&self, o: &Self) -> bool {
        &&& self.random_state == o.random_state
        &&& o.sequences@.len() <= self.sequences@.len()
        &&& forall|i: int| 0 <= i < o.sequences@.len() ==> self.sequences@[i] == #[trigger] o.sequences@[i] && self.at(self.sequences@[i].1) == o.at(o.sequences@[i].1)
    }
    // effect of interning s: r stands for s, a known sequence keeps its key and adds nothing
    spec fn interned(&self, o: &Self, s: Seq<Item>, r: K) -> bool {
        &&& self.wf() && self.extends(o) && self.issued(r) && self.at(r) == s && r.lo() <= r.hi() <= self.concatenated@.len()
        &&& if o.knows(s) { self.sequences@ == o.sequences@ && self.concatenated@ == o.concatenated@ }
            else { self.sequences@.len() == o.sequences@.len() + 1 && self.concatenated@ == o.concatenated@ + s }
    }
    proof fn keys_identify_sequences(&self, a: K, b: K)
        requires self.wf(), self.issued(a), self.issued(b),
        ensures a == b <==> self.at(a) == self.at(b),
    {
        let i = choose|i: int| 0 <= i < self.sequences@.len() && #[trigger] self.sequences@[i].1 == a;
        let j = choose|j: int| 0 <= j < self.sequences@.len() && #[trigger] self.sequences@[j].1 == b;
        if i < j {} else if j < i {}
    }
    // adding the sequence stored at [n, len) to a table that does not know it
    proof fn lemma_added(&self, mid: &Self, o: &Self, k: K, n: int)
        requires o.wf(), n == o.concatenated@.len(), n <= self.concatenated@.len(),
            self.concatenated@.subrange(0, n) == o.concatenated@, self.random_state == o.random_state,
            k.lo() == n, k.hi() == self.concatenated@.len(), !o.knows(self.concatenated@.subrange(n, self.concatenated@.len() as int)),
            self.sequences@ == o.sequences@.push((hashs(o.random_state, self.concatenated@.subrange(n, self.concatenated@.len() as int)), k)),
        ensures self.interned(o, self.concatenated@.subrange(n, self.concatenated@.len() as int), k),
    {
        let s = self.concatenated@.subrange(n, self.concatenated@.len() as int);
        assert(self.concatenated@ =~= o.concatenated@ + s);
        assert forall|i: int| 0 <= i < o.sequences@.len() implies self.sequences@[i] == #[trigger] o.sequences@[i] && self.at(self.sequences@[i].1) == o.at(o.sequences@[i].1) by {
            lemma_prefix(o.concatenated@, self.concatenated@, o.sequences@[i].1.lo(), o.sequences@[i].1.hi()); }
        assert(self.sequences@.last().1 == k);
        assert(self.issued(k)) by { assert(self.sequences@[o.sequences@.len() as int].1 == k); }
        assert forall|i: int, j: int| 0 <= i < j < self.sequences@.len() implies self.at((#[trigger] self.sequences@[i]).1) != self.at((#[trigger] self.sequences@[j]).1) by {
            assert(o.sequences@[i] == self.sequences@[i]);
            if j < o.sequences@.len() { assert(o.sequences@[j] == self.sequences@[j]); }
        }
        assert forall|i: int| 0 <= i < self.sequences@.len() implies (#[trigger] self.sequences@[i]).0 == hashs(self.random_state, self.at(self.sequences@[i].1)) by {
            if i < o.sequences@.len() { assert(o.sequences@[i] == self.sequences@[i]); } }
        assert forall|i: int| 0 <= i < self.sequences@.len() implies 0 <= (#[trigger] self.sequences@[i]).1.lo() <= self.sequences@[i].1.hi() <= self.concatenated@.len() by {
            if i < o.sequences@.len() { assert(o.sequences@[i] == self.sequences@[i]); } }
    }
    // items past n do not matter to the table
    proof fn lemma_tail(&self, o: &Self, n: int)
        requires self.wf_upto(n), n == o.concatenated@.len(), self.concatenated@.subrange(0, n) == o.concatenated@, self.sequences@ == o.sequences@, self.random_state == o.random_state,
        ensures o.wf(), o.extends(self), self.extends(o), forall|s: Seq<Item>| #[trigger] o.knows(s) == self.knows(s),
            forall|k: K| 0 <= k.lo() <= k.hi() <= n ==> #[trigger] o.at(k) == self.at(k),
    {
        assert forall|k: K| 0 <= k.lo() <= k.hi() <= n implies #[trigger] o.at(k) == self.at(k) by {
            lemma_prefix(o.concatenated@, self.concatenated@, k.lo(), k.hi()); }
        assert forall|s: Seq<Item>| #[trigger] o.knows(s) == self.knows(s) by {
            if o.knows(s) { let i = choose|i: int| 0 <= i < o.sequences@.len() && o.at((#[trigger] o.sequences@[i]).1) == s; assert(self.at(self.sequences@[i].1) == s); }
            if self.knows(s) { let i = choose|i: int| 0 <= i < self.sequences@.len() && self.at((#[trigger] self.sequences@[i]).1) == s; assert(o.at(o.sequences@[i].1) == s); }
        }
    }
}
proof fn lemma_prefix<T>(a: Seq<T>, b: Seq<T>, lo: int, hi: int)
    requires 0 <= lo <= hi <= a.len() <= b.len(), b.subrange(0, a.len() as int) == a,
    ensures a.subrange(lo, hi) == b.subrange(lo, hi),
{
    assert forall|i: int| lo <= i < hi implies a[i] == b[i] by { assert(b.subrange(0, a.len() as int)[i] == b[i]); }
    assert(a.subrange(lo, hi) =~= b.subrange(lo, hi));
}
""")
    H = f"impl<{G}> SequenceInterner<Item, K>"
    EXP = ("K::try_from_impl_key($a).expect($m)", "vx_expect(K::try_from_impl_key($a))", "Option::expect as trusted function")
    u.fn(Q, "new", impl="SequenceInterner", header=H, ret="r", contract="ensures r.wf(), r.sequences@.len() == 0, r.concatenated@.len() == 0,")
    u.fn(Q, "get_sequence_key", impl="SequenceInterner", header=H, ret="r", rewrites=[
        ("self.sequences.get($h, |key| { &self.concatenated[$i] == sequence }).cloned()",
         "vx_cloned(self.sequences.get($h, |key: &K| -> (b: bool) requires 0 <= key.lo() <= key.hi() <= self.concatenated@.len(), ensures b == (self.at(*key) == sequence@), { vx_eqs(&self.concatenated[$i], sequence) }))",
         "closure annotated, slice equality as trusted function")],
        contract=r"""
        requires exists|n: int| #[trigger] self.wf_upto(n), sequence_hash == hashs(self.random_state, sequence@),
        ensures match r { Some(k) => self.issued(k) && self.at(k) == sequence@, None => !self.knows(sequence@) },
        """, start="let ghost n = choose|n: int| #[trigger] self.wf_upto(n);",
        tail="""if vx_ret is None && self.knows(sequence@) {
                let i = choose|i: int| 0 <= i < self.sequences@.len() && self.at((#[trigger] self.sequences@[i]).1) == sequence@;
                assert(self.sequences@[i].0 == sequence_hash);
            }""")
    u.fn(Q, "insert_sequence_key", impl="SequenceInterner", header=H, rewrites=[
        ("self.sequences.insert($h, $k, |key| { self.random_state.hash_one(&self.concatenated[$i]) })",
         "let ghost vx_o = *old(self); { let vx_self_concatenated = &self.concatenated; let vx_self_rs = &self.random_state; "
         "self.sequences.insert($h, $k, |key: &K| -> (b: u64) requires 0 <= key.lo() <= key.hi() <= vx_o.concatenated@.len(), ensures b == hashs(vx_o.random_state, vx_o.at(*key)), { vx_hashs(vx_self_rs, &vx_self_concatenated[$i]) }) }",
         "closure annotated; its captured fields bound by name")],
        contract=r"""
        requires exists|n: int| #[trigger] old(self).wf_upto(n),
        ensures final(self).sequences@ == old(self).sequences@.push((sequence_hash, sequence_key)),
            final(self).concatenated == old(self).concatenated, final(self).random_state == old(self).random_state,
        """, start="let ghost n = choose|n: int| #[trigger] old(self).wf_upto(n);")
    u.fn(Q, "intern", impl="SequenceInterner", header=H, ret="r", rewrites=[EXP, ("self.concatenated.extend_from_slice($a)", "vx_extend(&mut self.concatenated, $a)", "trusted std function"),
        ("self.random_state.hash_one(sequence)", "vx_hashs(&self.random_state, sequence)", "trusted hash function"),
        ("self.get_sequence_key($a, $b).unwrap_or_else(|| { $b_body })", "match self.get_sequence_key($a, $b) { Some(vx_k) => vx_k, None => { $b_body } }", "Option::unwrap_or_else spelled out")],
        contract="""requires old(self).wf(), ensures final(self).interned(old(self), sequence@, r),""",
        start="proof { vx_fits(&self.concatenated, sequence.len()); assert(self.wf_upto(self.concatenated@.len() as int)); }",
        hints=[("after", "self.insert_sequence_key($a, $b);", """proof {
            assert(self.concatenated@.subrange(0, start as int) =~= old(self).concatenated@);
            assert(self.concatenated@.subrange(start as int, self.concatenated@.len() as int) =~= sequence@);
            self.lemma_added(old(self), old(self), key, start as int); }"""),
               ("after", "vx_extend(&mut self.concatenated, $a);", """proof {
            assert(self.concatenated@.subrange(0, start as int) =~= old(self).concatenated@);
            assert forall|i: int| 0 <= i < self.sequences@.len() implies self.at((#[trigger] self.sequences@[i]).1) == old(self).at(self.sequences@[i].1) by {
                lemma_prefix(old(self).concatenated@, self.concatenated@, self.sequences@[i].1.lo(), self.sequences@[i].1.hi()); }
            assert(self.wf_upto(start as int)); }""")],
        tail="""if old(self).knows(sequence@) { 
            assert(self.issued(vx_ret));
            let i = choose|i: int| 0 <= i < self.sequences@.len() && #[trigger] self.sequences@[i].1 == vx_ret; assert(self.sequences@[i].1.hi() <= self.concatenated@.len()); }""")
    u.fn(Q, "get", impl="SequenceInterner", trait="Resolver", header=H, ret="r", contract="requires 0 <= key.lo() <= key.hi() <= self.concatenated@.len(), ensures r@ == self.at(key),", rewrites=[("[Item]", "[Item]", "")])
    u.fn(Q, "len", impl="SequenceInterner", header=H, ret="r", contract="ensures r == self.sequences@.len(),")
    u.fn(Q, "is_empty", impl="SequenceInterner", header=H, ret="r", contract="ensures r == (self.sequences@.len() == 0),")
    u.fn(Q, "num_items", impl="SequenceInterner", header=H, ret="r", contract="ensures r == self.concatenated@.len(),")
    u.fn(Q, "finalize", impl="SequenceInterner", header=H, ret="r", rewrites=[("self.concatenated.into_boxed_slice()", "vx_boxed(self.concatenated)", "trusted std function"), ("phantom: PhantomData", "phantom: vx_phantom()", "marker")],
         contract="ensures r.concatenated@ == self.concatenated@,")
    u.fn(Q, "get", impl="InternedSequences", trait="Resolver", header="impl<Item, K: InternerKey> InternedSequences<Item, K>", ret="r",
         contract="requires 0 <= key.lo() <= key.hi() <= self.concatenated@.len(), ensures r@ == self.concatenated@.subrange(key.lo(), key.hi()),")
    return u

def make_sequences():
    u = sequences("sequences", entry=False)
    return u

def entries(u):
    G = "Item: Clone, K: InternerKey"
    H = f"impl<{G}> SequenceInterner<Item, K>"
    HE = f"impl<{G}> SequenceEntry<'_, Item, K>"
    u.trust("mem::forget skips the destructor (std)", r"""
impl<Item: Clone, K: InternerKey> SequenceEntry<'_, Item, K> {
    #[verifier::external_body] fn vx_forget(self) ensures *final(self.interner) == *old(self.interner) { unimplemented!() }
    spec fn base(&self) -> Seq<Item> { self.interner.concatenated@.subrange(0, self.initial_concatenated_len as int) }
    spec fn pending(&self) -> Seq<Item> { self.interner.concatenated@.subrange(self.initial_concatenated_len as int, self.interner.concatenated@.len() as int) }
    spec fn ok(&self) -> bool { self.interner.wf_upto(self.initial_concatenated_len as int) }
    // only the pending items differ
    spec fn same_base(&self, o: &Self) -> bool {
        &&& self.base() == o.base() && self.initial_concatenated_len == o.initial_concatenated_len
        &&& self.interner.sequences == o.interner.sequences && self.interner.random_state == o.interner.random_state
    }
}
""")
    u.fn(Q, "entry", impl="SequenceInterner", header=H, ret="r", rewrites=[("SequenceEntry<Item, K>", "SequenceEntry<'_, Item, K>", "elided lifetime spelled out")],
         contract="""requires old(self).wf(),
         ensures r.ok(), r.pending() == Seq::<Item>::empty(), *r.interner == *old(self), r.initial_concatenated_len == old(self).concatenated@.len(), *final(self) == *final(r.interner),""",
         tail="assert(vx_ret.pending() =~= Seq::<Item>::empty());")
    FR = "*final(final(self).interner) == *final(old(self).interner)"
    u.fn(Q, "push", impl="SequenceEntry", header=HE, contract=f"""requires old(self).ok(),
        ensures final(self).ok(), final(self).same_base(old(self)), final(self).pending() == old(self).pending().push(item), {FR},""",
        tail="""assert(self.pending() =~= old(self).pending().push(item)); assert(self.base() =~= old(self).base());
            assert forall|i: int| 0 <= i < self.interner.sequences@.len() implies self.interner.at((#[trigger] self.interner.sequences@[i]).1) =~= old(self).interner.at(self.interner.sequences@[i].1) by {}""")
    u.fn(Q, "pop", impl="SequenceEntry", header=HE, ret="r", contract=f"""requires old(self).ok(),
        ensures final(self).ok(), final(self).same_base(old(self)), {FR},
            old(self).pending().len() == 0 ==> r is None && final(self).pending() == old(self).pending(),
            old(self).pending().len() > 0 ==> r == Some(old(self).pending().last()) && final(self).pending() == old(self).pending().drop_last(),""",
        tail="""assert(self.base() =~= old(self).base());
            if old(self).pending().len() == 0 { assert(self.pending() =~= old(self).pending()); } else { assert(self.pending() =~= old(self).pending().drop_last()); }
            assert forall|i: int| 0 <= i < self.interner.sequences@.len() implies self.interner.at((#[trigger] self.interner.sequences@[i]).1) =~= old(self).interner.at(self.interner.sequences@[i].1) by {}""")
    u.fn(Q, "len", impl="SequenceEntry", header=HE, ret="r", contract="requires self.ok(), ensures r == self.pending().len(),")
    u.fn(Q, "is_empty", impl="SequenceEntry", header=HE, ret="r", contract="requires self.ok(), ensures r == (self.pending().len() == 0),")
    u.fn(Q, "drop", impl="SequenceEntry", trait="Drop", header=HE, rename="vx_drop", contract=f"""requires old(self).ok(),
        ensures final(self).interner.concatenated@ == old(self).base(), final(self).interner.sequences == old(self).interner.sequences,
            final(self).interner.random_state == old(self).interner.random_state, {FR},""", tail="assert(self.interner.concatenated@ =~= old(self).base());")
    DR = "old_key }"
    u.fn(Q, "intern", impl="SequenceEntry", header=HE, ret="r", rewrites=[
        ("K::try_from_impl_key($a).expect($m)", "vx_expect(K::try_from_impl_key($a))", "Option::expect as trusted function"),
        ("self.interner.random_state.hash_one(sequence)", "vx_hashs(&self.interner.random_state, sequence)", "trusted hash function"),
        ("std::mem::forget(self);", "self.vx_forget();", "trusted std function"),
        ("&self.interner.concatenated[self.initial_concatenated_len..]", "&self.interner.concatenated[self.initial_concatenated_len..self.interner.concatenated.len()]", "RangeFrom index spelled out"),
        ("old_key }", "let mut vx_dropped = self; vx_dropped.vx_drop(); old_key }", "implicit drop at the end of the scope made explicit")],
        contract=r"""
        requires self.ok(),
        ensures exists|o: SequenceInterner<Item, K>| o.concatenated@ == self.base() && o.sequences == old(self.interner).sequences && o.random_state == old(self.interner).random_state
            && #[trigger] final(self.interner).interned(&o, self.pending(), r),
        """,
        start="""proof { vx_fits(&self.interner.concatenated, 0); assert(self.interner.wf_upto(self.initial_concatenated_len as int)); }
            proof { let w = vx_with(*self.interner, self.base()); assert(w.concatenated@ == self.base()); }
            let ghost o = vx_base(*self.interner, self.base()); let ghost i0 = *self.interner; let ghost pend = self.pending(); let ghost base = self.base();
            proof { i0.lemma_tail(&o, self.initial_concatenated_len as int); }""",
        hints=[("after", "vx_dropped.vx_drop();", """proof { let f = *final(vx_dropped.interner);
               assert(f.concatenated@ =~= o.concatenated@);
               assert(o.knows(pend));
               assert forall|k: K| 0 <= k.lo() <= k.hi() <= o.concatenated@.len() implies f.at(k) == #[trigger] o.at(k) by {}
               let i = choose|i: int| 0 <= i < i0.sequences@.len() && #[trigger] i0.sequences@[i].1 == old_key; assert(f.sequences@[i].1 == old_key);
               assert(o.at(o.sequences@[i].1) == i0.at(old_key));
               assert(f.interned(&o, pend, old_key)); }"""),
               ("after", "self.interner.insert_sequence_key($a, $b);", "proof { let f = *self.interner; assert(!o.knows(pend)); assert(f.concatenated@.subrange(0, start as int) =~= o.concatenated@); assert(f.concatenated@.subrange(start as int, f.concatenated@.len() as int) =~= pend); f.lemma_added(&o, &o, new_key, start as int); }")])
    u.trust("ghost helper: an interner with given contents exists (used only to name the state before the pending items)", r"""
#[verifier::external_body] proof fn vx_with<Item: Clone, K: InternerKey>(i: SequenceInterner<Item, K>, c: Seq<Item>) -> (o: SequenceInterner<Item, K>)
    ensures o.concatenated@ == c, o.sequences == i.sequences, o.random_state == i.random_state { unimplemented!() }
spec fn vx_base<Item: Clone, K: InternerKey>(i: SequenceInterner<Item, K>, c: Seq<Item>) -> SequenceInterner<Item, K> {
    choose|o: SequenceInterner<Item, K>| #[trigger] o.concatenated@ == c && o.sequences == i.sequences && o.random_state == i.random_state }
""")
    need(u, 1, "std::mem::forget(self);", "old_key }")

def make_sequences():
    u = sequences("sequences")
    entries(u)
    return u

def make_key():
    u = Unit("sequence_key")
    u.trust("lasso::Key: into_usize inverts try_from_usize, and no two keys share an index", r"""
pub trait Key: Copy + Sized {
    spec fn idx(self) -> int;
    spec fn accepts(i: usize) -> bool;
    fn into_usize(self) -> (r: usize) ensures r == self.idx();
    fn try_from_usize(i: usize) -> (r: Option<Self>) ensures r matches Some(k) ==> k.idx() == i, r is Some <==> Self::accepts(i);
    proof fn inj(a: Self, b: Self) ensures a.idx() == b.idx() ==> a == b;
    proof fn fits(a: Self) ensures 0 <= a.idx() <= usize::MAX;
}
""")
    u.trust("usize::leading_zeros, Range::count, mem::size_of::<usize>() as documented by std, on a 64-bit target", r"""
global size_of usize == 8;
use core::ops::Range;
pub assume_specification [usize::leading_zeros] (i: usize) -> (r: u32)
    ensures r == lz(i), r <= 64, r == 64 <==> i == 0, r < 64 ==> (i >> ((63 - r) as u32)) == 1;
pub uninterp spec fn lz(i: usize) -> u32;
spec fn offset_fits(i: usize, b: u32) -> bool { b == 0 || (i >> ((64 - b) as u32)) == 0 }
#[verifier::external_body] pub fn vx_count(r: Range<usize>) -> (n: usize) ensures n == (if r.end >= r.start { r.end - r.start } else { 0 }) { unimplemented!() }
""")
    u.item(Q, "struct", "SequenceKey", rewrites=[("Inner: Key = Spur", "Inner: Key", "default type argument"), ("const LEN_BITS: u32 = 8", "const LEN_BITS: u32", "default const argument")])
    u.raw(r"""
// packing len below offset loses nothing when both fit
proof fn lemma_pack(offset: usize, len: usize, b: u32)
    requires b < 64, b == 0 || (offset >> ((64 - b) as u32)) == 0, len < (1usize << b),
    ensures ((offset << b) | len) & (((1usize << b) - 1) as usize) == len, ((offset << b) | len) >> b == offset, (1usize << b) >= 1,
{
    let o = offset as u64; let l = len as u64;
    assert(b < 64 ==> (1u64 << b) >= 1) by (bit_vector);
    let m = ((1u64 << b) - 1) as u64;
    let c = (64 - b) as u32;
    assert(b < 64 && c == 64 - b && (b == 0 || (o >> c) == 0) && l < (1u64 << b) && m == (1u64 << b) - 1 ==>
        ((o << b) | l) & m == l && ((o << b) | l) >> b == o) by (bit_vector);
}
proof fn lemma_lz(x: usize, z: u32, b: u32)
    requires z <= 64, z == 64 <==> x == 0, z < 64 ==> (x >> ((63 - z) as u32)) == 1, 0 < b < 64,
    ensures z >= b ==> (x >> ((64 - b) as u32)) == 0,
        z < b ==> (x >> ((64 - b) as u32)) != 0,
{
    let y = x as u64; let c = (64 - b) as u32;
    if z < 64 {
        let s = (63 - z) as u32;
        assert(y >> s == 1 && s < 64 && c < 64 && s < c ==> (y >> c) == 0) by (bit_vector);
        assert(y >> s == 1 && s < 64 && c < 64 && s >= c ==> (y >> c) != 0) by (bit_vector);
    } else { assert(0u64 >> c == 0) by (bit_vector) requires c < 64; }
}
impl<Inner: Key, const LEN_BITS: u32> SequenceKey<Inner, LEN_BITS> {
    spec fn packed(self) -> usize { self.0.idx() as usize }
    spec fn len(self) -> usize { self.packed() & (((1usize << LEN_BITS) - 1) as usize) }
    spec fn lo(self) -> int { (self.packed() >> LEN_BITS) as int }
    spec fn hi(self) -> int { self.lo() + self.len() }
    // C05: keys are the same iff the ranges are
    proof fn lemma_same(a: Self, b: Self)
        requires LEN_BITS < 64,
        ensures a == b <==> (a.lo() == b.lo() && a.hi() == b.hi()),
    {
        let x = a.packed() as u64; let y = b.packed() as u64; let n = LEN_BITS;
        Inner::fits(a.0); Inner::fits(b.0); Inner::inj(a.0, b.0);
        assert(n < 64 ==> (1u64 << n) >= 1) by (bit_vector);
        let m = ((1u64 << n) - 1) as u64;
        assert(n < 64 && x >> n == y >> n && m == (1u64 << n) - 1 && (x & m) == (y & m) ==> x == y) by (bit_vector);
    }
}
""")
    H = "impl<Inner: Key, const LEN_BITS: u32> SequenceKey<Inner, LEN_BITS>"
    u.fn(Q, "into_impl_key", impl="SequenceKey", trait="InternerKey", header=H, ret="r", attrs="#[verifier::rlimit(50)]",
         contract="requires LEN_BITS < 64, self.hi() <= usize::MAX, ensures r.start == self.lo(), r.end == self.hi(), r.start <= r.end,",
         rewrites=[("1 << LEN_BITS", "1usize << LEN_BITS", "literal type spelled out")],
         start="proof { Inner::fits(self.0); let n = LEN_BITS; assert(n < 64 ==> (1u64 << n) >= 1) by (bit_vector); }")
    u.fn(Q, "check_configuration", impl="SequenceKey", header=H, contract="requires LEN_BITS < 64,", rewrites=[("assert!($a)", "assert($a)", "runtime assertion becomes an obligation"), ("std::mem::size_of::<usize>() * 8", "64usize", "64-bit target"), ("const fn", "fn", "const")])
    u.fn(Q, "try_from_impl_key", impl="SequenceKey", trait="InternerKey", header=H, ret="r", rewrites=[
        ("impl_key.count()", "vx_count(impl_key)", "trusted std function"),
        ("1 << LEN_BITS", "1usize << LEN_BITS", "literal type spelled out"),
        ("Inner::try_from_usize(packed).map(Self)", "match Inner::try_from_usize(packed) { Some(vx_k) => Some(Self(vx_k)), None => None }", "Option::map spelled out")],
        contract=r"""
        requires LEN_BITS < 64, impl_key.start <= impl_key.end,
        // a key that is handed out stands for exactly that range
        ensures r matches Some(k) ==> k.lo() == impl_key.start && k.hi() == impl_key.end,
            // and every range that fits the bit budget gets one
            r is Some <==> offset_fits(impl_key.start, LEN_BITS) && impl_key.end - impl_key.start < (1usize << LEN_BITS)
                && Inner::accepts((impl_key.start << LEN_BITS) | ((impl_key.end - impl_key.start) as usize)),
        """,
        hints=[("before", "let len = $a;", "proof { if LEN_BITS > 0 { lemma_lz(offset, lz(offset), LEN_BITS); } }"),
               ("before", "return None;", "proof { if LEN_BITS > 0 { lemma_lz(offset, lz(offset), LEN_BITS); } }"), ("before", "let packed = $a;", "proof { if LEN_BITS > 0 { lemma_lz(offset, lz(offset), LEN_BITS); } lemma_pack(offset, len, LEN_BITS); }")])
    return u

def make_path():
    u = sequences("path_intern")
    entries(u)
    u.trust("std::path: Path::is_relative, Path::components and Component::as_os_str are opaque; a component is one of the five documented kinds and "
            "the text of a component of an UTF-8 path is UTF-8", r"""
#[verifier::external_body] pub struct Path {}
#[verifier::external_body] pub struct Text {}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct PrefixComponent {}
#[derive(Clone, Copy)] pub enum Component { Prefix(PrefixComponent), RootDir, CurDir, ParentDir, Normal(PrefixComponent) }
pub uninterp spec fn path_of(s: &str) -> Path;
pub uninterp spec fn comps(p: Path) -> Seq<Component>;
pub uninterp spec fn relative(p: Path) -> bool;
pub uninterp spec fn text_of(c: Component) -> Text;
#[verifier::external_body] pub fn vx_path(s: &str) -> (r: &Path) ensures *r == path_of(s) { unimplemented!() }
#[verifier::external_body] pub fn vx_components(p: &Path) -> (r: &Vec<Component>) ensures r@ == comps(*p) { unimplemented!() }
#[verifier::external_body] pub fn vx_text(c: &Component) -> (r: &Text) ensures *r == text_of(*c) { unimplemented!() }
impl Path {
    #[verifier::external_body] pub fn is_relative(&self) -> (r: bool) ensures r == relative(*self) { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> PathBuf { unimplemented!() }
}
#[verifier::external_body] pub struct PathBuf {}
impl PathBuf { #[verifier::external_body] pub fn into_boxed_path(self) -> Box<Path> { unimplemented!() } }
""")
    u.trust("lasso::Rodeo::get_or_intern gives equal strings equal keys, distinct strings distinct keys, and keeps earlier keys", r"""
pub trait Key: Copy + Sized {}
#[verifier::external_body] #[verifier::reject_recursive_types(C)] pub struct Rodeo<C> { c: Vec<C> }
impl<C: Key> Rodeo<C> {
    pub uninterp spec fn view(&self) -> Map<Text, C>;
    pub open spec fn injective(&self) -> bool { forall|a: Text, b: Text| self@.contains_key(a) && self@.contains_key(b) && #[trigger] self@[a] == #[trigger] self@[b] ==> a == b }
    #[verifier::external_body] pub fn get_or_intern(&mut self, s: &Text) -> (r: C)
        ensures final(self)@.contains_key(*s), final(self)@[*s] == r, forall|t: Text| #[trigger] old(self)@.contains_key(t) ==> final(self)@.contains_key(t) && final(self)@[t] == old(self)@[t],
            old(self).injective() ==> final(self).injective(),
    { unimplemented!() }
}
""")
    u.item(PA, "enum", "PathError", rewrites=[("#[error($m)]", "", "derive attribute")])
    u.item(PA, "struct", "PathInterner", rewrites=[
        ("PK: InternerKey<ImplKey = Range<usize>> = PathKey<Spur, 8>", "PK: InternerKey", "default type argument, associated type fixed to Range<usize>"),
        ("ComponentKey: Key + Hash", "ComponentKey: Key", "bound used only through the trusted functions")],
        prefix="#[verifier::reject_recursive_types(PK)] #[verifier::reject_recursive_types(ComponentKey)]")
    u.raw(r"""
spec fn named(c: Component) -> bool { c is Normal || c is RootDir || c is Prefix }
// C06: `.` disappears, `..` removes the component before it but never the first one
spec fn norm(s: Seq<Component>) -> Seq<Component> decreases s.len() {
    if s.len() == 0 { seq![] } else {
        let p = norm(s.drop_last()); let c = s.last();
        if named(c) { p.push(c) } else if c is ParentDir && p.len() > 1 { p.drop_last() } else { p }
    }
}
spec fn keyed<C: Key>(r: Rodeo<C>, s: Seq<Component>, q: Seq<C>) -> bool {
    q.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> r@.contains_key(text_of(#[trigger] s[i])) && q[i] == r@[text_of(s[i])]
}
// what comes out has no . or .. left, and an absolute path keeps its root
proof fn lemma_norm(s: Seq<Component>)
    ensures forall|i: int| 0 <= i < norm(s).len() ==> named(#[trigger] norm(s)[i]),
        s.len() > 0 && named(s[0]) ==> norm(s).len() > 0 && norm(s)[0] == s[0],
    decreases s.len(),
{ if s.len() > 0 { let p = norm(s.drop_last()); lemma_norm(s.drop_last());
    if s.len() > 1 { assert(s.drop_last()[0] == s[0]); } else { assert(p.len() == 0); }
    assert forall|i: int| 0 <= i < norm(s).len() implies named(#[trigger] norm(s)[i]) by { if i < p.len() { assert(named(p[i])); } } } }
proof fn lemma_norm_step(s: Seq<Component>, i: int)
    requires 0 <= i < s.len(),
    ensures ({ let p = norm(s.subrange(0, i)); let c = s[i];
        norm(s.subrange(0, i + 1)) == (if named(c) { p.push(c) } else if c is ParentDir && p.len() > 1 { p.drop_last() } else { p }) }),
{ assert(s.subrange(0, i + 1).drop_last() =~= s.subrange(0, i)); }
proof fn lemma_swap<Item: Clone, K: InternerKey>(f: SequenceInterner<Item, K>, o: SequenceInterner<Item, K>, p: SequenceInterner<Item, K>, s: Seq<Item>, k: K)
    requires f.interned(&o, s, k), o.concatenated@ == p.concatenated@, o.sequences == p.sequences, o.random_state == p.random_state,
    ensures f.interned(&p, s, k),
{
    assert forall|x: K| #[trigger] o.at(x) == p.at(x) by {}
    assert forall|i: int| 0 <= i < p.sequences@.len() implies f.sequences@[i] == #[trigger] p.sequences@[i] && f.at(f.sequences@[i].1) == p.at(p.sequences@[i].1) by { assert(o.sequences@[i] == p.sequences@[i]); }
    assert(o.knows(s) == p.knows(s)) by {
        if o.knows(s) { let i = choose|i: int| 0 <= i < o.sequences@.len() && o.at((#[trigger] o.sequences@[i]).1) == s; assert(p.at(p.sequences@[i].1) == s); }
        if p.knows(s) { let i = choose|i: int| 0 <= i < p.sequences@.len() && p.at((#[trigger] p.sequences@[i]).1) == s; assert(o.at(o.sequences@[i].1) == s); } }
}
""")
    H = "impl<ComponentKey: Key, PK: InternerKey> PathInterner<ComponentKey, PK>"
    u.fn(PA, "intern", impl="PathInterner", header=H, ret="r", attrs="#[verifier::loop_isolation(false)]", rewrites=[
        ("Path::new(&path)", "vx_path(path)", "trusted std function"),
        ("component.as_os_str().to_str().expect($m)", "vx_text(component)", "trusted std function"),
        ("use std::path::Component::*;", "use Component::*;", "path"),
        ("in path.components()", "in vx_components(path).iter()", "iterator as the list of its items")],
        contract=r"""
        requires old(self).sequences.wf(), old(self).components.injective(),
        ensures
            r is Err <==> relative(path_of(path)),
            r is Err ==> final(self).sequences == old(self).sequences && final(self).components == old(self).components,
            r matches Ok(k) ==> exists|q: Seq<ComponentKey>| keyed(final(self).components, norm(comps(path_of(path))), q)
                && #[trigger] final(self).sequences.interned(&old(self).sequences, q, k),
            final(self).components.injective(),
            forall|t: Text| #[trigger] old(self).components@.contains_key(t) ==> final(self).components@.contains_key(t) && final(self).components@[t] == old(self).components@[t],
        """,
        loops=[dict(kw="for", it="it", before="let ghost seq0 = old(self).sequences; let ghost fin0 = *final(sequence.interner); proof { assert(sequence.base() =~= seq0.concatenated@); }",
             inv=r"""
            invariant
                it.seq().len() == comps(*path).len(), forall|i: int| 0 <= i < comps(*path).len() ==> *(#[trigger] it.seq()[i]) == comps(*path)[i], 0 <= it.index@ <= it.seq().len(), sequence.ok(), *final(sequence.interner) == fin0, 
                sequence.base() == seq0.concatenated@, sequence.interner.sequences == seq0.sequences, sequence.interner.random_state == seq0.random_state,
                keyed(self.components, norm(comps(*path).subrange(0, it.index@)), sequence.pending()),
                self.components.injective(),
                forall|t: Text| #[trigger] old(self).components@.contains_key(t) ==> self.components@.contains_key(t) && self.components@[t] == old(self).components@[t],
         """, start="let ghost pend0 = sequence.pending(); let ghost comp0 = self.components; proof { lemma_norm_step(comps(*path), it.index@); }",
              end="""proof { let p = norm(comps(*path).subrange(0, it.index@)); let c = comps(*path)[it.index@];
                 assert forall|i: int| 0 <= i < p.len() implies self.components@.contains_key(text_of(#[trigger] p[i])) && pend0[i] == self.components@[text_of(p[i])] by { assert(comp0@.contains_key(text_of(p[i]))); } }""")],
        hints=[("before", "Ok(sequence.intern())", "let ghost q = sequence.pending(); proof { assert(comps(*path).subrange(0, comps(*path).len() as int) =~= comps(*path)); assert(keyed(self.components, norm(comps(*path)), q)); }")],
        tail="""if let Ok(k) = vx_ret { let f = self.sequences; let s0 = old(self).sequences;
            let (o, q) = choose|o: SequenceInterner<ComponentKey, PK>, q: Seq<ComponentKey>| o.concatenated@ == s0.concatenated@ && o.sequences == s0.sequences && o.random_state == s0.random_state
                && keyed(self.components, norm(comps(path_of(path))), q) && #[trigger] f.interned(&o, q, k);
            lemma_swap(f, o, s0, q, k); }""")
    return u
