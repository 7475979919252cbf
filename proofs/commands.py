"""C16, C17: compilation database and freshness of build products (cmakeperf/src/commands.rs)."""
from vx.unit import Unit
from vx.rustlex import lex
from .args import text_eq
CMD = "cmakeperf/src/commands.rs"

MODEL = r"""
// a path is its text; two paths are the same if their components are (Unix)
#[verifier::external_body] pub struct Path { p: String }
pub type PathBuf = Path;
pub type BoxPath = Path;
impl Path { pub uninterp spec fn view(&self) -> Seq<char>; }
pub uninterp spec fn comps(p: Seq<char>) -> Seq<Seq<char>>;
pub uninterp spec fn name_of(p: Seq<char>) -> Option<Seq<char>>;     // file name
pub uninterp spec fn parent_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn joined(p: Seq<char>, q: Seq<char>) -> Seq<char>;
pub uninterp spec fn canonical(p: Seq<char>) -> Option<Seq<char>>;   // on the file system as it is during the call
#[verifier::external_body] pub struct Text { s: String }
impl Text { pub uninterp spec fn view(&self) -> Seq<char>; #[verifier::external_body] pub fn vx_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
impl Path {
    #[verifier::external_body] pub fn new(s: &str) -> (r: &Path) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn from(s: &Path) -> (r: Path) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&Path>) ensures match name_of(self@) { Some(n) => r matches Some(x) && x@ == n, None => r is None } { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Path>) ensures match parent_of(self@) { Some(n) => r matches Some(x) && x@ == n, None => r is None } { unimplemented!() }
    #[verifier::external_body] pub fn push(&mut self, q: &Path) ensures final(self)@ == joined(old(self)@, q@) { unimplemented!() }
    #[verifier::external_body] pub fn canonicalize(&self) -> (r: Result<Path, IoError>) ensures match canonical(self@) { Some(n) => r matches Ok(x) && x@ == n, None => r is Err } { unimplemented!() }
}
#[verifier::external_body] fn vx_same(s: &str, t: &str) -> (r: bool) ensures r == (s@ == t@) { unimplemented!() }
"""
IO = r"""
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum ErrorKind { NotFound, PermissionDenied, Other }
#[verifier::external_body] pub struct IoError {}
pub type IoResult<T> = Result<T, IoError>;
#[verifier::external_body] pub ghost struct Failure {}
pub uninterp spec fn kind_of(e: Failure) -> ErrorKind;
impl IoError { pub uninterp spec fn view(&self) -> Failure; #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) ensures r == kind_of(self@) { unimplemented!() } }
"""
ENTRY = r"""
ghost struct Ent { dir: Seq<char>, cmd: Seq<char>, file: Seq<char>, out: Option<Seq<char>> }
impl DatabaseEntry { spec fn view(&self) -> Ent { Ent { dir: self.directory@, cmd: self.command@, file: self.file@, out: match self.output { Some(p) => Some(p@), None => None } } } }
// C16: the database that a list of entries makes: the last entry of every input
spec fn listed(s: Seq<Ent>) -> Map<Seq<Seq<char>>, Ent> decreases s.len() { if s.len() == 0 { Map::empty() } else { listed(s.drop_last()).insert(comps(s.last().file), s.last()) } }
// all of them, each once
spec fn each_once(r: Seq<&DatabaseEntry>, m: Map<Seq<Seq<char>>, Ent>) -> bool {
    r.len() == m.dom().len() && (forall|i: int| 0 <= i < r.len() ==> m.dom().contains(#[trigger] comps(r[i].file@)) && m[comps(r[i].file@)] == r[i]@)
        && forall|i: int, j: int| 0 <= i < j < r.len() ==> comps(#[trigger] r[i].file@) != comps(#[trigger] r[j].file@)
}
"""
MAP = r"""
#[verifier::external_body] pub struct PathMap {}
impl PathMap {
    spec fn keyed(&self) -> bool { forall|k: Seq<Seq<char>>| #[trigger] self@.dom().contains(k) ==> comps(self@[k].file) == k }
    uninterp spec fn view(&self) -> Map<Seq<Seq<char>>, Ent>;
    #[verifier::external_body] fn new() -> (r: Self) ensures r@ == Map::<Seq<Seq<char>>, Ent>::empty() { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: Path, e: DatabaseEntry) -> (r: Option<DatabaseEntry>) ensures final(self)@ == old(self)@.insert(comps(k@), e@), r is Some == old(self)@.dom().contains(comps(k@)) { unimplemented!() }
    #[verifier::external_body] fn clear(&mut self) ensures final(self)@ == Map::<Seq<Seq<char>>, Ent>::empty() { unimplemented!() }
    #[verifier::external_body] fn get(&self, k: &Path) -> (r: Option<&DatabaseEntry>) ensures r is Some == self@.dom().contains(comps(k@)), r matches Some(e) ==> e@ == self@[comps(k@)] { unimplemented!() }
    #[verifier::external_body] fn values(&self) -> (r: Vec<&DatabaseEntry>) ensures self.keyed() ==> each_once(r@, self@) { unimplemented!() }
}
"""
WORDS = r"""
uninterp spec fn words(s: Seq<char>) -> Seq<Seq<char>>;   // POSIX shell words
#[verifier::external_body] struct Word {}
impl Word { uninterp spec fn view(&self) -> Seq<char>; #[verifier::external_body] fn as_ref(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] struct Words {}
// the words from the first one that is not skipped
spec fn after_skip<F: Fn(&Word) -> bool>(s: Seq<Word>, f: F, r: Seq<Word>) -> bool {
    exists|n: int| 0 <= n <= s.len() && #[trigger] s.subrange(n, s.len() as int) == r && (forall|i: int| 0 <= i < n ==> f.ensures((&#[trigger] s[i],), true)) && (n < s.len() ==> f.ensures((&s[n],), false))
}
spec fn skipped(s: Seq<Word>, n: int) -> Seq<Word> { if n <= s.len() { s.subrange(n, s.len() as int) } else { Seq::empty() } }
spec fn texts(s: Seq<Word>) -> Seq<Seq<char>> { s.map_values(|w: Word| w@) }
impl Words {
    uninterp spec fn view(&self) -> Seq<Word>;   // words still to come
    #[verifier::external_body] fn vx_of(s: &str) -> (r: Self) ensures texts(r@) == words(s@) { unimplemented!() }
    #[verifier::external_body] fn next(self) -> (r: Option<Word>) ensures r == (if self@.len() > 0 { Some(self@[0]) } else { None }) { unimplemented!() }
    #[verifier::external_body] fn skip(self, n: usize) -> (r: Self) ensures r@ == skipped(self@, n as int) { unimplemented!() }
    #[verifier::external_body] fn skip_while<F: Fn(&Word) -> bool>(self, f: F) -> (r: Self) requires forall|w: Word| f.requires((&w,)) ensures after_skip(self@, f, r@) { unimplemented!() }
    #[verifier::external_body] fn nth(self, n: usize) -> (r: Option<Word>) ensures r == (if n < self@.len() { Some(self@[n as int]) } else { None }) { unimplemented!() }
}
"""
OUT = r"""
// ---- C16: the output file of a command: what follows the first -o among its arguments ----
spec fn first_o(s: Seq<Seq<char>>) -> int decreases s.len() { if s.len() > 0 && s[0] != "-o"@ { 1 + first_o(s.drop_first()) } else { 0 } }
spec fn arguments(e: Ent) -> Seq<Seq<char>> { let w = words(e.cmd); if w.len() > 0 { w.drop_first() } else { w } }
spec fn within(dir: Seq<char>, rel: Seq<char>) -> Seq<char> {
    let d = match parent_of(rel) { Some(p) => joined(dir, p), None => dir };
    joined(match canonical(d) { Some(c) => c, None => d }, name_of(rel)->0)
}
spec fn output_of(e: Ent) -> Option<Seq<char>> {
    match e.out {
        Some(p) => Some(p),
        None => { let a = arguments(e); let k = first_o(a) + 1; if k < a.len() && name_of(a[k]) is Some { Some(within(e.dir, a[k])) } else { None } },
    }
}
proof fn lemma_first_o(s: Seq<Seq<char>>) ensures 0 <= first_o(s) <= s.len(), forall|i: int| 0 <= i < first_o(s) ==> s[i] != "-o"@, first_o(s) < s.len() ==> s[first_o(s)] == "-o"@ decreases s.len()
{ if s.len() > 0 && s[0] != "-o"@ { lemma_first_o(s.drop_first()); assert forall|i: int| 0 <= i < first_o(s) implies s[i] != "-o"@ by { if i > 0 { assert(s[i] == s.drop_first()[i - 1]); } } } }
proof fn lemma_skip<F: Fn(&Word) -> bool>(s: Seq<Word>, f: F, r: Seq<Word>)
    requires forall|w: Word, b: bool| #[trigger] f.ensures((&w,), b) ==> b == (w@ != "-o"@), after_skip(s, f, r)
    ensures r == s.subrange(first_o(texts(s)), s.len() as int), 0 <= first_o(texts(s)) <= s.len()
{
    lemma_first_o(texts(s)); let n = choose|n: int| 0 <= n <= s.len() && #[trigger] s.subrange(n, s.len() as int) == r && (forall|i: int| 0 <= i < n ==> f.ensures((&#[trigger] s[i],), true)) && (n < s.len() ==> f.ensures((&s[n],), false));
    let k = first_o(texts(s));
    if k < n { assert(f.ensures((&s[k],), true)); assert(texts(s)[k] == s[k]@); }
    if n < k { assert(texts(s)[n] == s[n]@); }
}
"""
RULES = [
    ("std::path::Path", "Path", ""), ("Option<Box<Path>>", "Option<BoxPath>", "a path"), ("Box<Path>", "BoxPath", "a path"), ("Box<str>", "Text", "a text"),
    ("HashMap<BoxPath, DatabaseEntry>", "PathMap", "std map, specified"), ("HashMap::new()", "PathMap::new()", "std map, specified"),
    ("Box::from($x)", "BoxPath::from($x)", "a path"), ("&*self.directory", "&self.directory", "a path"), ("&self.command", "self.command.vx_str()", "a text"),
    ("io::Result<$t>", "IoResult<$t>", ""), ("io::ErrorKind", "ErrorKind", ""),
]

def model(name):
    u = Unit(name)
    u.trust("std paths, io errors and texts: a path is its text, equal to another with the same components; what std::path and the file system make of it is uninterpreted", MODEL + IO)
    for r in RULES: u.rule(*r)
    u.item(CMD, "struct", "DatabaseEntry")
    u.raw(ENTRY)
    return u

def accessors(u):
    u.fn(CMD, "current_dir", impl="DatabaseEntry", ret="r", contract="ensures r@ == self@.dir,")
    u.fn(CMD, "input", impl="DatabaseEntry", ret="r", contract="ensures r@ == self@.file,")
    u.fn(CMD, "raw_command", impl="DatabaseEntry", ret="r", contract="ensures r@ == self@.cmd,")

def database(u):
    u.trust("std::collections::HashMap as documented, keyed by equality of paths", MAP)
    u.item(CMD, "struct", "CompilationDatabase")
    u.raw("impl CompilationDatabase { spec fn view(&self) -> Map<Seq<Seq<char>>, Ent> { self.0@ }\n // every entry is filed under its input\n spec fn wf(&self) -> bool { self.0.keyed() } }")
    u.fn(CMD, "location", impl="CompilationDatabase", ret="r", contract='ensures r@ == "compile_commands.json"@,', sig="fn location() -> (r: &'static Path)")
    u.fn(CMD, "entries", impl="CompilationDatabase", sig="fn entries(&self) -> (r: Vec<&DatabaseEntry>)", contract="requires self.wf(), ensures each_once(r@, self@),")

def make_commands():
    u = model("compilation_database")
    accessors(u)
    u.trust("shlex splits a command into POSIX shell words; std's skip, skip_while, next and nth as documented", WORDS)
    u.raw(OUT)
    u.fn(CMD, "new", impl="DatabaseEntry", sig="fn new(directory: BoxPath, command: Text, file: BoxPath, output: Option<PathBuf>) -> (r: Self)",
         rewrites=[("$i_a.into()", "$i_a", "conversion to an owned path or text"), ("output.map(|out| out.into_boxed_path())", "output", "a path")],
         contract="ensures r@.dir == directory@, r@.cmd == command@, r@.file == file@, r@.out == (match output { Some(p) => Some(p@), None => None::<Seq<char>> }),")
    u.fn(CMD, "full_args", impl="DatabaseEntry", sig="fn full_args(&self) -> (r: Words)", rewrites=[("Shlex::new($x)", "Words::vx_of($x)", "trusted parser")], contract="ensures texts(r@) == words(self@.cmd),")
    u.fn(CMD, "program", impl="DatabaseEntry", sig="fn program(&self) -> (r: Option<Word>)", contract="ensures words(self@.cmd).len() == 0 ==> r is None, words(self@.cmd).len() > 0 ==> r is Some && r->0@ == words(self@.cmd)[0],", tail="assert(forall|s: Seq<Word>| texts(s).len() == s.len());")
    u.fn(CMD, "args", impl="DatabaseEntry", sig="fn args(&self) -> (r: Words)", contract="ensures texts(r@) == arguments(self@),",
         tail="assert(forall|s: Seq<Word>| texts(s).len() == s.len()); assert(texts(vx_ret@) =~= arguments(self@));")
    u.fn(CMD, "output", impl="DatabaseEntry", ret="r", attrs="#[verifier::loop_isolation(false)]", rewrites=[
            (".skip_while(|$i_a| $i_a.as_ref() != $s)", ".skip_while(|$i_a: &Word| -> (b: bool) ensures b == ($i_a@ != $s@) { !vx_same($i_a.as_ref(), $s) })", "the test as a contract"),
            (".skip_while(|$i_a| $i_a.as_ref() == $s)", ".skip_while(|$i_a: &Word| -> (b: bool) ensures b == ($i_a@ == $s@) { vx_same($i_a.as_ref(), $s) })", "the test as a contract"),
            ("self.output.as_ref()", "&self.output", "borrowed"), ("self.args().$i_m($f)", "{ let vx_args = self.args(); let vx_f = $f; proof { vx_all = vx_args@; assert(texts(vx_all) == arguments(self@)); } let vx_rest = vx_args.$i_m(vx_f); proof { lemma_skip(vx_all, vx_f, vx_rest@); } vx_rest }", "subexpressions named"),
            ("if let Some($i_o) = &self.output { $b_b }", "match &self.output { Some($i_o) => { $b_b }, None => {} }", "if let spelled out"),
         ], outer="", start="let ghost mut vx_all: Seq<Word> = Seq::empty();",
         contract="ensures match output_of(self@) { Some(p) => r matches Some(x) && x@ == p, None => r is None },",
         hints=[("before", "let rel_output = Path::new($x);", "proof { let k = first_o(arguments(self@)); assert(vx_all[k + 1]@ == texts(vx_all)[k + 1]); }")])
    database(u)
    u.raw("proof fn wf_listed(s: Seq<Ent>) ensures forall|k: Seq<Seq<char>>| #[trigger] listed(s).dom().contains(k) ==> comps(listed(s)[k].file) == k decreases s.len() { if s.len() > 0 { wf_listed(s.drop_last()); } }\nspec fn ents(s: Seq<DatabaseEntry>) -> Seq<Ent> { s.map_values(|e: DatabaseEntry| e@) }")
    u.fn(CMD, "new", impl="CompilationDatabase", ret="r", contract="ensures r@ == Map::<Seq<Seq<char>>, Ent>::empty(), r.wf(),")
    u.fn(CMD, "from_entries", impl="CompilationDatabase", sig="fn from_entries(entries: Vec<DatabaseEntry>) -> (r: Self)", contract="ensures r@ == listed(ents(entries@)), r.wf(),",
         rewrites=[("$i_e.into_iter().map(|$i_x| ($k, $v)).collect()", "{ let mut vx_m = PathMap::new(); for $i_x in $i_e { let vx_k = $k; vx_m.insert(vx_k, $v); } vx_m }", "into_iter, map, collect of a map spelled out")],
         loops=[dict(kw="for", it="it", inv="invariant vx_m@ == listed(ents(entries@).take(it.index@ as int)), it.seq() == entries@,", before="proof { assert(ents(entries@).take(0) =~= Seq::empty()); }",
             start="proof { let k = it.index@ as int; assert(ents(entries@).take(k + 1).drop_last() =~= ents(entries@).take(k)); assert(ents(entries@).take(k + 1).last() == entry@); }",
             after="proof { assert(ents(entries@).take(entries@.len() as int) =~= ents(entries@)); wf_listed(ents(entries@)); }")])
    u.fn(CMD, "push", impl="CompilationDatabase", ret="r", contract="requires old(self).wf(), !old(self)@.dom().contains(comps(entry@.file)), ensures final(self)@ == old(self)@.insert(comps(entry@.file), entry@), final(self).wf(),",
         rewrites=[("assert_eq!($a, None, $m);", "let vx_k = BoxPath::from(entry.input()); let vx_old = self.0.insert(vx_k, entry); assert(vx_old is None);", "assertion that no entry is replaced")] if False else
                  [("assert_eq!(self.0.insert($k, $v), None, $m);", "let vx_k = $k; let vx_old = self.0.insert(vx_k, $v); assert(vx_old is None);", "assertion that no entry is replaced, an obligation")])
    u.fn(CMD, "clear", impl="CompilationDatabase", ret="r", contract="ensures final(self)@ == Map::<Seq<Seq<char>>, Ent>::empty(), final(self).wf(),")
    u.fn(CMD, "entry", impl="CompilationDatabase", ret="r", contract="ensures r is Some == self@.dom().contains(comps(input_path@)), r matches Some(e) ==> e@ == self@[comps(input_path@)],")
    u.trust("serde_json: the entries of a text, or an error, are a function of the text", r"""
#[verifier::external_body] pub struct JsonError {}
uninterp spec fn entries_in(t: Seq<char>) -> Option<Seq<Ent>>;
#[verifier::external_body] fn vx_json(s: &str) -> (r: Result<Vec<DatabaseEntry>, JsonError>) ensures match entries_in(s@) { Some(e) => r matches Ok(v) && ents(v@) == e, None => r is Err } { unimplemented!() }
// the text of a file, as it is during the call
uninterp spec fn text_in(p: Seq<char>) -> Result<Seq<char>, Failure>;
#[verifier::external_body] fn vx_read(p: &Path) -> (r: Result<Text, IoError>) ensures match text_in(p@) { Ok(t) => r matches Ok(x) && x@ == t, Err(f) => r matches Err(e) && e@ == f } { unimplemented!() }
""")
    u.item(CMD, "enum", "DatabaseLoadError", rewrites=[("io::Error", "IoError", ""), ("json::Error", "JsonError", "")])
    u.fn(CMD, "from_str", impl="CompilationDatabase", trait="FromStr", header="impl CompilationDatabase", ret="r", sig="fn from_str(s: &str) -> (r: Result<Self, JsonError>)",
         rewrites=[("json::from_str::<Vec<DatabaseEntry>>($s)", "vx_json($s)", "trusted parser")],
         contract="ensures match entries_in(s@) { Some(e) => r matches Ok(d) && d@ == listed(e) && d.wf(), None => r is Err },")
    u.raw("""spec fn loaded(r: Result<CompilationDatabase, DatabaseLoadError>, t: Result<Seq<char>, Failure>) -> bool {
    match t {
        Err(f) => if kind_of(f) == ErrorKind::NotFound { r matches Err(DatabaseLoadError::FileNotFound) } else { r matches Err(DatabaseLoadError::IoError(e)) && e@ == f },
        Ok(t) => match entries_in(t) { Some(e) => r matches Ok(d) && d@ == listed(e) && d.wf(), None => r matches Err(DatabaseLoadError::ParseError(_)) } } }""")
    u.fn(CMD, "load", impl="CompilationDatabase", ret="r", contract='ensures loaded(r, text_in("compile_commands.json"@)),',
         rewrites=[("std::fs::read_to_string($p)", "vx_read($p)", "trusted file system"), ("$i_o => $i_o?,", "Ok(vx_d) => vx_d, Err(vx_e) => return Err(DatabaseLoadError::IoError(vx_e)),", "? with the derived conversion"),
                   ("Ok(Self::from_str(&$i_d)?)", "match Self::from_str($i_d.vx_str()) { Ok(vx_d) => Ok(vx_d), Err(vx_e) => Err(DatabaseLoadError::ParseError(vx_e)) }", "? with the derived conversion")])
    return u

FRESH = r"""
#[derive(Clone, Copy)] pub struct Duration { d: u64 }
#[derive(Clone, Copy)] #[verifier::external_body] pub struct SystemTime {}
impl SystemTime { pub uninterp spec fn view(&self) -> int; #[verifier::external_body] pub fn elapsed(&self) -> (r: Result<Duration, ClockError>) ensures r is Ok ==> age_of(self@, r->Ok_0) { unimplemented!() } }
#[verifier::external_body] pub struct ClockError {}
pub uninterp spec fn age_of(t: int, d: Duration) -> bool;   // d is the time between t and some moment of the call
impl vstd::std_specs::cmp::PartialEqSpecImpl<SystemTime> for SystemTime { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &SystemTime) -> bool { self@ == o@ } }
impl PartialEq for SystemTime { #[verifier::external_body] fn eq(&self, o: &SystemTime) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl<SystemTime> for SystemTime { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &SystemTime) -> Option<core::cmp::Ordering> { if self@ < o@ { Some(core::cmp::Ordering::Less) } else if self@ == o@ { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) } } }
impl PartialOrd for SystemTime { #[verifier::external_body] fn partial_cmp(&self, o: &SystemTime) -> Option<core::cmp::Ordering> { unimplemented!() } }
#[verifier::external_body] pub struct Metadata {}
// modification time of a file or why it cannot be had
pub uninterp spec fn mtime(p: Seq<char>) -> Result<int, Failure>;
impl Metadata {
    pub uninterp spec fn of(&self) -> Seq<char>;
    #[verifier::external_body] pub fn modified(&self) -> (r: Result<SystemTime, IoError>) ensures match mtime(self.of()) { Ok(t) => r matches Ok(x) && x@ == t, Err(f) => r matches Err(e) && e@ == f } { unimplemented!() }
}
impl Path {
    #[verifier::external_body] pub fn as_ref(&self) -> (r: &Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn metadata(&self) -> (r: Result<Metadata, IoError>) ensures match r { Ok(m) => m.of() == self@, Err(e) => mtime(self@) == Err::<int, Failure>(e@) } { unimplemented!() }
}
spec fn ptexts(s: Seq<&Path>) -> Seq<Seq<char>> { s.map_values(|p: &Path| p@) }
"""
FSPEC = r"""
// ---- C17 ----
ghost enum Verdict { Missing, Old, Current(int), Fails(Failure) }
// a product of time t against files it depends on, in order
spec fn against(t: int, s: Seq<Seq<char>>) -> Verdict decreases s.len() {
    if s.len() == 0 { Verdict::Current(t) } else { match mtime(s[0]) { Err(f) => Verdict::Fails(f), Ok(m) => if t < m { Verdict::Old } else { against(t, s.drop_first()) } } }
}
spec fn verdict(out: Seq<char>, inputs: Seq<Seq<char>>) -> Verdict {
    match mtime(out) { Err(f) => if kind_of(f) == ErrorKind::NotFound { Verdict::Missing } else { Verdict::Fails(f) },
        Ok(t) => match mtime("compile_commands.json"@) { Err(f) => Verdict::Fails(f), Ok(m) => if t < m { Verdict::Old } else { against(t, inputs) } } }
}
spec fn answers(r: IoResult<ProductFreshness>, v: Verdict) -> bool {
    match v {
        Verdict::Missing => r matches Ok(ProductFreshness::Nonexistent),
        Verdict::Old => r matches Ok(ProductFreshness::Outdated),
        Verdict::Current(t) => r matches Ok(ProductFreshness::MaybeOutdated(d)) && (d matches Some(a) ==> age_of(t, a)),
        Verdict::Fails(f) => r matches Err(e) && e@ == f,
    }
}
// not outdated exactly if nothing it is compared to is newer
proof fn current_iff_nothing_newer(t: int, s: Seq<Seq<char>>)
    ensures against(t, s) is Current <==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] mtime(s[i])) is Ok && mtime(s[i])->Ok_0 <= t, decreases s.len()
{
    if s.len() > 0 {
        current_iff_nothing_newer(t, s.drop_first());
        let r = s.drop_first();
        if against(t, s) is Current { assert forall|i: int| 0 <= i < s.len() implies (#[trigger] mtime(s[i])) is Ok && mtime(s[i])->Ok_0 <= t by { if i > 0 { assert(s[i] == r[i - 1]); } } }
        else if forall|i: int| 0 <= i < s.len() ==> (#[trigger] mtime(s[i])) is Ok && mtime(s[i])->Ok_0 <= t { assert(mtime(s[0]) is Ok); assert forall|i: int| 0 <= i < r.len() implies (#[trigger] mtime(r[i])) is Ok && mtime(r[i])->Ok_0 <= t by { assert(r[i] == s[i + 1]); } }
    }
}
// and outdated only if something is
proof fn old_means_newer(t: int, s: Seq<Seq<char>>) ensures against(t, s) is Old ==> exists|i: int| 0 <= i < s.len() && (#[trigger] mtime(s[i])) is Ok && mtime(s[i])->Ok_0 > t, decreases s.len()
{ if s.len() > 0 && against(t, s) is Old { if mtime(s[0])->Ok_0 <= t { old_means_newer(t, s.drop_first()); let i = choose|i: int| 0 <= i < s.drop_first().len() && (#[trigger] mtime(s.drop_first()[i])) is Ok && mtime(s.drop_first()[i])->Ok_0 > t; assert(s.drop_first()[i] == s[i + 1]); } else { assert(mtime(s[0]) is Ok); } } }
"""

def make_freshness():
    u = model("product_freshness")
    accessors(u)
    database(u)
    u.trust("modification times of files do not change during a call; SystemTime is ordered", FRESH)
    u.item(CMD, "enum", "ProductFreshness")
    u.raw(FSPEC)
    u.raw("""
spec fn inputs_of(r: Seq<&DatabaseEntry>) -> Seq<Seq<char>> { r.map_values(|e: &DatabaseEntry| e.file@) }
#[verifier::external_body] fn vx_once<'a>(p: &'a Path) -> (r: Vec<&'a Path>) ensures ptexts(r@) == seq![p@] { unimplemented!() }
""")
    u.fn(CMD, "product_freshness", impl="CompilationDatabase", sig="fn product_freshness<'a>(inputs: Vec<&'a Path>, output: &Path) -> (r: IoResult<ProductFreshness>)",
         rewrites=[("$i_x.metadata().and_then(|$i_m| $i_m.modified())", "(match $i_x.metadata() { Ok($i_m) => $i_m.modified(), Err(vx_e) => Err(vx_e) })", "and_then spelled out")] +
            [(f"if product_mtime {op} {x}.metadata()?.modified()? {{ $b_b }}", f"let vx_t = {{ let vx_m = {x}.metadata()?; vx_m.modified()? }}; if product_mtime {op} vx_t {{ $b_b }}", "subexpression named") for op in ("<", "<=", ">", ">=") for x in ("Path::new(Self::location())", "input", "$i_x")] +
            [("Path::new(Self::location())", "Self::location()", "a path"), ("product_mtime.elapsed().ok()", "(match product_mtime.elapsed() { Ok(vx_d) => Some(vx_d), Err(_) => None })", "Result::ok spelled out")],
         contract="ensures answers(r, verdict(output@, ptexts(inputs@))),",
         loops=[dict(kw="for", it="it", before="let ghost s = ptexts(inputs@); proof { assert(s.skip(0) =~= s); } #[verifier::loop_isolation(false)]", inv="invariant it.seq() == inputs@, against(product_mtime@, s.skip(it.index@ as int)) == against(product_mtime@, s),",
            start="proof { let k = it.index@ as int; assert(s.skip(k)[0] == input@); assert(s.skip(k).drop_first() =~= s.skip(k + 1)); }", after="proof { assert(s.skip(s.len() as int) =~= Seq::empty()); }")],
         hints=[("before", "for $i_x in", "proof { assert(s.skip(0) =~= s); }")] if False else [])
    u.fn(CMD, "profile_freshness", impl="CompilationDatabase", ret="r",
         rewrites=[("self.entries().map(DatabaseEntry::input)", "vx_inputs(&vx_all)", "")] if False else
            [("Self::product_freshness($x.entries().map(DatabaseEntry::$i_f), $p)", "let vx_all = $x.entries(); let mut vx_in: Vec<&Path> = Vec::new(); for vx_e in vx_all { vx_in.push(vx_e.$i_f()); } Self::product_freshness(vx_in, $p)", "map spelled out")],
         contract="requires self.wf(), ensures exists|s: Seq<&DatabaseEntry>| each_once(s, self@) && #[trigger] answers(r, verdict(path@, inputs_of(s))),",
         outer="let ghost mut all: Seq<&DatabaseEntry> = Seq::empty();",
         loops=[dict(kw="for", it="it", before="proof { all = vx_all@; } #[verifier::loop_isolation(false)]", inv="invariant it.seq() == all, ptexts(vx_in@) =~= inputs_of(all).take(it.index@ as int),", after="proof { assert(inputs_of(all).take(all.len() as int) =~= inputs_of(all)); }")],
         tail="assert(answers(vx_ret, verdict(path@, inputs_of(all))));")
    u.fn(CMD, "derived_freshness", impl="DatabaseEntry", ret="r", rewrites=[("std::iter::once($x)", "vx_once($x)", "trusted std function")],
         contract="ensures answers(r, verdict(output_path@, seq![self@.file])),")
    u.fn(CMD, "exists", impl="ProductFreshness", ret="r", contract="ensures r == !(self is Nonexistent),")
    return u
