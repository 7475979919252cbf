"""Measuring the trace of a unit: what becomes of the trace that was there, and of clang (C27)."""
from vx.unit import Unit
T = "src/ui/tui/trace/measure.rs"

TEXT = r"""
global size_of usize == 8;
#[verifier::external_body] pub struct VxText { s: String }
impl VxText { pub uninterp spec fn view(&self) -> Seq<char>; }
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: VxShow + ?Sized> VxShow for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
#[verifier::external_body] pub fn vx_lit(s: &str) -> (r: VxText) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_cat(a: VxText, b: VxText) -> (r: VxText) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_fmt<T: VxShow + ?Sized>(x: &T) -> (r: VxText) ensures r@ == x.shown() { unimplemented!() }
#[verifier::external_body] pub struct Message { s: String }
pub struct VxWritten {}
impl VxWritten { pub fn expect(self, m: &str) {} }
impl Message { pub uninterp spec fn view(&self) -> Seq<char>; #[verifier::external_body] pub fn vx_write(&mut self, t: VxText) -> (r: VxWritten) ensures final(self)@ == old(self)@ + t@ { unimplemented!() } }
#[verifier::external_body] pub fn vx_string(t: VxText) -> (r: Message) ensures r@ == t@ { unimplemented!() }
"""
FS = r"""
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub enum ErrorKind { NotFound, InvalidInput, Other }
pub mod io {
    use vstd::prelude::*;
    pub use super::ErrorKind;
    #[verifier::external_body] pub struct Error {}
    impl Error { pub uninterp spec fn view(&self) -> ErrorKind; #[verifier::external_body] pub fn kind(&self) -> (r: ErrorKind) ensures r == self@ { unimplemented!() } }
    impl super::VxShow for Error { uninterp spec fn shown(&self) -> Seq<char>; }
}
pub type Name = Seq<char>;
pub ghost struct Content { bytes: Seq<u8> }
pub uninterp spec fn bak(p: Name) -> Name;
#[verifier::external_body] pub struct Path {}
impl Path {
    pub uninterp spec fn view(&self) -> Name;
    #[verifier::external_body] fn vx_bak(&self) -> (r: Box<Path>) ensures r@ == bak(self@) { unimplemented!() }
}
// the files whose directory is that of the trace
#[verifier::external_body] pub struct Files {}
impl Files {
    pub uninterp spec fn view(&self) -> Map<Name, Content>;
    pub uninterp spec fn writable(&self) -> bool;
}
#[verifier::external_body] fn vx_rename(vx_fs: &mut Files, a: &Path, b: &Path) -> (r: Result<(), io::Error>)
    requires a@ != b@,
    ensures final(vx_fs).writable() == old(vx_fs).writable(),
        r is Ok <==> old(vx_fs).writable() && old(vx_fs)@.dom().contains(a@),
        r is Ok ==> final(vx_fs)@ == old(vx_fs)@.remove(a@).insert(b@, old(vx_fs)@[a@]),
        r matches Err(e) ==> final(vx_fs)@ == old(vx_fs)@ && (old(vx_fs).writable() ==> e@ is NotFound) && (e@ is NotFound ==> !old(vx_fs)@.dom().contains(a@)),
{ unimplemented!() }
#[verifier::external_body] fn vx_remove(vx_fs: &mut Files, a: &Path) -> (r: Result<(), io::Error>)
    ensures final(vx_fs).writable() == old(vx_fs).writable(),
        r is Ok <==> old(vx_fs).writable() && old(vx_fs)@.dom().contains(a@),
        r is Ok ==> final(vx_fs)@ == old(vx_fs)@.remove(a@),
        r matches Err(e) ==> final(vx_fs)@ == old(vx_fs)@ && (old(vx_fs).writable() ==> e@ is NotFound) && (e@ is NotFound ==> !old(vx_fs)@.dom().contains(a@)),
{ unimplemented!() }
#[verifier::external_body] fn vx_copy(vx_fs: &mut Files, a: &Path, b: &Path) -> (r: Result<u64, io::Error>)
    requires a@ != b@,
    ensures final(vx_fs).writable() == old(vx_fs).writable(), r is Ok ==> old(vx_fs)@.dom().contains(a@) && final(vx_fs)@ == old(vx_fs)@.insert(b@, old(vx_fs)@[a@]),
        old(vx_fs).writable() && old(vx_fs)@.dom().contains(a@) ==> r is Ok,
        r matches Err(e) ==> final(vx_fs)@ == old(vx_fs)@ && (e@ is NotFound ==> !old(vx_fs)@.dom().contains(a@)) && (old(vx_fs).writable() ==> e@ is NotFound),
{ unimplemented!() }
"""
SPEC = r"""
// a backup of what was there
spec fn backed_up(f: Map<Name, Content>, p: Name) -> Map<Name, Content> { if f.dom().contains(p) { f.remove(p).insert(bak(p), f[p]) } else { f } }
// what was backed up is there again, or nothing
spec fn restored(f: Map<Name, Content>, p: Name) -> Map<Name, Content> { if f.dom().contains(bak(p)) { f.remove(bak(p)).insert(p, f[bak(p)]) } else { f.remove(p) } }
// only what clang writes has changed since
spec fn clang_wrote(f: Map<Name, Content>, g: Map<Name, Content>, p: Name) -> bool { g.remove(p) == f.remove(p) }
// a measurement that fails leaves everything as it was
proof fn lemma_nothing_lost(f: Map<Name, Content>, g: Map<Name, Content>, p: Name)
    requires p != bak(p), clang_wrote(backed_up(f, p), g, p), f.dom().contains(p) || !f.dom().contains(bak(p)),
    ensures f.dom().contains(bak(p)) ==> restored(g, p) == f.remove(bak(p)), !f.dom().contains(bak(p)) ==> restored(g, p) == f,
{
    let b = backed_up(f, p);
    assert(g.remove(p).dom().contains(bak(p)) == b.remove(p).dom().contains(bak(p)));
    assert(g.dom().contains(bak(p)) == b.dom().contains(bak(p)));
    if b.dom().contains(bak(p)) { assert(g.remove(p)[bak(p)] == b.remove(p)[bak(p)]); assert(g[bak(p)] == b[bak(p)]); }
    let r = restored(g, p); let w = if f.dom().contains(bak(p)) { f.remove(bak(p)) } else { f };
    assert forall|q: Name| #[trigger] r.dom().contains(q) == w.dom().contains(q) && (r.dom().contains(q) ==> r[q] == w[q]) by {
        assert(g.remove(p).dom().contains(q) == b.remove(p).dom().contains(q));
        if q != p && g.dom().contains(q) { assert(g.remove(p)[q] == b.remove(p)[q]); }
    }
    assert(r =~= w);
}
// one that succeeds leaves what clang wrote, and no backup
proof fn lemma_new_trace(f: Map<Name, Content>, g: Map<Name, Content>, p: Name)
    requires p != bak(p), clang_wrote(backed_up(f, p), g, p),
    ensures g.remove(bak(p)).dom().contains(p) == g.dom().contains(p), g.dom().contains(p) ==> g.remove(bak(p))[p] == g[p], g.remove(bak(p)).remove(p) =~= f.remove(bak(p)).remove(p),
{
    let b = backed_up(f, p);
    assert(g.remove(bak(p)).remove(p) =~= g.remove(p).remove(bak(p)));
    assert(b.remove(p).remove(bak(p)) =~= f.remove(bak(p)).remove(p));
}
"""
CLANG = r"""
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ExitStatus {}
impl ExitStatus { pub uninterp spec fn good(&self) -> bool; #[verifier::external_body] fn code(&self) -> (r: Option<i32>) ensures self.good() <==> r == Some(0i32) { unimplemented!() } #[verifier::external_body] fn success(&self) -> (r: bool) ensures r == self.good() { unimplemented!() } }
pub struct Duration { pub ms: u64 }
impl Duration { pub fn from_millis(n: u64) -> Duration { Duration { ms: n } } }
#[verifier::external_body] pub struct Reader {}
impl Reader { pub uninterp spec fn all(&self) -> Seq<u8>; #[verifier::external_body] fn vx_join(self) -> (r: Vec<u8>) ensures r@ == self.all() { unimplemented!() } }
impl VxShow for ExitStatus { uninterp spec fn shown(&self) -> Seq<char>; }
pub struct VxLossy<'a> { pub b: &'a [u8] }
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
impl<'a> VxShow for VxLossy<'a> { open spec fn shown(&self) -> Seq<char> { lossy(self.b@) } }
fn vx_lossy<'a>(b: &'a [u8]) -> (r: VxLossy<'a>) ensures r.b@ == b@ { VxLossy { b } }
// what is shown about a clang that failed
spec fn said(first: bool, name: Seq<char>, data: Seq<u8>) -> Seq<char> { (if first { " with"@ } else { "\nand"@ }) + " the following "@ + name + " output:\n---\n"@ + lossy(data) + "---"@ }
spec fn failure(s: ExitStatus, out: Seq<u8>, err: Seq<u8>) -> Seq<char> {
    "clang time-trace run failed ("@ + s.shown() + ")"@ + (if out.len() > 0 { said(true, "stdout"@, out) } else { Seq::empty() }) + (if err.len() > 0 { said(out.len() == 0, "stderr"@, err) } else { Seq::empty() })
}
// a process: how it ends by itself (if it does), and whether it has ended
#[verifier::external_body] pub struct Child {}
impl Child {
    pub uninterp spec fn fate(&self) -> ExitStatus;
    pub uninterp spec fn gone(&self) -> bool;
    #[verifier::external_body] fn wait_timeout(&mut self, d: Duration) -> (r: Result<Option<ExitStatus>, io::Error>)
        ensures final(self).fate() == old(self).fate(), r matches Ok(Some(s)) ==> final(self).gone() && s == old(self).fate() { unimplemented!() }
    // the process is told to end; it cannot be if it has ended and was waited for
    #[verifier::external_body] fn kill(&mut self) -> (r: Result<(), io::Error>)
        ensures final(self).fate() == old(self).fate(), r matches Err(e) ==> ((e@ is InvalidInput || e@ is NotFound) ==> final(self).gone()) { unimplemented!() }
    #[verifier::external_body] fn wait(&mut self) -> (r: Result<ExitStatus, io::Error>) ensures final(self).fate() == old(self).fate(), r is Ok ==> final(self).gone() { unimplemented!() }
}
pub enum Ordering { Relaxed, Acquire, Release }
#[verifier::external_body] pub struct Flag {}
impl Flag {
    // whether the flag is set at some time
    pub uninterp spec fn asked(&self) -> bool;
    #[verifier::external_body] fn load(&self, o: Ordering) -> (r: bool) ensures r ==> self.asked() { unimplemented!() }
}
fn vx_over(c: &Child, b: bool) -> (r: Result<bool, Message>) requires c.gone(), ensures r == Ok::<bool, Message>(b) { Ok(b) }
#[verifier::external_body] fn vx_fence(o: Ordering) { unimplemented!() }
"""
START = r"""
#[derive(Clone, Copy)] pub enum Stdio { Null, Piped, Inherit }
impl Stdio { fn null() -> (r: Stdio) ensures r is Null { Stdio::Null } fn piped() -> (r: Stdio) ensures r is Piped { Stdio::Piped } fn inherit() -> (r: Stdio) ensures r is Inherit { Stdio::Inherit } }
#[verifier::external_body] pub struct Command {}
uninterp spec fn spawns(c: Command) -> bool;
uninterp spec fn command_of(c: Child) -> Command;
uninterp spec fn piped(c: Child, k: int) -> bool;
// everything that a process writes to its k-th stream
uninterp spec fn says(c: Child, k: int) -> Seq<u8>;
#[verifier::external_body] fn vx_spawn(c: Command, i: Stdio, o: Stdio, e: Stdio) -> (r: Result<Child, io::Error>)
    requires !(i is Inherit), ensures r is Ok <==> spawns(c), r matches Ok(p) ==> command_of(p) == c && piped(p, 1) == (o is Piped) && piped(p, 2) == (e is Piped) { unimplemented!() }
#[verifier::external_body] pub struct Pipe {}
impl Pipe { pub uninterp spec fn all(&self) -> Seq<u8>; }
impl Child {
    #[verifier::external_body] fn vx_stdout(&mut self) -> (r: Pipe) requires piped(*old(self), 1), ensures r.all() == says(*old(self), 1), same(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body] fn vx_stderr(&mut self) -> (r: Pipe) requires piped(*old(self), 2), ensures r.all() == says(*old(self), 2), same(*old(self), *final(self)) { unimplemented!() }
}
spec fn same(a: Child, b: Child) -> bool { b.fate() == a.fate() && command_of(b) == command_of(a) && (forall|k: int| #[trigger] piped(b, k) == piped(a, k)) && (forall|k: int| #[trigger] says(b, k) == says(a, k)) }
#[verifier::external_body] fn read_in_background(p: Pipe) -> (r: Reader) ensures r.all() == p.all() { unimplemented!() }
impl Flag {
    #[verifier::external_body] fn vx_new(b: bool) -> Flag { unimplemented!() }
    #[verifier::external_body] fn clone(&self) -> (r: Flag) ensures r.asked() == self.asked() { unimplemented!() }
    #[verifier::external_body] fn store(&self, b: bool, o: Ordering) ensures b ==> self.asked() { unimplemented!() }
}
"""
THREAD = r"""
// what the thread asks of the interface, in order
pub ghost enum Ask { Leave, Load(Name), Tell(Seq<char>) }
#[verifier::external_body] pub struct Sink {}
impl Sink {
    pub uninterp spec fn view(&self) -> Seq<Ask>;
    #[verifier::external_body] fn vx_leave(&mut self) ensures final(self)@ == old(self)@.push(Ask::Leave) { unimplemented!() }
    #[verifier::external_body] fn vx_load(&mut self, p: Box<Path>) ensures final(self)@ == old(self)@.push(Ask::Load(p@)) { unimplemented!() }
    #[verifier::external_body] fn vx_tell(&mut self, m: Message) ensures final(self)@ == old(self)@.push(Ask::Tell(m@)) { unimplemented!() }
}
// how a measurement ends, if f were the files before it
spec fn not_started(u: Seq<Ask>, v: Seq<Ask>) -> bool { v.len() == u.len() + 1 && (v.last() matches Ask::Tell(m) && starts(m, "Failed to start clang: "@)) && v =~= u.push(v.last()) }
spec fn ended(u: Seq<Ask>, v: Seq<Ask>, f: Map<Name, Content>, g: Map<Name, Content>, p: Name, clang: CancelableClang) -> bool {
    ||| v == u.push(Ask::Leave).push(Ask::Load(p)) && clang.child.fate().good() && g.remove(p) == f.remove(p)
    ||| v == u.push(Ask::Leave) && clang.canceled.asked() && g == f
    ||| v.len() == u.len() + 2 && v.last() is Tell && v =~= u.push(Ask::Leave).push(v.last()) && g == f && (v.last()->Tell_0 == clang.failed() && !clang.child.fate().good() || lost(v.last()->Tell_0))
}
#[verifier::external_body] fn vx_clang(vx_fs: &mut Files, p: Ghost<Name>) ensures final(vx_fs).writable() == old(vx_fs).writable(), clang_wrote(old(vx_fs)@, final(vx_fs)@, p@) { unimplemented!() }
fn vx_run(clang: CancelableClang, vx_fs: &mut Files, Ghost(p): Ghost<Name>, Ghost(f): Ghost<Map<Name, Content>>) -> (r: Result<bool, Message>)
    requires p != bak(p), old(vx_fs)@ == backed_up(f, p), !f.dom().contains(bak(p)),
    ensures final(vx_fs).writable() == old(vx_fs).writable(), r == Ok::<bool, Message>(false) ==> clang.child.fate().good(), r == Ok::<bool, Message>(true) ==> clang.canceled.asked(), r matches Err(m) ==> (m@ == clang.failed() && !clang.child.fate().good() || lost(m@)),
        restored(final(vx_fs)@, p) == f, final(vx_fs)@.remove(bak(p)).remove(p) == f.remove(p),
{
    vx_clang(vx_fs, Ghost(p));
    proof { lemma_nothing_lost(f, vx_fs@, p); lemma_new_trace(f, vx_fs@, p); assert(f.remove(bak(p)) =~= f); }
    clang.wait()
}
"""

def make_tracing():
    u = Unit("trace_measurement")
    u.trust("formatting macros: write!/format! concatenate their literal and displayed pieces", TEXT)
    u.trust("files: rename and remove_file work exactly on the files that are there if their directory is writable, and change nothing otherwise; the backup of X.json is X.bak", FS)
    M = [("String", "Message", "")] + [(f".{f}(|$i_x| $e)", f".vx_without_contract()", "closures without contract are not accepted") for f in ("map", "map_err", "and_then", "unwrap_or_else", "or_else")]
    ELSE = [(f"{c}.or_else(|_| $e)", f"(match {c} {{ Ok(vx_v) => Ok(vx_v), Err(_) => $e }})", "or_else written out") for c in ("std::fs::rename($a, $b)", "std::fs::remove_file($a)")]
    REN = ELSE + [(f"std::fs::{f}(&{x}$i_a, &{x}$i_b)", f"vx_{f}(vx_fs, &{x}$i_a, &{x}$i_b)", "file system as a parameter") for f in ("rename", "copy") for x in ("", "self.")] + \
          [(f"std::fs::remove_file(&{x}$i_a)", f"vx_remove(vx_fs, &{x}$i_a)", "file system as a parameter") for x in ("", "self.")] + \
          [('output.with_extension("bak").into_boxed_path()', "output.vx_bak()", "name of the backup")]
    u.item(T, "struct", "TraceBackup")
    u.raw("impl TraceBackup { spec fn about(&self) -> bool { self.backup@ == bak(self.output@) && self.backup@ != self.output@ } }")
    u.raw(SPEC)
    u.fn(T, "new", fmt=True, impl="TraceBackup", header="impl TraceBackup", sig="fn new(output: Box<Path>, vx_fs: &mut Files) -> (vx_r: Result<Self, Message>)", rewrites=REN + M,
        contract="""requires output@ != bak(output@), ensures final(vx_fs).writable() == old(vx_fs).writable(), old(vx_fs).writable() ==> vx_r is Ok,
            match vx_r { Ok(b) => b.about() && b.output@ == output@ && final(vx_fs)@ == backed_up(old(vx_fs)@, output@), Err(_) => final(vx_fs)@ == old(vx_fs)@ },""")
    u.fn(T, "restore_or_delete", fmt=True, impl="TraceBackup", header="impl TraceBackup", sig="fn restore_or_delete(self, vx_fs: &mut Files) -> (vx_r: Option<Message>)", rewrites=REN + M,
        contract="""requires self.about(), ensures final(vx_fs).writable() == old(vx_fs).writable(), if old(vx_fs).writable() { vx_r is None && final(vx_fs)@ =~= restored(old(vx_fs)@, self.output@) } else { final(vx_fs)@ == old(vx_fs)@ },""")
    u.fn(T, "cleanup", fmt=True, impl="TraceBackup", header="impl TraceBackup", sig="fn cleanup(self, vx_fs: &mut Files) -> (vx_r: (Box<Path>, Option<Message>))", rewrites=REN + M,
        contract="""requires self.about(), ensures vx_r.0@ == self.output@, final(vx_fs).writable() == old(vx_fs).writable(), if old(vx_fs).writable() { vx_r.1 is None && final(vx_fs)@ =~= old(vx_fs)@.remove(self.backup@) } else { final(vx_fs)@ == old(vx_fs)@ },""")
    u.trust("processes: wait_timeout and wait say that a process has ended; an atomic flag that reads true has been set; a reader gets all that clang says", CLANG)
    u.item(T, "struct", "CancelableClang", rewrites=[("JoinHandle<Vec<u8>>", "Reader", "thread that reads a pipe"), ("Arc<AtomicBool>", "Flag", "shared flag")])
    u.raw("impl CancelableClang { spec fn failed(&self) -> Seq<char> { failure(self.child.fate(), self.stdout.all(), self.stderr.all()) } }")
    u.raw("""spec fn starts(m: Seq<char>, p: Seq<char>) -> bool { m.len() >= p.len() && m.take(p.len() as int) == p }
broadcast proof fn lemma_starts(p: Seq<char>, q: Seq<char>) ensures #[trigger] starts(p + q, p) { assert((p + q).take(p.len() as int) =~= p); }
// the operating system does not let clang be awaited or ended
spec fn lost(m: Seq<char>) -> bool { starts(m, "Failed to await clang: "@) || starts(m, "Failed to kill clang: "@) }""")
    u.fn(T, "child_failure_message", closure=("append_pipe", "error: &mut String, is_first, stream_name: &str, stream_data"), sig="fn append_pipe(error: &mut Message, is_first: bool, stream_name: &str, stream_data: &[u8])", fmt=True,
        rewrites=[("String::from_utf8_lossy($a)", "vx_lossy($a)", "decoding of UTF-8")], contract="ensures final(error)@ =~= old(error)@ + said(is_first, stream_name@, stream_data@),")
    u.fn(T, "child_failure_message", lifted=["append_pipe"], sig="fn child_failure_message(stdout: Vec<u8>, stderr: Vec<u8>, error_status: ExitStatus) -> (vx_r: Message)", fmt=True,
        rewrites=[("let append_pipe = vx_lifted;", "", "lifted closure"), ("&$i_x[..]", "$i_x.as_slice()", "slice of everything")] + M, contract="ensures vx_r@ =~= failure(error_status, stdout@, stderr@),")
    u.fn(T, "wait", fmt=True, start="broadcast use lemma_starts;", impl="CancelableClang", header="impl CancelableClang", sig="fn wait(self) -> (vx_r: Result<bool, Message>)", attrs="#[verifier::exec_allows_no_decreases_clause] #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]",
        rewrites=[("let wait_result = loop", "let mut vx_end: Result<Option<ExitStatus>, io::Error> = Ok(None); loop", "value of the loop in a variable"), ("break wait_result;", "{ vx_end = wait_result; break; }", "value of the loop in a variable"),
            ("other => break other", "other => { vx_end = other; break; }", "value of the loop in a variable"), ("match wait_result { Ok(Some(status))", "match vx_end { Ok(Some(status))", "value of the loop in a variable"), ("const RESPONSE_TIME: Duration = $e;", "let RESPONSE_TIME = $e;", "constant"), ("atomic::fence($a)", "vx_fence($a)", ""), ("vx_self.$i_x.join().unwrap_or_default()", "vx_self.$i_x.vx_join()", "what the reader got"), ("self.$i_x.join().unwrap_or_default()", "vx_self.$i_x.vx_join()", "what the reader got"),
            ("Ok(true)", "vx_over(&vx_self.child, true)", "a result that says the process has ended"), ("Ok(false)", "vx_over(&vx_self.child, false)", "a result that says the process has ended")] + M,
        loops=[dict(kw="loop", before="let ghost vx_fate = vx_self.child.fate(); let ghost vx_flag = vx_self.canceled;", inv="invariant vx_self.child.fate() == vx_fate, vx_self.canceled == vx_flag, ensures vx_end matches Ok(Some(s)) ==> vx_self.child.gone() && s == vx_fate, vx_end matches Ok(None) ==> vx_self.canceled.asked(),")],
        contract="ensures vx_r == Ok::<bool, Message>(false) ==> self.child.fate().good(), vx_r == Ok::<bool, Message>(true) ==> self.canceled.asked(), vx_r matches Err(m) ==> (m@ == self.failed() && !self.child.fate().good() || lost(m@)),")
    u.trust("processes: spawn starts what the command says, with a pipe for each stream that is to be piped", START)
    u.item(T, "struct", "CancelTrigger", rewrites=[("Arc<AtomicBool>", "Flag", "shared flag")])
    u.raw("impl CancelableClang { spec fn runs(&self, c: Command) -> bool { command_of(self.child) == c && self.stdout.all() == says(self.child, 1) && self.stderr.all() == says(self.child, 2) } }")
    u.fn(T, "start", impl="CancelableClang", header="impl CancelableClang", fmt=True, start="broadcast use lemma_starts;", sig="fn start(command: Command) -> (vx_r: Result<(Self, CancelTrigger), Message>)",
        rewrites=[(f"{c}.stdin($a).stdout($b).stderr($e).spawn()", "vx_spawn(command, $a, $b, $e)", "builder with its settings as arguments") for c in ("vx_command", "command")] +
            [(f"child.{f}.take().expect($m)", f"child.vx_{f}()", "pipe of the process") for f in ("stdout", "stderr")] + [("Arc::new(AtomicBool::new($a))", "Flag::vx_new($a)", "shared flag")] + M,
        contract="""ensures vx_r is Ok <==> spawns(command), match vx_r { Ok(p) => p.0.runs(command) && (p.1.0.asked() ==> p.0.canceled.asked()), Err(m) => starts(m@, "Failed to start clang: "@) },""")
    u.fn(T, "cancel", impl="CancelTrigger", header="impl CancelTrigger", contract="ensures self.0.asked(),")
    u.trust("cursive does what is asked of it in that order; while clang runs nothing but the trace changes among these files; spawning a thread runs its closure", THREAD)
    FAIL = [("$i_x.restore_or_delete()", "$i_x.restore_or_delete(vx_fs)", "file system as a parameter"), ("cursive.add_layer(Dialog::info(error));", "vx_ui.vx_tell(error);", "dialog")]
    u.fn(T, "start_measure", closure=("@spawn", ""), sig="fn vx_measured(clang: CancelableClang, backup: TraceBackup, vx_ui: &mut Sink, vx_fs: &mut Files, Ghost(vx_f): Ghost<Map<Name, Content>>)",
        start="let ghost vx_u = vx_ui@; let ghost vx_p = backup.output@;",
        rewrites=[("let cb_sink = &cb_sink; fn callback(cb_sink: &cursive::CbSink, callback: impl FnOnce(&mut Cursive) + Send + 'static,) { cb_sink.send(Box::new(callback)).expect($m); }", "", "callbacks run on the thread of the interface, in order"),
            ("callback(cb_sink, move |cursive| end_measure(cursive, state));", "vx_ui.vx_leave();", "callback"), ("callback(cb_sink, move |cursive| { trace::load::show_loader(cursive, output_path) });", "vx_ui.vx_load(output_path);", "callback"),
            ("callback(cb_sink, move |cursive| { cursive.add_layer(Dialog::info(error)) });", "vx_ui.vx_tell(error);", "callback"),
            ("clang.wait()", "vx_run(clang, vx_fs, Ghost(vx_p), Ghost(vx_f))", "clang may write the trace meanwhile"), ("$i_x.cleanup()", "$i_x.cleanup(vx_fs)", "file system as a parameter")] + FAIL,
        contract="""requires backup.about(), old(vx_fs).writable(), !vx_f.dom().contains(backup.backup@), old(vx_fs)@ == backed_up(vx_f, backup.output@),
            ensures final(vx_fs).writable(), ended(old(vx_ui)@, final(vx_ui)@, vx_f, final(vx_fs)@, backup.output@, clang),""")
    u.fn(T, "start_measure", lifted=["@spawn"], sig="fn start_measure(vx_ui: &mut Sink, command: Command, output_path: Box<Path>, vx_fs: &mut Files)", start="let ghost vx_f = vx_fs@;",
        rewrites=[("TraceBackup::new(output_path)", "TraceBackup::new(output_path, vx_fs)", "file system as a parameter"), ("std::thread::spawn(vx_lifted);", "vx_measured(clang, backup, vx_ui, vx_fs, Ghost(vx_f));", "what the thread does"), ("std::thread::spawn(move vx_lifted);", "vx_measured(clang, backup, vx_ui, vx_fs, Ghost(vx_f));", "what the thread does"),
            ("let layers_below_profile = cursive.screen().len(); with_state(cursive, |state| { state.layers_below_profile = layers_below_profile; state.no_escape = true; });", "", "measurement screen"),
            ("let old_fps = cursive.fps(); cursive.set_autorefresh(true); let state = MeasureState { old_fps };", "", "measurement screen"), ("cursive.add_layer(Dialog::text($a).button($b, move |_cursive| cancel_trigger.cancel()),);", "", "measurement screen"),
            ("let cb_sink = cursive.cb_sink().clone();", "", "measurement screen")] + FAIL,
        contract="""requires output_path@ != bak(output_path@), old(vx_fs).writable(), !old(vx_fs)@.dom().contains(bak(output_path@)),
            ensures spawns(command) ==> exists|c: CancelableClang| c.runs(command) && #[trigger] ended(old(vx_ui)@, final(vx_ui)@, old(vx_fs)@, final(vx_fs)@, output_path@, c), !spawns(command) ==> not_started(old(vx_ui)@, final(vx_ui)@) && final(vx_fs)@ == old(vx_fs)@,""")
    return u
