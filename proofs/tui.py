"""C24: the processing thread of the TUI (src/ui/tui/processing.rs)."""
from .display import base, float_model, activity
from .profile import assuming
P = "src/ui/tui/processing.rs"
UI = "src/ui/mod.rs"

TRACE = r"""
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ActivityTraceId { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Act { x: u8 }   // an activity of a trace
pub uninterp spec fn id_of(k: Act) -> ActivityTraceId;
pub uninterp spec fn dur(k: Act) -> T;
pub uninterp spec fn self_dur(k: Act) -> T;
pub uninterp spec fn kids(k: Act) -> Seq<Act>;
pub uninterp spec fn below(k: Act) -> Seq<Act>;
pub uninterp spec fn aid(k: Act) -> ActivityId;
pub uninterp spec fn detail_of(k: Act) -> Option<Seq<char>>;
pub uninterp spec fn parse_of(k: Act) -> Option<Content>;
// what a time trace file says
#[verifier::external_body] pub struct Contents {}
pub uninterp spec fn all(c: Contents) -> Seq<Act>;
pub uninterp spec fn roots(c: Contents) -> Seq<Act>;
pub uninterp spec fn act(c: Contents, id: ActivityTraceId) -> Act;
pub uninterp spec fn header_text(c: Contents, cols: int) -> Seq<char>;
// a loaded trace: what is said by its file, and interned texts that only grow; interned texts of another load mean something else
#[verifier::external_body] pub struct Load {}
pub uninterp spec fn said(l: Load) -> Contents;
#[verifier::external_body] pub struct ClangTrace {}
pub uninterp spec fn load(t: ClangTrace) -> Load;
pub open spec fn same_trace(a: ClangTrace, b: ClangTrace) -> bool { load(a) == load(b) }
pub struct ActivityTrace { pub k: Act }
pub open spec fn keys(s: Seq<ActivityTrace>) -> Seq<Act> { s.map(|_i: int, a: ActivityTrace| a.k) }
#[verifier::external_body] pub struct VxActs { v: Vec<ActivityTrace> }
impl VxActs {
    pub uninterp spec fn view(&self) -> Seq<Act>;
    #[verifier::external_body] pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn vx_next(self) -> (r: Option<ActivityTrace>) ensures r is Some <==> self@.len() > 0 { unimplemented!() }
    #[verifier::external_body] pub fn vx_list(self) -> (r: Vec<ActivityTrace>) ensures keys(r@) == self@ { unimplemented!() }
}
#[verifier::external_body] pub struct Path {}
#[verifier::external_body] pub struct ClangTraceLoadError {}
pub uninterp spec fn read_from(p: Path, c: Contents) -> bool;              // the file there can hold this
pub uninterp spec fn refused(p: Path, e: ClangTraceLoadError) -> bool;
impl ClangTrace {
    #[verifier::external_body] pub fn from_file(p: Box<Path>) -> (r: Result<ClangTrace, ClangTraceLoadError>) ensures match r { Ok(t) => read_from(*p, said(load(t))), Err(e) => refused(*p, e) } { unimplemented!() }
    #[verifier::external_body] pub fn all_activities(&self) -> (r: VxActs) ensures r@ == all(said(load(*self))) { unimplemented!() }
    #[verifier::external_body] pub fn root_activities(&self) -> (r: VxActs) ensures r@ == roots(said(load(*self))) { unimplemented!() }
    #[verifier::external_body] pub fn activity_trace(&self, id: ActivityTraceId) -> (r: ActivityTrace) ensures r.k == act(said(load(*self)), id) { unimplemented!() }
}
impl ActivityTrace {
    #[verifier::external_body] pub fn id(&self) -> (r: ActivityTraceId) ensures r == id_of(self.k) { unimplemented!() }
    #[verifier::external_body] pub fn duration(&self) -> (r: T) ensures r == dur(self.k) { unimplemented!() }
    #[verifier::external_body] pub fn self_duration(&self) -> (r: T) ensures r == self_dur(self.k) { unimplemented!() }
    #[verifier::external_body] pub fn direct_children(&self) -> (r: VxActs) ensures r@ == kids(self.k) { unimplemented!() }
    #[verifier::external_body] pub fn all_children(&self) -> (r: VxActs) ensures r@ == below(self.k) { unimplemented!() }
    #[verifier::external_body] pub fn activity(&self) -> (r: &Activity) ensures r.k() == self.k { unimplemented!() }
}
#[verifier::external_body] pub struct Activity {}
impl Activity {
    pub uninterp spec fn k(&self) -> Act;
    #[verifier::external_body] pub fn raw_argument(&self) -> (r: &RawActivityArgument) ensures r.k() == self.k() { unimplemented!() }
    #[verifier::external_body] pub fn id(&self) -> (r: &ActivityId) ensures *r == aid(self.k()) { unimplemented!() }
}
pub enum Content { Nothing, Text(Seq<char>), Other(int) }
#[verifier::external_body] pub struct VxParsed {}
impl VxParsed { pub uninterp spec fn v(&self, l: Load) -> int; }
pub enum ParsedActivityArgument { String(VxString), Nothing, Other(VxParsed) }
impl ParsedActivityArgument {
    // interned texts are looked up in the trace they are resolved with
    pub open spec fn content(self, l: Load) -> Content { match self { ParsedActivityArgument::String(s) => Content::Text(s@), ParsedActivityArgument::Nothing => Content::Nothing, ParsedActivityArgument::Other(o) => Content::Other(o.v(l)) } }
    #[verifier::external_body] fn resolve(&self, trace: &ClangTrace) -> (r: ActivityArgument) ensures content_of(r) == self.content(load(*trace)) { unimplemented!() }
}
uninterp spec fn content_of(a: ActivityArgument) -> Content;
#[verifier::external_body] pub struct RawActivityArgument {}
#[verifier::external_body] pub struct VxArgError {}
impl RawActivityArgument {
    pub uninterp spec fn k(&self) -> Act;
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r.k() == self.k() { unimplemented!() }
    #[verifier::external_body] pub fn detail(&self) -> (r: Option<VxString>) ensures match r { Some(d) => detail_of(self.k()) == Some(d@), None => detail_of(self.k()) is None } { unimplemented!() }
    #[verifier::external_body] pub fn parse(&self, trace: &mut ClangTrace) -> (r: Result<ParsedActivityArgument, VxArgError>)
        ensures same_trace(*old(trace), *final(trace)), match r { Ok(p) => parse_of(self.k()) == Some(p.content(load(*final(trace)))), Err(_) => parse_of(self.k()) is None } { unimplemented!() }
}
pub open spec fn argument(k: Act) -> Content { match parse_of(k) { Some(c) => c, None => match detail_of(k) { Some(d) => Content::Text(d), None => Content::Nothing } } }
#[verifier::external_body] fn metadata(trace: &ClangTrace, max_cols: u16) -> (r: VxString) requires max_cols >= 1, ensures r@ == header_text(said(load(*trace)), max_cols as int) { unimplemented!() }
"""
SPEC = r"""
use crate::io::Write;
// the description of an activity for a number of columns, or in full (C09)
spec fn shown(k: Act, cols: Option<u16>, t: Seq<char>) -> bool {
    exists|a: ActivityArgument| content_of(a) == argument(k) && #[trigger] text_for(aid(k), a, cols, t)
}
spec fn text_for(id: ActivityId, a: ActivityArgument, cols: Option<u16>, t: Seq<char>) -> bool {
    match cols {
        Some(c) => if width(id.text()) + (if has_arg(a) { 3int } else { 0 }) > c { t == seq!['…'] } else { described(id.text(), a, cols, t) && width(t) <= c },
        None => described(id.text(), a, None, t),
    }
}
#[verifier::external_body] proof fn ax_short_name(a: ActivityId) ensures width(a.text()) <= 1000 {}
pub struct Info { pub id: ActivityTraceId, pub duration: T, pub own: T, pub zoomable: bool }
pub open spec fn info_of(k: Act) -> Info { Info { id: id_of(k), duration: dur(k), own: self_dur(k), zoomable: kids(k).len() > 0 } }
pub open spec fn infos(s: Seq<Act>) -> Seq<Info> { s.map(|_i: int, k: Act| info_of(k)) }
spec fn listed(l: Seq<ActivityInfo>) -> Seq<Info> { l.map(|_i: int, a: ActivityInfo| Info { id: a.id, duration: a.duration, own: a.self_duration, zoomable: a.has_children }) }
type ActivityInfoList = Box<[ActivityInfo]>;
pub type ActivityDescList = Box<[VxString]>;
pub open spec fn texts(l: Seq<VxString>) -> Seq<Seq<char>> { l.map(|_i: int, s: VxString| s@) }
#[verifier::external_body] fn vx_boxed<A>(v: Vec<A>) -> (r: Box<[A]>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] fn vx_vec<A>(v: Box<[A]>) -> (r: Vec<A>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] fn vx_owned(s: &str) -> (r: VxString) ensures r@ == s@ { unimplemented!() }
impl VxString { #[verifier::external_body] pub fn vx_same(&self) -> (r: VxString) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] fn vx_buffered(r: io::Result<()>) ensures r is Ok { unimplemented!() }
#[verifier::external_body] fn vx_infallible(r: Result<bool, ActivityDescError>) -> (s: Result<bool, ActivityDescError>) ensures s == r, !(r matches Err(ActivityDescError::IoError(_))) { unimplemented!() }
#[verifier::external_body] fn vx_unreachable() -> (r: bool) requires false { unimplemented!() }
// a HashMap
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct VxMap<V> { v: Vec<V> }
impl<V> VxMap<V> {
    pub uninterp spec fn view(&self) -> Map<ActivityTraceId, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<ActivityTraceId, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<ActivityTraceId, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn vx_has(&self, k: ActivityTraceId) -> (r: bool) ensures r == self@.dom().contains(k) { unimplemented!() }
    #[verifier::external_body] pub fn vx_put(&mut self, k: ActivityTraceId, v: V) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn vx_get(&self, k: ActivityTraceId) -> (r: &V) requires self@.dom().contains(k), ensures *r == self@[k] { unimplemented!() }
}
// cached arguments are those of the loaded trace, cached descriptions are those for the width
pub open spec fn args_ok(m: Map<ActivityTraceId, ParsedActivityArgument>, l: Load) -> bool { forall|id: ActivityTraceId| #[trigger] m.dom().contains(id) ==> m[id].content(l) == argument(act(said(l), id)) }
spec fn descs_ok(m: Map<ActivityTraceId, VxString>, l: Load, cols: u16) -> bool { forall|id: ActivityTraceId| #[trigger] m.dom().contains(id) ==> shown(act(said(l), id), Some(cols), m[id]@) }
"""
TALK = r"""
// ---- what is sent back, in order ----
pub enum Event { Loaded(VxCallback, Result<(), ClangTraceLoadError>), Text(Seq<char>, bool), Acts(Seq<Info>), Lines(Seq<Seq<char>>) }
#[verifier::external_body] pub struct VxLog {}
impl VxLog { pub uninterp spec fn view(&self) -> Seq<Event>; }
pub type ClangTraceLoadResult = Result<(), ClangTraceLoadError>;
#[verifier::external_body] pub struct VxCallback {}
impl VxCallback { #[verifier::external_body] pub fn vx_call(self, r: ClangTraceLoadResult, log: &mut VxLog) ensures final(log)@ == old(log)@.push(Event::Loaded(self, r)) { unimplemented!() } }
trait VxReply: Sized { spec fn event(&self) -> Event; }
impl VxReply for (VxString, bool) { spec fn event(&self) -> Event { Event::Text(self.0@, self.1) } }
impl VxReply for ActivityInfoList { spec fn event(&self) -> Event { Event::Acts(listed(self@)) } }
impl VxReply for ActivityDescList { spec fn event(&self) -> Event { Event::Lines(texts(self@)) } }
#[verifier::external_body] #[verifier::reject_recursive_types(A)] pub struct Sender<A> { v: Vec<A> }
#[verifier::external_body] #[derive(Debug)] pub struct VxHungUp {}
impl<A: VxReply> Sender<A> { #[verifier::external_body] fn vx_send(&self, data: A, log: &mut VxLog) -> (r: Result<(), VxHungUp>) ensures r is Ok, final(log)@ == old(log)@.push(data.event()) { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(A)] pub struct Receiver<A> { v: Vec<A> }
impl Receiver<Instruction> {
    pub uninterp spec fn all(&self) -> Seq<Instruction>;
    // every request there will ever be until the sender hangs up
    #[verifier::external_body] pub fn vx_all(self) -> (r: Vec<Instruction>) ensures r@ == self.all() { unimplemented!() }
}
// panics without a trace: nothing is claimed about such requests
#[verifier::external_body] fn vx_expect(t: &mut Option<ClangTrace>) -> (r: &mut ClangTrace) ensures *old(t) is Some, *r == (*old(t))->Some_0, *final(t) == Some(*final(r)) { unimplemented!() }
// in a state where a trace (or none) is loaded, the instruction is answered by the event and leaves a state
spec fn answer(s: Option<Contents>, i: Instruction, e: Event, t: Option<Contents>) -> bool {
    match i {
        Instruction::LoadTrace(p, f) => match t { Some(c) => read_from(*p, c) && e == Event::Loaded(f, Ok(())), None => exists|x: ClangTraceLoadError| refused(*p, x) && #[trigger] loaded_err(f, x) == e },
        _ => t == s && s is Some && (match i {
            Instruction::LoadTrace(_, _) => true,
            Instruction::DescribeTrace { max_cols } => e == Event::Text(header_text(s->Some_0, max_cols as int), false),
            Instruction::GetRootActivities => e == Event::Acts(infos(roots(s->Some_0))),
            Instruction::GetAllActivities => e == Event::Acts(infos(all(s->Some_0))),
            Instruction::GetDirectChildren(id) => e == Event::Acts(infos(kids(act(s->Some_0, id)))),
            Instruction::GetAllChildren(id) => e == Event::Acts(infos(below(act(s->Some_0, id)))),
            Instruction::DescribeActivities { activities, max_cols } => (e matches Event::Lines(l) && lines_for(s->Some_0, activities@, max_cols, l)),
            Instruction::DescribeActivity { activity, max_cols } => (e matches Event::Text(x, w) && w && shown(act(s->Some_0, activity), None, x)),
        }),
    }
}
pub open spec fn loaded_err(f: VxCallback, x: ClangTraceLoadError) -> Event { Event::Loaded(f, Err(x)) }
spec fn lines_for(c: Contents, ids: Seq<ActivityTraceId>, cols: u16, l: Seq<Seq<char>>) -> bool { l.len() == ids.len() && forall|i: int| 0 <= i < l.len() ==> shown(act(c, ids[i]), Some(cols), #[trigger] l[i]) }
pub open spec fn state(t: Option<ClangTrace>) -> Option<Contents> { match t { Some(t) => Some(said(load(t))), None => None } }
// C24: one event per instruction, whatever came before but for the last loaded trace
spec fn history(i: Seq<Instruction>, s: Seq<Option<Contents>>, e: Seq<Event>) -> bool {
    &&& s.len() == i.len() + 1 && e.len() == i.len() && s[0] is None
    &&& forall|k: int| 0 <= k < i.len() ==> #[trigger] answer(s[k], i[k], e[k], s[k + 1])
}
spec fn sane(i: Instruction) -> bool { match i { Instruction::DescribeTrace { max_cols } => max_cols >= 1, _ => true } }
"""

def describe(u):
    u.item(P, "struct", "ActivityInfo")
    u.trust("ClangTrace and ActivityTrace accessors as in C01, C03 and C11, RawActivityArgument::{parse, detail} and ParsedActivityArgument::resolve as in C12 (interned texts mean something in the trace they were interned in only), the metadata header as in C13; nothing but loading changes the activities of a trace", TRACE)
    u.trust("HashMap::entry(k).or_insert_with(f) evaluates f and stores its value only if there is none at k yet; Box<[T]>, Vec and Arc<str> hold what was put in; activity names take less than 1000 columns (they come from a fixed table)", SPEC)
    u.fn(UI, "force_parse_arg", ret="r", rewrites=[("log::error!($x);", "", "log not modelled")],
        contract="ensures same_trace(*old(trace), *final(trace)), r.content(load(*final(trace))) == argument(act(said(load(*old(trace))), id)),")
    ENTRY = [("$i_m.entry($a).or_insert_with(|| $e)", "{ if !$i_m.vx_has($a) { let vx_new = $e; $i_m.vx_put($a, vx_new); } $i_m.vx_get($a) }", "std map entry"),
             ("HashMap<", "VxMap<", "std map"), ("Arc<str>", "VxString", "shared text as its contents")]
    u.fn(P, "activity_list", attrs="#[verifier::loop_isolation(false)]", sig="fn activity_list(iterator: VxActs) -> (vx_r: ActivityInfoList)",
        rewrites=[("iterator.map(|$i_a| $e).collect()", "{ let mut vx_l: Vec<ActivityInfo> = Vec::new(); for $i_a in iterator.vx_list() { let vx_i = $e; vx_l.push(vx_i); } vx_boxed(vx_l) }", "iterator written out as a loop"),
            (".direct_children().next()", ".direct_children().vx_next()", "iterator by value")],
        contract="ensures listed(vx_r@) == infos(iterator@),", start="let ghost a = iterator@;",
        loops=[dict(kw="for", it="it", inv="invariant keys(it.seq()) == a, vx_l@.len() == it.index@, forall|i: int| 0 <= i < vx_l@.len() ==> info_of(a[i]) == (Info { id: (#[trigger] vx_l@[i]).id, duration: vx_l@[i].duration, own: vx_l@[i].self_duration, zoomable: vx_l@[i].has_children }),",
            start="proof { assert(keys(it.seq())[it.index@ as int] == activity_trace.k); }", after="proof { assert(listed(vx_l@) =~= infos(a)); }")])
    CON = r"""
        requires args_ok(old(parsed_arg_cache)@, load(*old(trace))), config matches DisplayConfig::MultiLine { header_cols, trailer_cols, .. } ==> header_cols <= 1000 && trailer_cols <= 1000,
        ensures same_trace(*old(trace), *final(trace)), args_ok(final(parsed_arg_cache)@, load(*final(trace))), vx_r.1 == (config is MultiLine),
            shown(act(said(load(*final(trace))), activity), (match config { DisplayConfig::SingleLine { max_cols } => Some(max_cols), _ => None }), vx_r.0@), """
    u.fn(P, "describe_activity", fmt=True, attrs="#[verifier::loop_isolation(false)]",
        sig="fn describe_activity(trace: &mut ClangTrace, parsed_arg_cache: &mut VxMap<ParsedActivityArgument>, activity: ActivityTraceId, config: DisplayConfig) -> (vx_r: (VxString, bool))",
        rewrites=ENTRY + [("crate::ui::force_parse_arg", "force_parse_arg", "path"), ("Vec::new()", "VxBytes::new()", "text sink"),
            ("std::str::from_utf8(&output[..])", "output.vx_utf8()", "trusted"), ("OwnedStr::from(output)", "vx_owned(output)", "conversion"),
            ("unreachable!($x)", "vx_unreachable()", "unreachable code becomes an obligation"), ("display_activity_desc( &mut output, $a, &$i_p.resolve(trace), $c, )", """{ let vx_a = $i_p.resolve(trace); let vx_m = vx_infallible(display_activity_desc(&mut output, $a, &vx_a, $c));
                proof { let cols = match config { DisplayConfig::SingleLine { max_cols } => Some(max_cols), _ => None };
                    match vx_m { Ok(_) => { let t = choose|t: Seq<char>| output.out() == #[trigger] (Seq::<char>::empty() + t) && (cols is Some ==> width(t) <= cols->Some_0) && described(aid(k).text(), vx_a, cols, t); assert(output.out() =~= t); assert(text_for(aid(k), vx_a, cols, output.out())); }
                        Err(_) => { assert(text_for(aid(k), vx_a, cols, seq!['…'])); assert(output.out() =~= Seq::<char>::empty()); assert(output.out() + seq!['…'] =~= seq!['…']); } } }
                vx_m }""", "argument named; writing to a collection does not fail"), ("$a.vx_write($b).expect($m)", "vx_buffered($a.vx_write($b))", "writing to a collection does not fail")],
        contract=CON, start="""let ghost d0 = load(*trace); let ghost k = act(said(d0), activity); proof { ax_short_name(aid(k)); reveal_strlit("…"); assert("…"@ =~= seq!['…']); }""",
        hints=[("before", "let activity_trace =", "let ghost pa = *parsed_arg; proof { assert(pa.content(load(*trace)) == argument(k)); }")],
        )
    u.fn(P, "describe_activities", attrs="#[verifier::loop_isolation(false)]",
        sig="fn describe_activities(trace: &mut ClangTrace, parsed_arg_cache: &mut VxMap<ParsedActivityArgument>, description_cache: &mut VxMap<VxString>, activities: Box<[ActivityTraceId]>, max_cols: u16) -> (vx_r: ActivityDescList)",
        rewrites=[("$i_a.into_vec().into_iter().map(|$i_x| $e).collect()", "{ let mut vx_l: Vec<VxString> = Vec::new(); for $i_x in vx_vec($i_a) { let vx_d = $e; vx_l.push(vx_d); } vx_boxed(vx_l) }", "iterator written out as a loop"),
            ("assert!($e, $m);", "{ let vx_b = $e; assert(vx_b); }", "runtime assertion becomes an obligation"),
            ('#[cfg(feature = "unstable_interner_stats")] trace.log_interner_usage();', "", "off by default")] + ENTRY + [(".clone()", ".vx_same()", "shared text as its contents")],
        contract=r"""
        requires args_ok(old(parsed_arg_cache)@, load(*old(trace))), descs_ok(old(description_cache)@, load(*old(trace)), max_cols),
        ensures same_trace(*old(trace), *final(trace)), args_ok(final(parsed_arg_cache)@, load(*final(trace))), descs_ok(final(description_cache)@, load(*final(trace)), max_cols),
            lines_for(said(load(*final(trace))), activities@, max_cols, texts(vx_r@)), """,
        start="let ghost ids = activities@; let ghost d0 = load(*trace);",
        loops=[dict(kw="for", it="it", inv="""invariant it.seq() == ids, load(*trace) == d0, args_ok(parsed_arg_cache@, d0), descs_ok(description_cache@, d0, max_cols), vx_l@.len() == it.index@,
                forall|i: int| 0 <= i < vx_l@.len() ==> shown(act(said(d0), ids[i]), Some(max_cols), (#[trigger] vx_l@[i])@),""",
            start="proof { assert(activity == ids[it.index@ as int]); }",
            after="proof { let l = texts(vx_l@); assert forall|i: int| 0 <= i < l.len() implies shown(act(said(d0), ids[i]), Some(max_cols), #[trigger] l[i]) by { assert(l[i] == vx_l@[i]@); } }")])

def worker(u):
    u.item(P, "enum", "Instruction", rewrites=[("Box<dyn FnOnce(ClangTraceLoadResult) + Send>", "VxCallback", "callback")])
    u.trust("mpsc channels deliver what is sent, in order; the requests received until the sender hangs up form a sequence; replies are received by a main thread that waits for them (Sender::send does not fail); a request about a trace when none is loaded ends the thread (no claim)", TALK)
    u.fn(P, "reply", sig="fn reply<A: VxReply>(vx_log: &mut VxLog, sender: &Sender<A>, data: A)", rewrites=[("$a.send($b)", "$a.vx_send($b, vx_log)", "log of replies")],
        contract="ensures final(vx_log)@ == old(vx_log)@.push(data.event()),")
    u.fn(P, "worker", attrs="#[verifier::loop_isolation(false)]",
        sig="fn worker(instructions: Receiver<Instruction>, string: Sender<(VxString, bool)>, activities: Sender<ActivityInfoList>, strings: Sender<ActivityDescList>, vx_log: &mut VxLog)",
        rewrites=[("fn expect(trace: &mut Option<ClangTrace>) -> &mut ClangTrace { $b_x }", "", "panics without a trace"), ("= expect(&mut trace);", "= vx_expect(&mut trace);", "panics without a trace"),
            ("in instructions.iter()", "in instructions.vx_all()", "received requests as the list of them"), ("let mut trace = None;", "let mut trace: Option<ClangTrace> = None;", "type"),
            ("let mut parsed_arg_cache = HashMap::new();", "let mut parsed_arg_cache: VxMap<ParsedActivityArgument> = VxMap::new();", "std map"), ("let mut description_cache = HashMap::new();", "let mut description_cache: VxMap<VxString> = VxMap::new();", "std map"),
            ("callback($a)", "callback.vx_call($a, vx_log)", "callback"), ("reply($a)", "reply(vx_log, $a)", "log of replies")],
        contract=r"""
        requires forall|k: int| 0 <= k < instructions.all().len() ==> sane(#[trigger] instructions.all()[k]), old(vx_log)@.len() == 0,
        ensures exists|s: Seq<Option<Contents>>| #[trigger] history(instructions.all(), s, final(vx_log)@), """,
        start="let ghost q = instructions.all(); let ghost mut s: Seq<Option<Contents>> = seq![None];",
        loops=[dict(kw="for", it="it", inv="""invariant it.seq() == q, s.len() == it.index@ + 1, vx_log@.len() == it.index@, s[0] is None, s.last() == state(trace),
                trace matches Some(t) ==> args_ok(parsed_arg_cache@, load(t)) && descs_ok(description_cache@, load(t), last_max_cols),
                forall|k: int| 0 <= k < it.index@ ==> #[trigger] answer(s[k], q[k], vx_log@[k], s[k + 1]),""",
            start="let ghost log0 = vx_log@; let ghost n = it.index@ as int; let ghost s0 = s; proof { assert(instruction == q[n]); }",
            end="""proof { s = s0.push(state(trace)); assert(vx_log@.len() == n + 1); 
                match vx_log@[n] { Event::Loaded(c, Err(x)) => { assert(loaded_err(c, x) == vx_log@[n]); }, _ => {} }
                assert(answer(s0.last(), q[n], vx_log@[n], state(trace)));
                assert forall|k: int| 0 <= k < n + 1 implies #[trigger] answer(s[k], q[k], vx_log@[k], s[k + 1]) by { if k < n { assert(answer(s0[k], q[k], log0[k], s0[k + 1])); assert(s[k] == s0[k] && s[k + 1] == s0[k + 1] && vx_log@[k] == log0[k]); } } }""",
            after="proof { assert(history(q, s, vx_log@)); }")])

CLIENT = r"""
// ---- the main thread's side: what was asked so far, and whether a reply is awaited ----
#[verifier::external_body] pub struct VxTold {}
impl VxTold { uninterp spec fn asked(&self) -> Seq<Instruction>; uninterp spec fn waiting(&self) -> bool; }
spec fn has_reply(i: Instruction) -> bool { !(i is LoadTrace) }
// an answer to the last of the requests
spec fn answered(i: Seq<Instruction>, e: Event) -> bool { exists|s: Seq<Option<Contents>>, l: Seq<Event>| #[trigger] history(i, s, l) && e == l.last() }
// which replies come through which channel: as the worker sends them
trait VxChannel: VxReply { spec fn carries(i: Instruction) -> bool; }
impl VxChannel for (VxString, bool) { spec fn carries(i: Instruction) -> bool { i is DescribeTrace || i is DescribeActivity } }
impl VxChannel for ActivityInfoList { spec fn carries(i: Instruction) -> bool { i is GetRootActivities || i is GetAllActivities || i is GetDirectChildren || i is GetAllChildren } }
impl VxChannel for ActivityDescList { spec fn carries(i: Instruction) -> bool { i is DescribeActivities } }
impl<A: VxChannel> Receiver<A> {
    #[verifier::external_body] fn vx_recv(&self, told: &mut VxTold) -> (r: Result<A, VxHungUp>)
        requires old(told).waiting(), A::carries(old(told).asked().last()),
        ensures r is Ok, answered(old(told).asked(), r->Ok_0.event()), !final(told).waiting(), final(told).asked() == old(told).asked() { unimplemented!() }
}
impl Sender<Instruction> {
    #[verifier::external_body] fn vx_ask(&self, i: Instruction, told: &mut VxTold) -> (r: Result<(), VxHungUp>)
        requires !old(told).waiting(), sane(i),
        ensures r is Ok, final(told).asked() == old(told).asked().push(i), final(told).waiting() == has_reply(i) { unimplemented!() }
}
#[verifier::external_body] fn vx_path(p: &Path) -> (r: Box<Path>) ensures *r == *p { unimplemented!() }
"""
def client(u):
    u.trust("mpsc channels deliver in order, and the processing thread, which is the only one to receive requests and to send replies, is the worker under contract above: so whoever awaits each reply before asking again receives the answer to what was asked last", CLIENT)
    u.item(P, "struct", "ProcessingThread", rewrites=[("_handle: JoinHandle<()>,", "", "thread handle not modelled"), ("String,", "VxString,", "text")])
    I = "ProcessingThread"
    RW = [("self.request($a)", "self.request(vx_told, $a)", "log of requests"), ("Self::fetch($a)", "Self::fetch(vx_told, $a)", "log of requests"), ("$a.send($b)", "$a.vx_ask($b, vx_told)", "log of requests"), ("$a.recv()", "$a.vx_recv(vx_told)", "log of requests"),
        ("assert!(!wrap, $m);", "{ let vx_b = !wrap; assert(vx_b); }", "runtime assertion becomes an obligation"),
        ("path.as_ref().into()", "vx_path(path)", "conversion"), ("Box::new(callback)", "callback", "callback")]
    R = "ensures !final(vx_told).waiting(), final(vx_told).asked() == old(vx_told).asked().push(%s), answered(final(vx_told).asked(), %s),"
    u.fn(P, "request", impl=I, rewrites=RW, sig="fn request(&self, vx_told: &mut VxTold, instruction: Instruction)",
        contract="requires !old(vx_told).waiting(), sane(instruction), ensures final(vx_told).asked() == old(vx_told).asked().push(instruction), final(vx_told).waiting() == has_reply(instruction),")
    u.fn(P, "fetch", impl=I, rewrites=RW, sig="fn fetch<A: VxChannel>(vx_told: &mut VxTold, receiver: &Receiver<A>) -> (vx_r: A)",
        contract="requires old(vx_told).waiting(), A::carries(old(vx_told).asked().last()), ensures answered(old(vx_told).asked(), vx_r.event()), !final(vx_told).waiting(), final(vx_told).asked() == old(vx_told).asked(),")
    def ask(name, args, ret, instr, event, pre="", **kw):
        u.fn(P, name, impl=I, rewrites=RW, sig=f"fn {name}(&self, vx_told: &mut VxTold{args}) -> (vx_r: {ret})", contract=f"requires !old(vx_told).waiting(), {pre} " + R % (instr, event), **kw)
    ask("describe_trace", ", max_cols: u16", "VxString", "Instruction::DescribeTrace { max_cols }", "Event::Text(vx_r@, false)", "max_cols >= 1,",
        hints=[("before", "{ let vx_b = !wrap;", """proof { let i = vx_told.asked(); let n = i.len() - 1; let e = Event::Text(desc@, wrap);
            let (s, l) = choose|s: Seq<Option<Contents>>, l: Seq<Event>| #[trigger] history(i, s, l) && e == l.last(); assert(answer(s[n], i[n], l[n], s[n + 1])); } """)])
    for n, x, args in [("get_root_activities", "Instruction::GetRootActivities", ""), ("get_all_activities", "Instruction::GetAllActivities", ""), ("get_direct_children", "Instruction::GetDirectChildren(id)", ", id: ActivityTraceId"), ("get_all_children", "Instruction::GetAllChildren(id)", ", id: ActivityTraceId")]:
        ask(n, args, "ActivityInfoList", x, "Event::Acts(listed(vx_r@))")
    ask("describe_activities", ", activities: Box<[ActivityTraceId]>, max_cols: u16", "ActivityDescList", "Instruction::DescribeActivities { activities, max_cols }", "Event::Lines(texts(vx_r@))")
    ask("describe_activity", ", activity: ActivityTraceId, max_cols: u16", "(VxString, bool)", "Instruction::DescribeActivity { activity, max_cols }", "Event::Text(vx_r.0@, vx_r.1)")
    u.fn(P, "start_load_trace", impl=I, rewrites=RW, sig="fn start_load_trace(&mut self, vx_told: &mut VxTold, path: &Path, callback: VxCallback)",
        contract="requires !old(vx_told).waiting(), ensures !final(vx_told).waiting(), exists|p: Box<Path>| *p == *path && final(vx_told).asked() == old(vx_told).asked().push(#[trigger] load_request(p, callback)),",
        start="let ghost told0 = vx_told.asked();", tail="let i = vx_told.asked().last(); assert(load_request(i->LoadTrace_0, callback) == i);")
    u.raw("spec fn load_request(p: Box<Path>, f: VxCallback) -> Instruction { Instruction::LoadTrace(p, f) }")

def make_processing():
    u = base("tui_processing")
    float_model(u)
    assuming(u, "C09", activity)
    describe(u)
    worker(u)
    client(u)
    return u

# ---- C25: profile tables and navigation ----
D = "src/ui/tui/trace/display.rs"
I = "src/ui/tui/init.rs"
TABLES = r"""
pub use core::cmp::Ordering;
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ActivityTraceId { x: u8 }
// a finite duration
#[derive(Clone, Copy)] pub struct VxFinite { pub x: T }
impl VxFinite { fn into_inner(self) -> (r: T) ensures r == self.x { self.x } }
#[verifier::external_body] fn vx_zero() -> (r: VxFinite) { unimplemented!() }
pub uninterp spec fn dur_text(d: T) -> Seq<char>;
pub uninterp spec fn fixed2(x: T) -> Seq<char>;   // with two decimals
pub open spec fn percent(x: T) -> Seq<char> { fixed2(x) + seq!['%'] }
#[verifier::external_body] pub fn vx_fmt_p2(x: &T) -> (r: VxText) ensures r@ == fixed2(*x) { unimplemented!() }
#[verifier::external_body] fn vx_duration(d: T) -> (r: VxString) ensures r@ == dur_text(d) { unimplemented!() }
pub open spec fn ord(a: T, b: T) -> Ordering { if a.r() < b.r() { Ordering::Less } else if a.r() == b.r() { Ordering::Equal } else { Ordering::Greater } }
fn vx_cmp(a: T, b: T) -> (r: Ordering) requires !a.nan() && !b.nan(), ensures r == ord(a, b) { a.partial_cmp(&b).unwrap() }
pub uninterp spec fn text_ord(a: Seq<char>, b: Seq<char>) -> Ordering;
impl VxString {
    #[verifier::external_body] pub fn vx_text_cmp(&self, o: &VxString) -> (r: Ordering) ensures r == text_ord(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn vx_copy(&self) -> (r: VxString) ensures r@ == self@ { unimplemented!() }
}
type ActivityDescList = Box<[VxString]>;
#[verifier::external_body] fn vx_vec<A>(v: Box<[A]>) -> (r: Vec<A>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] fn vx_zip<'a>(a: &'a [ActivityInfo], b: Vec<VxString>) -> (r: Vec<(&'a ActivityInfo, VxString)>) ensures r@.len() == (if a@.len() < b@.len() { a@.len() } else { b@.len() }), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == a@[i] && r@[i].1 == b@[i] { unimplemented!() }
"""
TABLE_SPEC = r"""
// ---- what a profile shows ----
spec fn head(kind: ProfileKind, k: ActivityInfo) -> Seq<char> { match kind { ProfileKind::Flat => Seq::empty(), ProfileKind::Hierarchical => if k.has_children { seq!['+'] } else { seq![' '] } } }
spec fn row_of(kind: ProfileKind, k: ActivityInfo, text: Seq<char>, r: HierarchicalData) -> bool { r.id == k.id && r.duration == k.duration && r.self_duration == k.self_duration && r.description@ == head(kind, k) + text }
spec fn rows_of(kind: ProfileKind, a: Seq<ActivityInfo>, t: Seq<VxString>, r: Seq<HierarchicalData>) -> bool {
    r.len() == a.len() && forall|i: int| 0 <= i < r.len() ==> row_of(kind, a[i], t[i]@, #[trigger] r[i])
}
spec fn measured(r: HierarchicalData, k: DurationKind) -> T { match k { DurationKind::Total => r.duration, DurationKind::Myself => r.self_duration } }
spec fn cell(r: HierarchicalData, c: HierarchicalColumn) -> Seq<char> {
    match c {
        HierarchicalColumn::Duration(k, DurationDisplay::Time) => dur_text(measured(r, k)),
        HierarchicalColumn::Duration(k, DurationDisplay::Percentage(norm, _)) => percent(t_mul(measured(r, k), norm.x)),
        HierarchicalColumn::Description => r.description@,
    }
}
spec fn rank(a: HierarchicalData, b: HierarchicalData, c: HierarchicalColumn) -> Ordering { match c { HierarchicalColumn::Duration(k, _) => ord(measured(a, k), measured(b, k)), HierarchicalColumn::Description => text_ord(a.description@, b.description@) } }
spec fn finite(r: HierarchicalData) -> bool { !r.duration.nan() && !r.self_duration.nan() }
spec fn the_column(n: HierarchicalColumnName, d: DurationDisplay) -> HierarchicalColumn { match n { HierarchicalColumnName::TotalDuration => HierarchicalColumn::Duration(DurationKind::Total, d), HierarchicalColumnName::SelfDuration => HierarchicalColumn::Duration(DurationKind::Myself, d), HierarchicalColumnName::Description => HierarchicalColumn::Description } }
spec fn flat(n: HierarchicalColumnName) -> HierarchicalColumnName { if n is TotalDuration { HierarchicalColumnName::SelfDuration } else { n } }
spec fn index(n: HierarchicalColumnName) -> int { match n { HierarchicalColumnName::TotalDuration => 0, HierarchicalColumnName::SelfDuration => 1, HierarchicalColumnName::Description => 2 } }
// the unit after that
spec fn next(d: DurationDisplay, global: VxFinite, e: DurationDisplay) -> bool {
    match d {
        DurationDisplay::Percentage(_, PercentageReference::Global) => e matches DurationDisplay::Percentage(_, r) && r is Parent,
        DurationDisplay::Percentage(_, PercentageReference::Parent) => e is Time,
        DurationDisplay::Time => e == DurationDisplay::Percentage(global, PercentageReference::Global),
    }
}
// ---- a table: its columns with their widths, titles and orders, and what it is sorted by ----
pub struct Col { pub what: HierarchicalColumn, pub title: Seq<char>, pub width: int, pub first: Ordering }
#[verifier::external_body] struct ProfileView {}
#[verifier::external_body] struct VxColumn {}
impl ProfileView {
    uninterp spec fn cols(&self) -> Seq<Col>;
    uninterp spec fn by(&self) -> (HierarchicalColumn, Ordering);
    uninterp spec fn rows(&self) -> Seq<HierarchicalData>;   // by index, in whatever order they are shown
    uninterp spec fn zooms(&self) -> bool;   // Enter opens the children of an activity
    #[verifier::external_body] fn insert_column(&mut self, i: usize, what: HierarchicalColumn, title: &str, width: usize, first: Ordering) requires i <= old(self).cols().len(),
        ensures kept(*old(self), *final(self)), final(self).cols() == old(self).cols().insert(i as int, Col { what, title: title@, width: width as int, first }) { unimplemented!() }
    #[verifier::external_body] fn sort_by(&mut self, what: HierarchicalColumn, order: Ordering) requires exists|i: int| 0 <= i < old(self).cols().len() && (#[trigger] old(self).cols()[i]).what == what,
        ensures kept(*old(self), *final(self)), final(self).cols() == old(self).cols(), final(self).by() == (what, order) { unimplemented!() }
}
spec fn kept(a: ProfileView, b: ProfileView) -> bool { a.rows() == b.rows() && a.zooms() == b.zooms() }
spec fn title(kind: ProfileKind, d: DurationDisplay) -> Seq<char> {
    match (kind, d) {
        (ProfileKind::Hierarchical, DurationDisplay::Percentage(_, PercentageReference::Global)) => "%Total"@,
        (ProfileKind::Hierarchical, DurationDisplay::Percentage(_, PercentageReference::Parent)) => "%Parent"@,
        (ProfileKind::Hierarchical, DurationDisplay::Time) => "Time"@,
        (ProfileKind::Flat, DurationDisplay::Percentage(_, PercentageReference::Global)) => "Self%Tot"@,
        (ProfileKind::Flat, DurationDisplay::Percentage(_, PercentageReference::Parent)) => "Self%Par"@,
        (ProfileKind::Flat, DurationDisplay::Time) => "SelfTime"@,
    }
}
spec fn columns(kind: ProfileKind, d: DurationDisplay, s: SortConfig) -> Seq<Col> {
    match kind {
        ProfileKind::Hierarchical => seq![Col { what: HierarchicalColumn::Duration(DurationKind::Total, d), title: title(kind, d), width: 11, first: s.order@[0] }, Col { what: HierarchicalColumn::Duration(DurationKind::Myself, d), title: "Self"@, width: 11, first: s.order@[1] }],
        ProfileKind::Flat => seq![Col { what: HierarchicalColumn::Duration(DurationKind::Myself, d), title: title(kind, d), width: 11, first: s.order@[1] }],
    }
}
spec fn key_in(kind: ProfileKind, s: SortConfig) -> HierarchicalColumnName { match kind { ProfileKind::Hierarchical => s.key, ProfileKind::Flat => flat(s.key) } }
"""
def tables(u):

    ATTR = "#[derive(Clone, Copy)]"
    FIN = [("Finite<Duration>", "VxFinite", "finite f64")]
    u.trust("f64 formatting, and comparison of texts, as in std; Box<[T]>, Vec and Arc<str> hold what was put in; zip pairs items at the same place", TABLES)
    u.item(P, "struct", "ActivityInfo")
    for n in ["ProfileKind", "DurationKind", "PercentageReference", "DurationDisplay", "HierarchicalColumn", "HierarchicalColumnName"]: u.item(D, "enum", n, prefix=ATTR, rewrites=FIN)
    u.item(D, "struct", "HierarchicalData", rewrites=[("Box<str>", "VxString", "text")])
    u.item(D, "struct", "SortConfig", prefix=ATTR)
    u.item(D, "struct", "ProfileDisplay", prefix=ATTR)
    u.item(D, "const", "DURATION_WIDTH")
    u.item(D, "const", "HIERARCHICAL_SELF_COLUMN_NAME", rewrites=[("&str", "&'static str", "lifetime")])
    u.trust("cursive_table_view: insert_column puts a column with a title, width and first order at a place, sort_by sorts by a column that is there", TABLE_SPEC)
    N = "HierarchicalColumnName"
    u.fn(D, "name", impl="HierarchicalColumn", ret="r", contract="ensures forall|n: HierarchicalColumnName, d: DurationDisplay| #[trigger] the_column(n, d) == *self ==> r == n,")
    u.fn(D, "into_flat", impl=N, ret="r", contract="ensures r == flat(self),")
    u.fn(D, "into_column", impl=N, ret="r", contract="ensures r == the_column(self, duration_display),")
    for f, k in [("total_column_name", "Hierarchical"), ("flat_self_column_name", "Flat")]:
        u.fn(D, f, ret="r", contract=f"ensures r@ == title(ProfileKind::{k}, duration_display),")
    u.fn(D, "description_column_width", ret="r", contract="ensures r == (if terminal_width < (match profile_kind { ProfileKind::Hierarchical => 31int, ProfileKind::Flat => 16 }) { 0int } else { terminal_width - (match profile_kind { ProfileKind::Hierarchical => 31int, ProfileKind::Flat => 16 }) }),")
    u.fn(D, "make_profile_data", attrs="#[verifier::loop_isolation(false)]", sig="fn make_profile_data(profile_kind: ProfileKind, activity_infos: &[ActivityInfo], activity_descs: ActivityDescList) -> (vx_r: Vec<HierarchicalData>)",
        rewrites=[("$a.iter().zip($b.into_vec()).map(|($i_x, $i_y)| $e).collect()", "{ let mut vx_l: Vec<HierarchicalData> = Vec::new(); for vx_p in vx_zip($a, vx_vec($b)) { let $i_x = vx_p.0; let $i_y = vx_p.1; let vx_d = $e; vx_l.push(vx_d); } vx_l }", "iterator written out as a loop"),
            ("String::new()", "VxString::new()", "text"), ("buf.push_str(&$i_d)", "buf.push_str($i_d.vx_str())", "text"), ("buf.into_boxed_str()", "buf", "text"),
            ("let description_str: &str = &description; description_str.into()", "description.vx_copy()", "text")],
        contract="requires activity_infos@.len() == activity_descs@.len(), ensures rows_of(profile_kind, activity_infos@, activity_descs@, vx_r@),",
        loops=[dict(kw="for", it="it", inv="""invariant vx_l@.len() == it.index@, it.seq().len() == activity_infos@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]).0 == activity_infos@[i] && it.seq()[i].1 == activity_descs@[i],
            forall|i: int| 0 <= i < vx_l@.len() ==> row_of(profile_kind, activity_infos@[i], activity_descs@[i]@, #[trigger] vx_l@[i]),""",
            start="let ghost vx_t = vx_p.1@; proof { assert(*vx_p.0 == activity_infos@[it.index@ as int]); assert(Seq::<char>::empty() + vx_t =~= vx_t); }",
            end="proof { assert(row_of(profile_kind, activity_infos@[it.index@ as int], vx_t, vx_l@.last())); }")],
        hints=[("before", "vx_l.push(vx_d)", "proof { assert(vx_d.description@ =~= head(profile_kind, *activity_info) + vx_t); }")])
    u.fn(D, "to_column", impl="HierarchicalData", trait="TableViewItem", fmt=True, header="impl HierarchicalData", sig="fn to_column(&self, column: HierarchicalColumn) -> (vx_r: VxString)",
        rewrites=[("let format_duration = |$i_d| { $b_x };", "", "duration display (C10)"), ("format_duration($a)", "vx_duration($a)", "duration display (C10)"), ("self.description.clone().into()", "self.description.vx_copy()", "text")],
        contract="ensures vx_r@ == cell(*self, column),", start='proof { reveal_strlit("%"); assert("%"@ =~= seq![\'%\']); }')
    u.fn(D, "cmp", impl="HierarchicalData", trait="TableViewItem", header="impl HierarchicalData", sig="fn vx_cmp_rows(&self, other: &Self, column: HierarchicalColumn) -> (vx_r: Ordering)",
        rewrites=[("let cmp_duration = |d1: Duration, d2: Duration| { d1.partial_cmp(&d2).expect($m) };", "", "comparison without NaN"), ("cmp_duration($a, $b)", "vx_cmp($a, $b)", "comparison without NaN"), ("self.description.cmp(&other.description)", "self.description.vx_text_cmp(&other.description)", "text")],
        contract="requires finite(*self), finite(*other), ensures vx_r == rank(*self, *other, column),")
    u.fn(D, "default", impl="SortConfig", trait="Default", header="impl SortConfig", ret="r", contract="ensures r.order@ == seq![Ordering::Greater, Ordering::Greater, Ordering::Less], r.key is TotalDuration,", tail="assert(vx_ret.order@ =~= seq![Ordering::Greater, Ordering::Greater, Ordering::Less]);")
    u.fn(D, "reset_duration_display", impl="ProfileDisplay", contract="ensures final(self).duration_display is None, final(self).sort_config == old(self).sort_config,")
    u.fn(D, "add_duration_cols_and_sort", rewrites=[("table.insert_column($a, $b, $c, |c| c.width($w).ordering($o), );", "table.insert_column($a, $b, $c, $w, $o);", "column settings as arguments"), (".expect($m)", ".unwrap()", "panic message")],
        contract=r"""requires display_config.duration_display is Some, old(table).cols().len() == 1, old(table).cols()[0].what is Description,
        ensures kept(*old(table), *final(table)), final(table).cols() == columns(kind, display_config.duration_display->Some_0, display_config.sort_config) + old(table).cols(),
            final(table).by() == (the_column(key_in(kind, display_config.sort_config), display_config.duration_display->Some_0), display_config.sort_config.order@[index(key_in(kind, display_config.sort_config))]),""",
        start="let ghost c0 = table.cols();",
        hints=[("before", "table.sort_by(", """proof { let d = display_config.duration_display->Some_0; reveal_strlit("Self"); assert(table.cols() =~= columns(kind, d, display_config.sort_config) + c0);
            let i: int = match kind { ProfileKind::Hierarchical => index(sort_config.key), ProfileKind::Flat => index(sort_config.key) - 1 }; assert(table.cols()[i].what == the_column(sort_config.key, d)); }""")])

# ---- the levels: all tables on the screen, and what the keys do to them ----
T = "src/ui/tui/trace/mod.rs"
LOAD = "src/ui/tui/trace/load.rs"
M = "src/ui/tui/mod.rs"
LEVELS = r"""
#[verifier::external_body] pub struct VxName {}
impl VxName {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn vx_same(&self) -> (r: VxName) ensures r == *self { unimplemented!() }
}
pub uninterp spec fn table_name(k: int) -> Seq<char>;   // prefix and number
#[verifier::external_body] pub proof fn ax_table_names(a: int, b: int) requires a != b, ensures table_name(a) != table_name(b) {}
#[verifier::external_body] pub fn vx_table_name(k: usize) -> (r: VxName) ensures r@ == table_name(k as int) { unimplemented!() }
pub uninterp spec fn fin(x: T) -> bool;
#[verifier::external_body] pub proof fn ax_fin(n: int) ensures fin(t_num(n)) {}
#[verifier::external_body] fn vx_is_finite(x: T) -> (r: bool) ensures r == fin(x) { unimplemented!() }
fn vx_finite(x: T) -> (r: VxFinite) requires fin(x), ensures r.x == x { VxFinite { x } }
// the processing thread, answering as in C24
#[verifier::external_body] pub struct ProcessingThread {}
type ActivityInfoList = Box<[ActivityInfo]>;
pub uninterp spec fn line(p: ProcessingThread, k: ActivityTraceId, cols: u16) -> Seq<char>;
pub uninterp spec fn header(p: ProcessingThread, cols: u16) -> Seq<char>;
uninterp spec fn roots(p: ProcessingThread) -> Seq<ActivityInfo>;
uninterp spec fn total(a: Seq<ActivityInfo>) -> T;   // sum of the durations
#[verifier::external_body] fn vx_total(a: &Box<[ActivityInfo]>) -> (r: T) ensures r == total(a@) { unimplemented!() }
#[verifier::external_body] fn vx_ids(a: &Box<[ActivityInfo]>) -> (r: Box<[ActivityTraceId]>) ensures r@.len() == a@.len(), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == a@[i].id { unimplemented!() }
impl ProcessingThread {
    #[verifier::external_body] fn describe_activities(&self, a: Box<[ActivityTraceId]>, w: u16) -> (r: ActivityDescList) ensures r@.len() == a@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == line(*self, a@[i], w) { unimplemented!() }
    #[verifier::external_body] fn describe_trace(&self, w: u16) -> (r: VxString) ensures r@ == header(*self, w), r@.len() > 0 { unimplemented!() }
    #[verifier::external_body] fn get_root_activities(&self) -> (r: ActivityInfoList) ensures r@ == roots(*self) { unimplemented!() }
}
type ActivityData = (ActivityInfoList, ActivityDescList);
"""
CURSIVE = r"""
spec fn norm_of(total: T) -> T { if fin(t_div(t_num(100), total)) { t_div(t_num(100), total) } else { t_num(0) } }
impl ProfileView {
    #[verifier::external_body] fn remove_column(&mut self, i: usize) requires i < old(self).cols().len(), ensures kept(*old(self), *final(self)), final(self).cols() == old(self).cols().remove(i as int) { unimplemented!() }
}
// the application: its state, the layers from the lowest to the highest with the table that each contains, if any, and the tables
#[verifier::external_body] pub struct TextView {}
#[verifier::external_body] struct Cursive {}
impl Cursive {
    uninterp spec fn state(&self) -> State;
    uninterp spec fn layers(&self) -> Seq<Option<Seq<char>>>;
    uninterp spec fn tables(&self) -> Map<Seq<char>, ProfileView>;
    uninterp spec fn texts(&self) -> Map<Seq<char>, TextView>;   // named texts
    uninterp spec fn footer(&self) -> Seq<char>;   // of the layer added last
    #[verifier::external_body] fn vx_layers(&self) -> (r: usize) ensures r == self.layers().len() { unimplemented!() }
    #[verifier::external_body] fn pop_layer(&mut self) requires old(self).layers().len() > 0,
        ensures final(self).state() == old(self).state(), final(self).layers() == old(self).layers().drop_last(),
            final(self).tables() == match old(self).layers().last() { Some(n) => old(self).tables().remove(n), None => old(self).tables() } { unimplemented!() }
}
#[verifier::external_body] fn vx_state(c: &mut Cursive) -> (r: &mut State) ensures *r == old(c).state(), final(c).state() == *final(r), final(c).layers() == old(c).layers(), final(c).tables() == old(c).tables(), final(c).texts() == old(c).texts(), final(c).footer() == old(c).footer() { unimplemented!() }
#[verifier::external_body] fn vx_table<'a>(c: &'a mut Cursive, n: &VxName) -> (r: &'a mut ProfileView) requires old(c).tables().contains_key(n@),
    ensures *r == old(c).tables()[n@], final(c).tables() == old(c).tables().insert(n@, *final(r)), final(c).state() == old(c).state(), final(c).layers() == old(c).layers(), final(c).texts() == old(c).texts() { unimplemented!() }
#[verifier::external_body] fn vx_stack(s: &Vec<ProfileLayer>) -> (r: Vec<ProfileLayer>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] fn vx_first(s: &Vec<ProfileLayer>, n: usize) -> (r: Vec<ProfileLayer>) ensures r@ == (if n <= s@.len() { s@.subrange(0, n as int) } else { s@ }) { unimplemented!() }

// ---- what the levels show ----
spec fn disp(d: DurationDisplay, l: ProfileLayer) -> DurationDisplay { match d { DurationDisplay::Percentage(_, PercentageReference::Parent) => DurationDisplay::Percentage(l.parent_percent_norm, PercentageReference::Parent), d => d } }
// columns up to the order that they would get if they were chosen for sorting
spec fn looks(t: Seq<Col>, c: Seq<Col>) -> bool { t.len() == c.len() && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).what == c[i].what && t[i].title == c[i].title && t[i].width == c[i].width }
spec fn columns_ok(t: ProfileView, l: ProfileLayer, d: DurationDisplay, s: SortConfig) -> bool { t.cols().len() >= 1 && t.cols().last().what is Description && looks(t.cols().drop_last(), columns(l.kind, disp(d, l), s)) }
spec fn some_columns(t: ProfileView, l: ProfileLayer, s: SortConfig) -> bool { exists|d: DurationDisplay| #[trigger] columns_ok(t, l, d, s) }
spec fn sorted_ok(t: ProfileView, l: ProfileLayer, d: DurationDisplay, s: SortConfig) -> bool { t.by() == (the_column(key_in(l.kind, s), disp(d, l)), s.order@[index(key_in(l.kind, s))]) }
spec fn unit(c: State) -> DurationDisplay { c.display_config.duration_display->Some_0 }
spec fn units_ok(c: State) -> bool { c.display_config.duration_display matches Some(d) ==> c.global_percent_norm is Some && (d matches DurationDisplay::Percentage(n, PercentageReference::Global) ==> n == c.global_percent_norm->Some_0) }
spec fn place_ok(c: Cursive, l: Seq<ProfileLayer>, i: int) -> bool { c.layers()[c.state().layers_below_profile + i] == Some(l[i].table_name@) && l[i].table_name@ == table_name(i) && c.tables().contains_key(table_name(i)) && (i < l.len() - 1 ==> l[i].kind is Hierarchical) }
// profiles lie on top of each other, above the layers of before and below dialogs; all but the highest are hierarchical
spec fn places_ok(c: Cursive) -> bool {
    let l = c.state().profile_stack@;
    &&& (l.len() > 0 ==> c.layers().len() >= c.state().layers_below_profile + l.len())
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] place_ok(c, l, i)
    &&& forall|i: int| 0 <= i < c.layers().len() && (#[trigger] c.layers()[i]) is Some ==> 0 <= i - c.state().layers_below_profile < l.len()
    &&& (l.len() > 0 ==> c.state().display_config.duration_display is Some) && units_ok(c.state())
    &&& c.layers().len() < 0x7fff_ffff && c.state().layers_below_profile < 0x7fff_ffff
}
spec fn level_ok(c: Cursive, l: ProfileLayer) -> bool { let t = c.tables()[l.table_name@]; columns_ok(t, l, unit(c.state()), c.state().display_config.sort_config) && sorted_ok(t, l, unit(c.state()), c.state().display_config.sort_config) }
spec fn levels_ok(c: Cursive) -> bool { places_ok(c) && forall|i: int| 0 <= i < c.state().profile_stack@.len() ==> level_ok(c, #[trigger] c.state().profile_stack@[i]) }
spec fn shows_now(t: ProfileView, l: ProfileLayer, d: DurationDisplay, s: SortConfig) -> bool { t.cols().len() >= 1 && t.cols().last().what is Description && looks(t.cols().drop_last(), columns(l.kind, d, s)) && t.by() == (the_column(key_in(l.kind, s), d), s.order@[index(key_in(l.kind, s))]) }
spec fn same_but_display_and_norm(a: State, b: State) -> bool { b == (State { display_config: b.display_config, global_percent_norm: b.global_percent_norm, ..a }) }
// Esc: nothing if there is nothing below or if it is not allowed, else the highest layer is left, and its profile if it is one
spec fn left(a: Cursive, b: Cursive) -> bool {
    let p = a.state().profile_stack@; let go = a.layers().len() > 1 && !a.state().no_escape;
    &&& b.layers() == if go { a.layers().drop_last() } else { a.layers() }
    &&& b.state() == (State { profile_stack: b.state().profile_stack, ..a.state() })
    &&& b.state().profile_stack@ == if go && a.layers().last() is Some { p.drop_last() } else { p }
}
// what lies below the highest layer keeps its table
proof fn gone(c: Cursive, i: int) requires places_ok(c), 0 <= i < c.state().profile_stack@.len(), c.state().layers_below_profile + i < c.layers().len() - 1,
    ensures c.layers().last() matches Some(n) ==> n != table_name(i) {
    if c.layers().last() is Some { let j = c.layers().len() - 1 - c.state().layers_below_profile; assert(c.layers()[c.layers().len() - 1] is Some); assert(place_ok(c, c.state().profile_stack@, j)); ax_table_names(i, j); }
}
// one more profile; if it is the first its durations are percentages of the whole
spec fn registered(a: State, b: State, l: ProfileLayer) -> bool {
    &&& b.profile_stack@ == a.profile_stack@.push(l) && b == (State { display_config: b.display_config, profile_stack: b.profile_stack, ..a })
    &&& b.display_config.sort_config == a.display_config.sort_config
    &&& b.display_config.duration_display == Some(disp(match a.display_config.duration_display { Some(d) => d, None => DurationDisplay::Percentage(a.global_percent_norm->Some_0, PercentageReference::Global) }, l))
}
uninterp spec fn any_sort() -> SortConfig;
spec fn sortable(t: ProfileView, l: ProfileLayer, d: DurationDisplay) -> bool { l.kind is Hierarchical && t.cols().len() >= 1 && t.cols().last().what is Description && looks(t.cols().drop_last(), columns(l.kind, d, any_sort())) }
spec fn sorted_now(t: ProfileView, o: ProfileView, by: (HierarchicalColumn, Ordering)) -> bool { t.cols() == o.cols() && t.by() == by }
spec fn layer_columns(c: Cursive, l: ProfileLayer) -> bool { columns_ok(c.tables()[l.table_name@], l, unit(c.state()), c.state().display_config.sort_config) }
// the highest table was sorted by this column of its own
spec fn chosen(c: Cursive, w: HierarchicalColumn, o: Ordering) -> bool {
    let l = c.state().profile_stack@.last(); let t = c.tables()[l.table_name@];
    t.by() == (w, o) && exists|n: HierarchicalColumnName| w == #[trigger] the_column(n, disp(unit(c.state()), l)) && (l.kind is Flat ==> !(n is TotalDuration))
}
// only the settings of the display are changed
spec fn same_but_display(a: State, b: State) -> bool { b == (State { display_config: b.display_config, ..a }) }
spec fn names_of(l: Seq<ProfileLayer>, i: int) -> Seq<char> { l[i].table_name@ }
"""
def levels(u):
    LY = [("Arc<str>", "VxName", "shared text"), ("Option<Finite<Duration>>", "Option<VxFinite>", "finite f64"), ("Finite<Duration>", "VxFinite", "finite f64")]
    u.trust("Arc<str> keeps its text; numbered table names differ; the processing thread answers as C24 says; sums of durations are uninterpreted", LEVELS)
    u.item(D, "struct", "ProfileLayer", rewrites=LY)
    u.item(M, "struct", "State", rewrites=LY)
    u.trust("cursive: the state is what was put there, a named table is the one with that name, the highest layer is removed with its table; cursive_table_view: remove_column removes a column", CURSIVE)
    u.fn(T, "percent_norm", ret="r", rewrites=[("Finite<Duration>", "VxFinite", "finite f64"), ("100.0 / $i_d", "vx_num(100) / $i_d", "number"), ("0.0", "vx_num(0)", "number"), ("$i_n.is_finite()", "vx_is_finite($i_n)", "finite"), ("Finite::<Duration>::from_inner($a)", "vx_finite($a)", "panics if not finite")],
        contract="ensures r.x == norm_of(total_duration),", start="proof { ax_fin(0); }")
    ST = [(f"{q}with_state(cursive, |state| $e)", "({ let state = vx_state(cursive); $e })", "closure on the state, in place") for q in ("super::", "")] + [(".expect($m)", ".unwrap()", "panic message")]
    u.fn(D, "is_profiling", ret="r", rewrites=ST, contract="ensures r == (old(cursive).state().profile_stack@.len() > 0), *final(cursive) == *old(cursive) || (final(cursive).state() == old(cursive).state() && final(cursive).layers() == old(cursive).layers() && final(cursive).tables() == old(cursive).tables()),")
    # one more use of each level's table
    EACH = lambda op: [("mut operation: impl FnMut(&ProfileLayer, ViewRef<ProfileView>, DurationDisplay)", "", "operation"), ("cursive.find_name::<ProfileView>(&$a).expect($m)", "vx_table(cursive, &$a)", "named table, panics if there is none"), ("operation($a, $b, $i_d,)", op, "operation"), ("operation($a, $b, $i_d)", op, "operation"),
        ("if let DurationDisplay::Percentage(ref mut norm, PercentageReference::Parent) = &mut duration_display { *norm = $e; }", "if let DurationDisplay::Percentage(_, PercentageReference::Parent) = duration_display { duration_display = DurationDisplay::Percentage($e, PercentageReference::Parent); }", "value replaced instead of written through a reference")]
    EACH_PRE = """requires forall|i: int| 0 <= i < layers@.len() ==> old(cursive).tables().contains_key(#[trigger] names_of(layers@, i)), forall|i: int, j: int| 0 <= i < j < layers@.len() ==> #[trigger] names_of(layers@, i) != #[trigger] names_of(layers@, j),"""
    EACH_POST = """ensures final(cursive).state() == old(cursive).state(), final(cursive).layers() == old(cursive).layers(), final(cursive).tables().dom() == old(cursive).tables().dom(),
            forall|n: Seq<char>| (forall|i: int| 0 <= i < layers@.len() ==> #[trigger] names_of(layers@, i) != n) ==> #[trigger] final(cursive).tables()[n] == old(cursive).tables()[n],"""
    def each(name, sig, op, pre, post, start="", inv="", at=("", "")):
        u.fn(D, "for_each_profile_layer", rename=name, rewrites=EACH(op), sig=sig, attrs="#[verifier::loop_isolation(false)]", start="let ghost d0 = duration_display; let ghost c0 = *cursive; " + start,
            contract=EACH_PRE + " " + pre.replace("@T", "old(cursive).tables()[names_of(layers@, i)]").replace("@L", "layers@[i]").replace("@D", "disp(duration_display, layers@[i])").replace("@I", "0 <= i < layers@.len()") + "\n        " + EACH_POST + " " + post.replace("@T", "final(cursive).tables()[#[trigger] names_of(layers@, i)]").replace("@O", "old(cursive).tables()[names_of(layers@, i)]").replace("@L", "layers@[i]").replace("@D", "disp(duration_display, layers@[i])").replace("@I", "0 <= i < layers@.len()"),
            loops=[dict(kw="for", it="it", inv="""invariant it.seq().len() == layers@.len(), forall|i: int| 0 <= i < layers@.len() ==> *(#[trigger] it.seq()[i]) == layers@[i], cursive.state() == c0.state(), cursive.layers() == c0.layers(), cursive.tables().dom() =~= c0.tables().dom(),
                forall|l: ProfileLayer| #![trigger disp(duration_display, l)] #![trigger disp(d0, l)] disp(duration_display, l) == disp(d0, l),
                forall|n: Seq<char>| (forall|i: int| 0 <= i < it.index@ ==> #[trigger] names_of(layers@, i) != n) ==> #[trigger] cursive.tables()[n] == c0.tables()[n],
                """ + post.replace("@T", "cursive.tables()[#[trigger] names_of(layers@, i)]").replace("@O", "c0.tables()[names_of(layers@, i)]").replace("@L", "layers@[i]").replace("@D", "disp(d0, layers@[i])").replace("@I", "0 <= i < it.index@").replace(*at) + inv,
                start="let ghost k = it.index@ as int; proof { assert(*profile_layer == layers@[k]); assert(names_of(layers@, k) == profile_layer.table_name@); assert forall|i: int| 0 <= i < k implies #[trigger] names_of(layers@, i) != names_of(layers@, k) by {} }")])
    # U
    OP = ("@for_each_profile_layer", "|layer, mut table, table_duration_display|")
    u.fn(D, "switch_duration_unit", closure=("@with_state", "state"), sig="fn vx_next(state: &mut State) -> (vx_r: Option<(DurationDisplay, Vec<ProfileLayer>, SortConfig)>)",
        rewrites=[("Finite::<Duration>::from_inner(0.0)", "{ proof { ax_fin(0); } vx_finite(vx_num(0)) }", "number"), ("$i_a.profile_stack.clone()", "vx_stack(&$i_a.profile_stack)", "copy"), (".expect($m)", ".unwrap()", "panic message")],
        contract="""requires units_ok(*old(state)),
        ensures same_but_display(*old(state), *final(state)), units_ok(*final(state)), final(state).display_config.sort_config == old(state).display_config.sort_config,
            match old(state).display_config.duration_display { None => vx_r is None && *final(state) == *old(state),
                Some(d) => vx_r matches Some((e, l, s)) && next(d, old(state).global_percent_norm->Some_0, e) && final(state).display_config.duration_display == Some(e) && l@ == old(state).profile_stack@ && s == old(state).display_config.sort_config },""")
    u.fn(D, "switch_duration_unit", closure=(OP[0], "layer, mut table, table_duration_display"), sig="fn vx_switch_one(layer: &ProfileLayer, table: &mut ProfileView, table_duration_display: DurationDisplay, sort_config: SortConfig)", rewrites=[("&mut table", "table", "reborrow")],
        contract="""requires some_columns(*old(table), *layer, sort_config),
        ensures final(table).cols().len() >= 1, final(table).cols().last().what is Description, looks(final(table).cols().drop_last(), columns(layer.kind, table_duration_display, sort_config)), final(table).by() == (the_column(key_in(layer.kind, sort_config), table_duration_display), sort_config.order@[index(key_in(layer.kind, sort_config))]),""",
        tail="let c = columns(layer.kind, table_duration_display, sort_config); assert(table.cols().drop_last() =~= c);")
    DONE = "looks(@T.cols().drop_last(), columns(@L.kind, @D, %s))"
    each("vx_switch_each", "fn vx_switch_each(cursive: &mut Cursive, layers: &[ProfileLayer], mut duration_display: DurationDisplay, sort_config: SortConfig)", "vx_switch_one($a, $b, $i_d, sort_config)",
        "forall|i: int| @I ==> some_columns(old(cursive).tables()[#[trigger] names_of(layers@, i)], @L, sort_config),",
        "forall|i: int| @I ==> shows_now(@T, @L, @D, sort_config),")
    SWITCH = "let ghost c0 = *cursive;"
    u.fn(D, "switch_duration_unit", lifted=["@with_state", "@for_each_profile_layer"], rewrites=[("with_state(cursive, vx_lifted)", "vx_next(vx_state(cursive))", "lifted closure"), ("for_each_profile_layer(cursive, &$i_l, $i_d, vx_lifted)", "vx_switch_each(cursive, $i_l.as_slice(), $i_d, sort_config)", "lifted closure with what it captures"), ("for_each_profile_layer(cursive, &$i_l, $i_d, vx_lifted,)", "vx_switch_each(cursive, $i_l.as_slice(), $i_d, sort_config)", "lifted closure with what it captures")],
        contract="""requires levels_ok(*old(cursive)),
        ensures levels_ok(*final(cursive)), same_but_display(old(cursive).state(), final(cursive).state()), final(cursive).state().display_config.sort_config == old(cursive).state().display_config.sort_config, final(cursive).layers() == old(cursive).layers(),
            old(cursive).state().profile_stack@.len() > 0 ==> next(unit(old(cursive).state()), old(cursive).state().global_percent_norm->Some_0, unit(final(cursive).state())),""",
        start=SWITCH, hints=[("before", "vx_switch_each(", """proof { let l = c0.state().profile_stack@; assert(profile_stack@ == l); assert(cursive.tables() == c0.tables());
            assert forall|i: int| 0 <= i < l.len() implies cursive.tables().contains_key(#[trigger] names_of(l, i)) && some_columns(cursive.tables()[names_of(l, i)], l[i], sort_config) by { assert(place_ok(c0, l, i)); assert(level_ok(c0, l[i])); }
            assert forall|i: int, j: int| 0 <= i < j < l.len() implies #[trigger] names_of(l, i) != #[trigger] names_of(l, j) by { assert(place_ok(c0, l, i)); assert(place_ok(c0, l, j)); ax_table_names(i, j); } }""")],
        tail="""let c0 = *old(cursive); let l = c0.state().profile_stack@; assert(cursive.state().profile_stack@ == l);
            assert forall|i: int| 0 <= i < l.len() implies #[trigger] place_ok(*cursive, l, i) by { assert(place_ok(c0, l, i)); }
            assert forall|i: int| 0 <= i < cursive.state().profile_stack@.len() implies level_ok(*cursive, #[trigger] cursive.state().profile_stack@[i]) by { assert(place_ok(c0, l, i)); assert(names_of(l, i) == l[i].table_name@); assert(shows_now(cursive.tables()[names_of(l, i)], l[i], disp(unit(cursive.state()), l[i]), cursive.state().display_config.sort_config)); }""")
    # choosing another order
    ORD = [("$i_s.profile_stack.iter().take($i_n).cloned().collect::<Vec<_>>()", "vx_first(&$i_s.profile_stack, $i_n)", "first elements"), (".expect($m)", ".unwrap()", "panic message")]
    u.fn(D, "sort_other_profiles", closure=("@with_state", "state"), sig="fn vx_sorted(state: &mut State, column_name: HierarchicalColumnName, order: Ordering) -> (vx_r: (Vec<ProfileLayer>, DurationDisplay))", rewrites=ORD,
        contract="""requires old(state).profile_stack@.len() > 0, old(state).display_config.duration_display is Some,
        ensures same_but_display(*old(state), *final(state)), final(state).display_config.duration_display == old(state).display_config.duration_display, vx_r.1 == unit(*old(state)), vx_r.0@ == old(state).profile_stack@.drop_last(),
            final(state).display_config.sort_config.key == column_name, final(state).display_config.sort_config.order@ == old(state).display_config.sort_config.order@.update(index(column_name), order),""")
    u.fn(D, "sort_other_profiles", closure=(OP[0], "layer, mut table, table_duration_display"), sig="fn vx_sort_one(layer: &ProfileLayer, table: &mut ProfileView, table_duration_display: DurationDisplay, column_name: &mut HierarchicalColumnName, order: Ordering)",
        rewrites=[("column_name = column_name.into_flat()", "*column_name = (*column_name).into_flat()", "captured by reference"), ("column_name.into_column($a)", "(*column_name).into_column($a)", "captured by reference")],
        contract="""requires layer.kind is Hierarchical, looks(old(table).cols().drop_last(), columns(layer.kind, table_duration_display, any_sort())), old(table).cols().len() >= 1, old(table).cols().last().what is Description,
        ensures final(table).cols() == old(table).cols(), final(table).by() == (the_column(*old(column_name), table_duration_display), order), *final(column_name) == *old(column_name),""",
        hints=[("before", "table.sort_by(", "proof { let i = index(*column_name); let c = columns(layer.kind, table_duration_display, any_sort()); if i < 2 { assert(table.cols().drop_last()[i] == table.cols()[i]); } assert(table.cols()[i].what == the_column(*column_name, table_duration_display)); }")])
    each("vx_sort_each", "fn vx_sort_each(cursive: &mut Cursive, layers: &[ProfileLayer], mut duration_display: DurationDisplay, mut column_name: HierarchicalColumnName, order: Ordering)", "vx_sort_one($a, $b, $i_d, &mut column_name, order)",
        "forall|i: int| @I ==> sortable(old(cursive).tables()[#[trigger] names_of(layers@, i)], @L, @D),",
        "forall|i: int| @I ==> sorted_now(@T, @O, (the_column(column_name, @D), order)),",
        start="let ghost n0 = column_name;", inv=" column_name == n0,", at=("the_column(column_name", "the_column(n0"))
    u.fn(D, "sort_other_profiles", lifted=["@with_state", "@for_each_profile_layer"], rewrites=[("with_state(cursive, vx_lifted)", "vx_sorted(vx_state(cursive), column_name, order)", "lifted closure with what it captures"),
            ("for_each_profile_layer(cursive, &$i_l, $i_d, vx_lifted)", "vx_sort_each(cursive, $i_l.as_slice(), $i_d, column_name, order)", "lifted closure with what it captures"), ("for_each_profile_layer(cursive, &$i_l, $i_d, vx_lifted,)", "vx_sort_each(cursive, $i_l.as_slice(), $i_d, column_name, order)", "lifted closure with what it captures")],
        contract="""requires places_ok(*old(cursive)), old(cursive).state().profile_stack@.len() > 0,
            forall|i: int| 0 <= i < old(cursive).state().profile_stack@.len() ==> layer_columns(*old(cursive), #[trigger] old(cursive).state().profile_stack@[i]),
            chosen(*old(cursive), column, order),
        ensures levels_ok(*final(cursive)), same_but_display(old(cursive).state(), final(cursive).state()), final(cursive).layers() == old(cursive).layers(), unit(final(cursive).state()) == unit(old(cursive).state()),
            exists|n: HierarchicalColumnName, d: DurationDisplay| column == #[trigger] the_column(n, d) && final(cursive).state().display_config.sort_config.key == n && final(cursive).state().display_config.sort_config.order@ == old(cursive).state().display_config.sort_config.order@.update(index(n), order),""",
        start=SWITCH, hints=[("before", "vx_sort_each(", """proof { let s = c0.state().profile_stack@; let l = past_views@; let d = unit(c0.state()); assert(cursive.tables() == c0.tables()); assert(cursive.state().profile_stack@ == s);
            assert forall|i: int| 0 <= i < l.len() implies cursive.tables().contains_key(#[trigger] names_of(l, i)) && sortable(cursive.tables()[names_of(l, i)], l[i], disp(d, l[i])) by { assert(place_ok(c0, s, i)); assert(s[i] == l[i]); assert(layer_columns(c0, s[i])); }
            assert forall|i: int, j: int| 0 <= i < j < l.len() implies #[trigger] names_of(l, i) != #[trigger] names_of(l, j) by { assert(place_ok(c0, s, i)); assert(place_ok(c0, s, j)); ax_table_names(i, j); } }""")],
        tail="""let c0 = *old(cursive); let s = c0.state().profile_stack@; let l = s.drop_last(); let c = *cursive; assert(c.state().profile_stack@ == s); let k = s.len() - 1; assert(place_ok(c0, s, k)); let sc = c.state().display_config.sort_config; let d = unit(c0.state());
            assert forall|i: int| 0 <= i < l.len() implies #[trigger] names_of(l, i) != s[k].table_name@ by { assert(place_ok(c0, s, i)); ax_table_names(i, k); }
            assert forall|i: int| 0 <= i < s.len() implies #[trigger] place_ok(c, s, i) by { assert(place_ok(c0, s, i)); }
            assert forall|i: int| 0 <= i < s.len() implies level_ok(c, #[trigger] c.state().profile_stack@[i]) by { assert(place_ok(c0, s, i)); assert(layer_columns(c0, s[i]));
                if i < k { assert(s[i] == l[i]); assert(names_of(l, i) == s[i].table_name@); let o = c0.tables()[names_of(l, i)]; let t = c.tables()[names_of(l, i)]; assert(exists|b: (HierarchicalColumn, Ordering)| #[trigger] sorted_now(t, o, b)); assert(t.cols() == o.cols()); assert(columns_ok(t, s[i], d, sc)); assert(sorted_ok(t, s[i], d, sc)); }
                else { let t = c.tables()[s[k].table_name@]; assert(t == c0.tables()[s[k].table_name@]); assert(columns_ok(t, s[k], d, sc)); assert(sorted_ok(t, s[k], d, sc)); } }""")
    # Esc
    u.fn(I, "exit_current_layer", closure=("@with_state", "state"), sig="fn vx_escape(state: &mut State, num_layers: usize) -> (vx_r: bool)",
        contract="""requires old(state).profile_stack@.len() < 0x7fff_ffff, old(state).layers_below_profile < 0x7fff_ffff,
        ensures vx_r == !old(state).no_escape, *final(state) == (State { profile_stack: final(state).profile_stack, ..*old(state) }),
            final(state).profile_stack@ == if vx_r && num_layers == old(state).profile_stack@.len() + old(state).layers_below_profile && old(state).profile_stack@.len() > 0 { old(state).profile_stack@.drop_last() } else { old(state).profile_stack@ },""")
    u.fn(I, "exit_current_layer", lifted=["@with_state"], rewrites=[("super::with_state(cursive, vx_lifted)", "vx_escape(vx_state(cursive), num_layers)", "lifted closure with what it captures"), ("cursive.screen().len()", "cursive.vx_layers()", "number of layers")],
        contract="""requires levels_ok(*old(cursive)),
        ensures levels_ok(*final(cursive)), left(*old(cursive), *final(cursive)),""",
        start=SWITCH, tail="""let c0 = *old(cursive); let c = *cursive; let l = c.state().profile_stack@; let l0 = c0.state().profile_stack@;
            if l0.len() > 0 { assert(place_ok(c0, l0, l0.len() - 1)); } if c0.layers().len() > 0 { let n = c0.layers().len() - 1; assert(c0.layers().last() == c0.layers()[n]); if c0.layers()[n] is Some { assert(0 <= n - c0.state().layers_below_profile < l0.len()); } }
            assert forall|i: int| 0 <= i < l.len() implies #[trigger] place_ok(c, l, i) by { assert(place_ok(c0, l0, i)); if c.layers().len() < c0.layers().len() { gone(c0, i); } }
            assert forall|i: int| 0 <= i < l.len() implies level_ok(c, #[trigger] c.state().profile_stack@[i]) by { assert(place_ok(c0, l0, i)); assert(level_ok(c0, l0[i])); if c.layers().len() < c0.layers().len() { gone(c0, i); } }""")
    # B
    u.fn(I, "backtrace_dialog", closure=("@set_on_submit", "cursive, idx"), sig="fn vx_back_to(cursive: &mut Cursive, idx: usize, layers_below_profile: usize)", attrs="#[verifier::loop_isolation(false)]",
        rewrites=[("let screen = cursive.screen_mut();", "", "layers of the application"), ("screen.len()", "cursive.vx_layers()", "number of layers"), ("screen.pop_layer()", "cursive.pop_layer()", "layers of the application")] + ST,
        contract="""requires levels_ok(*old(cursive)), layers_below_profile == old(cursive).state().layers_below_profile, idx < old(cursive).state().profile_stack@.len(),
        ensures levels_ok(*final(cursive)), final(cursive).state() == (State { profile_stack: final(cursive).state().profile_stack, ..old(cursive).state() }), final(cursive).state().profile_stack@ == old(cursive).state().profile_stack@.take(idx + 1),
            final(cursive).layers() == old(cursive).layers().take(layers_below_profile + idx + 1),""",
        start="let ghost c0 = *cursive; let ghost l0 = cursive.state().profile_stack@;",
        loops=[dict(kw="while", inv="""invariant cursive.state() == c0.state(), layers_below_profile + idx + 1 <= cursive.layers().len() <= c0.layers().len(), cursive.layers() == c0.layers().take(cursive.layers().len() as int),
                forall|i: int| 0 <= i <= idx ==> cursive.tables().contains_key(#[trigger] table_name(i)) && cursive.tables()[table_name(i)] == c0.tables()[table_name(i)],
            decreases cursive.layers().len(),""", start="let ghost c1 = *cursive;",
            end="""proof { let n = c1.layers().len() - 1; assert(c1.layers().last() == c0.layers()[n]); let j = n - layers_below_profile;
                if c0.layers()[n] is Some { assert(place_ok(c0, l0, j)); assert(c0.layers()[n] == Some(table_name(j))); assert forall|i: int| 0 <= i <= idx implies #[trigger] table_name(i) != table_name(j) by { ax_table_names(i, j); } }
                assert(cursive.layers() =~= c0.layers().take(n)); }""",
            before="proof { assert forall|i: int| 0 <= i <= idx implies cursive.tables().contains_key(#[trigger] table_name(i)) by { assert(place_ok(c0, l0, i)); } assert(cursive.layers() =~= c0.layers().take(cursive.layers().len() as int)); }")],
        tail="""let c0 = *old(cursive); let c = *cursive; let l = c.state().profile_stack@; let l0 = c0.state().profile_stack@; assert(l =~= l0.take(idx + 1));
            assert forall|i: int| 0 <= i < l.len() implies #[trigger] place_ok(c, l, i) by { assert(place_ok(c0, l0, i)); }
            assert forall|i: int| 0 <= i < l.len() implies level_ok(c, #[trigger] c.state().profile_stack@[i]) by { assert(place_ok(c0, l0, i)); assert(level_ok(c0, l0[i])); assert(c.tables()[table_name(i)] == c0.tables()[table_name(i)]); }""")
    # a new level
    u.fn(D, "register_profile", closure=("@with_state", "state"), sig="fn vx_registered(state: &mut State, terminal_width: u16, parent_name: VxName, parent_percent_norm: VxFinite, kind: ProfileKind, activity_infos: ActivityInfoList, description_width: u16) -> (vx_r: (ProfileDisplay, ActivityData, VxString, usize, VxName))",
        rewrites=[("let $i_d = $i_s.display_config.duration_display.get_or_insert_with(|| { $b_x });", "if $i_s.display_config.duration_display.is_none() { let vx_d = { $b_x }; $i_s.display_config.duration_display = Some(vx_d); }", "value put where there is none, written out"),
            ("if let DurationDisplay::Percentage(ref mut norm, PercentageReference::Parent) = duration_display { *norm = $e; }", "if let Some(DurationDisplay::Percentage(_, PercentageReference::Parent)) = state.display_config.duration_display { state.display_config.duration_display = Some(DurationDisplay::Percentage($e, PercentageReference::Parent)); }", "value replaced instead of written through a reference"),
            ("$i_a.iter().map(|info| info.id).collect()", "vx_ids(&$i_a)", "ids in order"), ("let $i_t: Arc<str> = format!($m, ActivityTablePrefix.as_ref()).into();", "let $i_t = vx_table_name(profile_id);", "numbered name"), (".clone()", ".vx_same()", "shared text"), (".expect($m)", ".unwrap()", "panic message")],
        contract="""requires units_ok(*old(state)), old(state).global_percent_norm is Some, old(state).profile_stack@.len() < 0x7fff_ffff,
        ensures units_ok(*final(state)), registered(*old(state), *final(state), ProfileLayer { parent_name, table_name: vx_r.4, parent_percent_norm, kind }), vx_r.4@ == table_name(old(state).profile_stack@.len() as int), vx_r.3 == old(state).profile_stack@.len(),
            vx_r.0 == final(state).display_config, vx_r.1.0 == activity_infos, vx_r.2@ == header(old(state).processing_thread, terminal_width), vx_r.2@.len() > 0, vx_r.1.1@.len() == activity_infos@.len(),
            forall|i: int| 0 <= i < activity_infos@.len() ==> (#[trigger] vx_r.1.1@[i])@ == line(old(state).processing_thread, activity_infos@[i].id, description_width),""")
    u.raw(r"""
spec fn opened(a: Cursive, b: Cursive, l: ProfileLayer, t: ProfileView) -> bool { registered(a.state(), b.state(), l) && b.layers() == a.layers().push(Some(l.table_name@)) && b.tables() == a.tables().insert(l.table_name@, t) }
// a profile opened on top of the others, with the table that add_duration_cols_and_sort makes, shows what it should, and leaves the others as they were
proof fn lemma_opened(a: Cursive, b: Cursive, l: ProfileLayer, t: ProfileView, c: Col)
    requires levels_ok(a), opened(a, b, l, t), units_ok(b.state()), l.table_name@ == table_name(a.state().profile_stack@.len() as int), a.layers().len() == a.state().layers_below_profile + a.state().profile_stack@.len(), a.layers().len() < 0x7fff_fffe,
        a.state().profile_stack@.len() > 0 ==> a.state().profile_stack@.last().kind is Hierarchical,
        c.what is Description, t.cols() == columns(l.kind, unit(b.state()), b.state().display_config.sort_config) + seq![c],
        t.by() == (the_column(key_in(l.kind, b.state().display_config.sort_config), unit(b.state())), b.state().display_config.sort_config.order@[index(key_in(l.kind, b.state().display_config.sort_config))]),
    ensures levels_ok(b),
{
    let p = a.state().profile_stack@; let q = b.state().profile_stack@; let n = p.len() as int; let d = unit(b.state()); let s = b.state().display_config.sort_config;
    assert(q == p.push(l)); assert(t.cols().drop_last() =~= columns(l.kind, d, s)); assert(disp(d, l) == d);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] place_ok(b, q, i) by { if i < n { assert(place_ok(a, p, i)); } }
    assert forall|i: int| 0 <= i < q.len() implies level_ok(b, #[trigger] b.state().profile_stack@[i]) by {
        if i < n { assert(place_ok(a, p, i)); ax_table_names(i, n); assert(level_ok(a, p[i])); assert(disp(d, p[i]) == disp(unit(a.state()), p[i])); }
    }
}
""")
    # a trace that was loaded
    u.fn(LOAD, "show_loader", closure=("@with_state#1", "state"), sig="fn vx_loaded(state: &mut State) -> (vx_r: (ActivityInfoList, VxFinite))",
        rewrites=[("$i_a.iter().map(|$i_x| $i_x.duration).sum::<Duration>()", "vx_total(&$i_a)", "sum of the durations"), ("super::percent_norm($a)", "percent_norm($a)", "path")],
        contract="""ensures vx_r.0@ == roots(old(state).processing_thread), vx_r.1.x == norm_of(total(vx_r.0@)), final(state).global_percent_norm == Some(vx_r.1), same_but_display_and_norm(*old(state), *final(state)), units_ok(*final(state)),
            final(state).display_config.duration_display is None, final(state).display_config.sort_config == old(state).display_config.sort_config,""")
    return u

# ---- opening profiles: Enter on an activity, F, a trace that was loaded ----
OPENING = r"""
pub uninterp spec fn text_name(k: int) -> Seq<char>;   // prefix and number
#[verifier::external_body] pub fn vx_text_name(k: usize) -> (r: VxName) ensures r@ == text_name(k as int) { unimplemented!() }
pub uninterp spec fn terminal() -> (u16, u16);   // columns and lines, which do not change while a key is handled
#[verifier::external_body] fn vx_terminal() -> (r: (u16, u16)) ensures r == terminal() { unimplemented!() }
impl TextView {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn wraps(&self) -> bool;
    #[verifier::external_body] fn set_content(&mut self, t: VxString) ensures final(self).text() == t@, final(self).wraps() == old(self).wraps() { unimplemented!() }
    #[verifier::external_body] fn set_content_wrap(&mut self, w: bool) ensures final(self).text() == old(self).text(), final(self).wraps() == w { unimplemented!() }
}
impl VxString {
    #[verifier::external_body] fn vx_strip(&self, c: char) -> (r: Option<VxString>) ensures r is Some <==> (self@.len() > 0 && self@[0] == c), r matches Some(t) ==> t@ == self@.skip(1) { unimplemented!() }
    #[verifier::external_body] fn vx_name(self) -> (r: VxName) ensures r@ == self@ { unimplemented!() }
}
fn vx_assert(b: bool) requires b {}
// the processing thread (C24)
uninterp spec fn children(p: ProcessingThread, k: ActivityTraceId) -> Seq<ActivityInfo>;
uninterp spec fn below(p: ProcessingThread, k: ActivityTraceId) -> Seq<ActivityInfo>;
pub uninterp spec fn detail(p: ProcessingThread, k: ActivityTraceId, cols: u16) -> (Seq<char>, bool);
spec fn told(p: ProcessingThread, a: Seq<ActivityInfo>) -> bool { forall|i: int| 0 <= i < a.len() && (#[trigger] a[i]).has_children ==> children(p, a[i].id).len() > 0 }
impl ProcessingThread {
    #[verifier::external_body] fn get_direct_children(&self, k: ActivityTraceId) -> (r: ActivityInfoList) ensures r@ == children(*self, k), told(*self, r@) { unimplemented!() }
    #[verifier::external_body] fn describe_activity(&self, k: ActivityTraceId, w: u16) -> (r: (VxString, bool)) ensures (r.0@, r.1) == detail(*self, k, w) { unimplemented!() }
}
#[verifier::external_body] fn vx_is_empty(a: &Box<[ActivityInfo]>) -> (r: bool) ensures r == (a@.len() == 0) { unimplemented!() }
// what F shows instead: a list, or all activities below one
#[verifier::external_body] struct VxOther {}
impl VxOther {
    uninterp spec fn list(&self, p: ProcessingThread) -> Seq<ActivityInfo>;
    #[verifier::external_body] fn vx_kept(a: ActivityInfoList) -> (r: VxOther) ensures forall|p: ProcessingThread| #[trigger] r.list(p) == a@ { unimplemented!() }
    #[verifier::external_body] fn vx_below(k: ActivityTraceId) -> (r: VxOther) ensures forall|p: ProcessingThread| #[trigger] r.list(p) == below(p, k) { unimplemented!() }
    #[verifier::external_body] fn vx_get(self, s: &mut State) -> (r: ActivityInfoList) ensures r@ == self.list(old(s).processing_thread), *final(s) == *old(s) { unimplemented!() }
}
impl ProfileView {
    uninterp spec fn chosen(&self) -> Option<int>;   // row that is selected, by its index
    #[verifier::external_body] fn vx_new(items: Vec<HierarchicalData>, what: HierarchicalColumn, title: &str, width: usize, first: Ordering) -> (r: ProfileView) ensures r.rows() == items@, r.cols() == seq![Col { what, title: title@, width: width as int, first }], !r.zooms() { unimplemented!() }
    #[verifier::external_body] fn set_selected_row(&mut self, i: usize) ensures kept(*old(self), *final(self)), final(self).cols() == old(self).cols(), final(self).by() == old(self).by() { unimplemented!() }
    #[verifier::external_body] fn vx_on_submit(&mut self) ensures final(self).zooms(), final(self).rows() == old(self).rows(), final(self).chosen() == old(self).chosen(), final(self).cols() == old(self).cols(), final(self).by() == old(self).by() { unimplemented!() }
    #[verifier::external_body] fn item(&self) -> (r: Option<usize>) ensures r is Some <==> self.chosen() is Some, r matches Some(i) ==> self.chosen() == Some(i as int) && i < self.rows().len() { unimplemented!() }
    #[verifier::external_body] fn borrow_item(&self, i: usize) -> (r: Option<&HierarchicalData>) ensures r is Some <==> i < self.rows().len(), r matches Some(x) ==> *x == self.rows()[i as int] { unimplemented!() }
}
// views on their way to the screen
struct VxNamed { name: VxName, table: ProfileView }
fn vx_with_name(table: ProfileView, name: &VxName) -> (r: VxNamed) ensures r.name == *name, r.table == table { VxNamed { name: name.vx_same(), table } }
struct VxPane { name: VxName }
struct VxFooter { text: VxString }
pub uninterp spec fn last_line(t: Seq<char>) -> Seq<char>;
#[verifier::external_body] fn vx_last_line(t: &VxString) -> (r: Option<VxString>) ensures r is Some <==> t@.len() > 0, r matches Some(l) ==> l@ == last_line(t@) { unimplemented!() }
#[verifier::external_body] fn vx_cols(t: &VxString) -> (r: usize) ensures r == width(t@), r <= isize::MAX { unimplemented!() }
impl Cursive {
    #[verifier::external_body] fn vx_add_layer(&mut self, t: VxNamed, d: VxPane, f: VxFooter) ensures final(self).state() == old(self).state(), final(self).layers() == old(self).layers().push(Some(t.name@)), final(self).tables() == old(self).tables().insert(t.name@, t.table),
        final(self).texts().dom() == old(self).texts().dom().insert(d.name@), final(self).footer() == f.text@ { unimplemented!() }
}
#[verifier::external_body] fn vx_text<'a>(c: &'a mut Cursive, n: &VxName) -> (r: &'a mut TextView) requires old(c).texts().contains_key(n@),
    ensures *r == old(c).texts()[n@], final(c).texts() == old(c).texts().insert(n@, *final(r)), final(c).footer() == old(c).footer(), final(c).state() == old(c).state(), final(c).layers() == old(c).layers(), final(c).tables() == old(c).tables() { unimplemented!() }
"""
OPENING_SPEC = r"""
spec fn desc_width(kind: ProfileKind, cols: u16) -> u16 { let w = match kind { ProfileKind::Hierarchical => 31int, ProfileKind::Flat => 16 }; if cols < w { 0u16 } else { (cols - w) as u16 } }
// the rows are these activities, described in the columns that there are, and Enter opens them in a hierarchical profile
spec fn filled(p: ProcessingThread, t: ProfileView, kind: ProfileKind, a: Seq<ActivityInfo>) -> bool {
    t.rows().len() == a.len() && t.zooms() == (kind is Hierarchical) && forall|i: int| 0 <= i < a.len() ==> row_of(kind, a[i], line(p, a[i].id, desc_width(kind, terminal().0)), #[trigger] t.rows()[i])
}
// as add_duration_cols_and_sort makes them
spec fn fresh(t: ProfileView, kind: ProfileKind, d: ProfileDisplay, cols: u16) -> bool {
    &&& t.cols() == columns(kind, d.duration_display->Some_0, d.sort_config) + seq![Col { what: HierarchicalColumn::Description, title: "Activity"@, width: desc_width(kind, cols) as int, first: d.sort_config.order@[2] }]
    &&& t.by() == (the_column(key_in(kind, d.sort_config), d.duration_display->Some_0), d.sort_config.order@[index(key_in(kind, d.sort_config))])
}
spec fn described(c: Cursive, n: Seq<char>, k: ActivityTraceId) -> bool { c.texts().contains_key(n) && (c.texts()[n].text(), c.texts()[n].wraps()) == detail(c.state().processing_thread, k, terminal().0) }
// the header, and where to find help, on the same line if there is room
spec fn helped(t: Seq<char>, cols: u16) -> Seq<char> { t + (if width(last_line(t)) + 1 + width("Press H for help."@) <= cols { seq![' '] } else { seq!['\n'] }) + "Press H for help."@ }
// the highest layer is the highest profile
spec fn on_top(c: Cursive) -> bool { c.layers().len() == c.state().layers_below_profile + c.state().profile_stack@.len() }
// one more profile, of these activities, on top of the others, with the selected activity described below it
spec fn shown_on(a: Cursive, b: Cursive, l: ProfileLayer, t: ProfileView, infos: Seq<ActivityInfo>) -> bool {
    &&& b.footer() == helped(header(a.state().processing_thread, terminal().0), terminal().0) && opened(a, b, l, t) && filled(a.state().processing_thread, t, l.kind, infos) && fresh(t, l.kind, b.state().display_config, terminal().0)
    &&& (t.chosen() matches Some(i) ==> 0 <= i < infos.len() && described(b, text_name(a.state().profile_stack@.len() as int), infos[i].id))
}
spec fn with(l: ProfileLayer, name: Seq<char>, norm: VxFinite, kind: ProfileKind) -> bool { l.parent_name@ == name && l.parent_percent_norm == norm && l.kind == kind }
spec fn shows(a: Cursive, b: Cursive, name: Seq<char>, norm: VxFinite, kind: ProfileKind, infos: Seq<ActivityInfo>) -> bool { exists|l: ProfileLayer, t: ProfileView| with(l, name, norm, kind) && #[trigger] shown_on(a, b, l, t, infos) }
// without its highest profile
spec fn popped(a: Cursive, m: Cursive) -> bool {
    &&& m.state() == (State { profile_stack: m.state().profile_stack, ..a.state() }) && m.state().profile_stack@ == a.state().profile_stack@.drop_last()
    &&& m.layers() == a.layers().drop_last() && m.tables() == a.tables().remove(a.state().profile_stack@.last().table_name@)
}
// in its place, the same activity in the other kind of profile
spec fn replaced(a: Cursive, b: Cursive, infos: Seq<ActivityInfo>, kind: ProfileKind) -> bool { exists|m: Cursive| popped(a, m) && #[trigger] shows(m, b, a.state().profile_stack@.last().parent_name@, a.state().profile_stack@.last().parent_percent_norm, kind, infos) }
spec fn expands(r: HierarchicalData) -> bool { r.description@.len() > 0 && r.description@[0] == '+' }
spec fn same_screen(a: Cursive, b: Cursive) -> bool { a.state() == b.state() && a.layers() == b.layers() && a.tables() =~= b.tables() }
proof fn lemma_same(a: Cursive, b: Cursive) requires levels_ok(a), same_screen(a, b), ensures levels_ok(b), {
    let l = a.state().profile_stack@;
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] place_ok(b, l, i) by { assert(place_ok(a, l, i)); }
    assert forall|i: int| 0 <= i < l.len() implies level_ok(b, #[trigger] b.state().profile_stack@[i]) by { assert(place_ok(a, l, i)); assert(level_ok(a, l[i])); }
}
// every activity marked with + can be opened
proof fn lemma_marked(p: ProcessingThread, t: ProfileView, a: Seq<ActivityInfo>, i: int) requires filled(p, t, ProfileKind::Hierarchical, a), told(p, a), 0 <= i < t.rows().len(), expands(t.rows()[i]),
    ensures children(p, t.rows()[i].id).len() > 0, t.rows()[i].description@.skip(1) == line(p, a[i].id, desc_width(ProfileKind::Hierarchical, terminal().0)) {
    let w = line(p, a[i].id, desc_width(ProfileKind::Hierarchical, terminal().0)); assert(row_of(ProfileKind::Hierarchical, a[i], w, t.rows()[i])); assert(t.rows()[i].description@[0] == head(ProfileKind::Hierarchical, a[i])[0]); assert(a[i].has_children); assert(t.rows()[i].description@.skip(1) =~= w);
}
"""
def opening(u):
    u.trust("termion: the size of the terminal; cursive: a layer is added on top with the table and text that it contains; cursive_table_view: items keep their index, the selected one is in the table; the processing thread answers as C24 says (an activity with children has some); a closure kept for F gives what it captured or asks for", OPENING)
    u.raw(OPENING_SPEC)
    CALL = [(".expect($m)", ".unwrap()", "panic message")]
    ST = [("with_state(cursive, |state| $e)", "({ let state = vx_state(cursive); $e })", "closure on the state, in place")] + CALL
    # the description pane
    u.fn(D, "make_description_view", closure=("update_desc", "cursive: &mut Cursive, activity: ActivityTraceId"), sig="fn vx_update_desc(cursive: &mut Cursive, activity: ActivityTraceId, name: &VxName, terminal_width: u16)",
        rewrites=[("cursive.call_on_name(&name, |view: &mut TextView| $e).expect($m)", "({ let view = vx_text(cursive, name); $e })", "named text, panics if there is none")] + ST,
        contract="""requires old(cursive).texts().contains_key(name@),
        ensures final(cursive).footer() == old(cursive).footer(), final(cursive).state() == old(cursive).state(), final(cursive).layers() == old(cursive).layers(), final(cursive).tables() == old(cursive).tables(), terminal_width == terminal().0 ==> described(*final(cursive), name@, activity),""")
    u.raw("""struct VxUpdate { name: VxName, width: u16 }
impl VxUpdate {
    fn vx_same(&self) -> (r: VxUpdate) ensures r == *self { VxUpdate { name: self.name.vx_same(), width: self.width } }
    fn vx_call(&self, cursive: &mut Cursive, k: ActivityTraceId) requires old(cursive).texts().contains_key(self.name@), self.width == terminal().0,
        ensures final(cursive).footer() == old(cursive).footer(), final(cursive).state() == old(cursive).state(), final(cursive).layers() == old(cursive).layers(), final(cursive).tables() == old(cursive).tables(), described(*final(cursive), self.name@, k) { vx_update_desc(cursive, k, &self.name, self.width) }
}""")
    u.fn(D, "make_description_view", lifted=["update_desc"], sig="fn make_description_view(cursive: &Cursive, terminal_width: u16, profile_id: usize) -> (vx_r: (VxPane, VxUpdate))",
        rewrites=[("let name = format!($m, ActivityDescPrefix.as_ref());", "let name = vx_text_name(profile_id);", "numbered name"), ("let mut $i_t = cursive.current_theme().clone();", "", "colours"), ("$a.palette[Primary] = $b;", "", "colours"), ("let separator = TextView::new($a).no_wrap();", "", "separator"),
            ("let description = TextView::new($a).no_wrap().with_name(&name).scrollable().scroll_x(true);", "let description = VxPane { name: name.vx_same() };", "named text"), ("let view = ThemedView::new($a, $b,);", "let view = description;", "view around it"), ("let view = ThemedView::new($a, $b);", "let view = description;", "view around it"), ("(view, update_desc)", "(view, VxUpdate { name, width: terminal_width })", "lifted closure with what it captures")],
        contract="ensures vx_r.0.name@ == text_name(profile_id as int), vx_r.1.name@ == vx_r.0.name@, vx_r.1.width == terminal_width,")
    u.fn(D, "select", sig="fn vx_select(cursive: &mut Cursive, table_name: VxName, update_desc: VxUpdate, index: usize)",
        rewrites=[("move |cursive, _row, index| { $b_x }", "{ $b_x }", "the closure that it returns, as a function of its parameters"), ("cursive.call_on_name(&table_name, |view: &mut ProfileView| $e).expect($m)", "({ let view = vx_table(cursive, &table_name); $e })", "named table, panics if there is none"), ("update_desc(cursive, $a)", "update_desc.vx_call(cursive, $a)", "lifted closure")] + CALL,
        contract="""requires old(cursive).tables().contains_key(table_name@), index < old(cursive).tables()[table_name@].rows().len(), old(cursive).texts().contains_key(update_desc.name@), update_desc.width == terminal().0,
        ensures final(cursive).state() == old(cursive).state(), final(cursive).layers() == old(cursive).layers(), final(cursive).tables() =~= old(cursive).tables(), described(*final(cursive), update_desc.name@, old(cursive).tables()[table_name@].rows()[index as int].id),""")
    # F
    u.fn(D, "make_profile_view", closure=("@on_event", "cursive"), sig="fn vx_other_kind(cursive: &mut Cursive, kind: ProfileKind, activity_infos: ActivityInfoList, get_other_activities: VxOther)",
        rewrites=[("once_state.lock().expect($m).take().expect($n)", "(activity_infos, get_other_activities)", "taken once"), ("get_other_activities(state)", "get_other_activities.vx_get(state)", "callback"), ("Box::new(|_state| old_activity_infos)", "VxOther::vx_kept(old_activity_infos)", "callback")] + ST,
        contract="""requires levels_ok(*old(cursive)), on_top(*old(cursive)), old(cursive).state().profile_stack@.len() > 0, old(cursive).state().profile_stack@.last().kind == kind,
        ensures levels_ok(*final(cursive)), replaced(*old(cursive), *final(cursive), get_other_activities.list(old(cursive).state().processing_thread), if kind is Flat { ProfileKind::Hierarchical } else { ProfileKind::Flat }),""",
        start="let ghost c0 = *cursive; let ghost l0 = cursive.state().profile_stack@; proof { assert(place_ok(c0, l0, l0.len() - 1)); assert(c0.layers().last() == c0.layers()[c0.layers().len() - 1]); if l0.len() > 1 { assert(place_ok(c0, l0, l0.len() - 2)); } }",
        hints=[("before", "show_profile(", """let ghost m = *cursive; proof { let l = m.state().profile_stack@; assert(l == l0.drop_last()); assert(popped(c0, m));
            assert forall|i: int| 0 <= i < l.len() implies #[trigger] place_ok(m, l, i) by { assert(place_ok(c0, l0, i)); gone(c0, i); }
            assert forall|i: int| 0 <= i < l.len() implies level_ok(m, #[trigger] m.state().profile_stack@[i]) by { assert(place_ok(c0, l0, i)); assert(level_ok(c0, l0[i])); gone(c0, i); } }""")])
    # the table
    u.fn(D, "make_profile_view", lifted=["@on_event"], sig="fn make_profile_view(table_name: VxName, kind: ProfileKind, vx_data: ActivityData, get_other_activities: VxOther, description_width: u16, display_config: ProfileDisplay, update_description: VxUpdate) -> (vx_r: (VxNamed, Option<ActivityTraceId>))",
        rewrites=[("let update_desc = select($a, $b);", "", "callback (vx_select)"), ("ProfileView::new().items($a).column($b, $c, |c| { c.width($w).ordering($o) }).on_sort(sort_other_profiles).on_select(update_desc)", "ProfileView::vx_new($a, $b, $c, $w, $o)", "builder"),
            ("table.item().map(|index| { $b_x })", "(match table.item() { Some(index) => Some({ $b_x }), None => None })", "map written out"), ("table.set_on_submit(zoom($a))", "table.vx_on_submit()", "callback (vx_zoom)"), ("table.with_name(table_name.to_string())", "vx_with_name(table, &table_name)", "named view"),
            ("let once_state = Mutex::new(Some((activity_infos, get_other_activities)));", "", "captured by the callback for F"), ("let view = OnEventView::new(table).on_event('f', move vx_lifted);", "let view = table;", "view around it")] + CALL,
        start="let (activity_infos, activity_descs) = vx_data;",
        contract="""requires display_config.duration_display is Some, vx_data.0@.len() == vx_data.1@.len(), description_width == desc_width(kind, terminal().0),
        ensures vx_r.0.name == table_name, rows_of(kind, vx_data.0@, vx_data.1@, vx_r.0.table.rows()), vx_r.0.table.zooms() == (kind is Hierarchical), fresh(vx_r.0.table, kind, display_config, terminal().0),
            vx_r.1 is Some <==> vx_r.0.table.chosen() is Some, vx_r.0.table.chosen() matches Some(i) ==> 0 <= i < vx_data.0@.len() && vx_r.1 == Some(vx_r.0.table.rows()[i].id),""")
    u.fn(D, "make_footer_view", sig="fn make_footer_view(terminal_width: u16, vx_footer: VxString) -> (vx_r: VxFooter)", start="let mut footer_str = vx_footer;", tail='assert(vx_ret.text@ =~= helped(vx_footer@, terminal_width));',
        rewrites=[("const HELP_TEXT: &str", "const HELP_TEXT: &'static str", "lifetime"), ("footer_str.lines().last()", "vx_last_line(&footer_str)", "last line"), ("last_line.width()", "vx_cols(&last_line)", "width"), ("$i_x.width()", "vx_width($i_x)", "width"), ("TextView::new(footer_str).center().no_wrap()", "VxFooter { text: footer_str }", "text")] + CALL,
        contract="requires vx_footer@.len() > 0, ensures vx_r.text@ == helped(vx_footer@, terminal_width),")
    # a profile on top of the others
    u.fn(D, "register_profile", lifted=["@with_state"], sig="fn register_profile(cursive: &mut Cursive, terminal_width: u16, parent_name: VxName, parent_percent_norm: VxFinite, kind: ProfileKind, activity_infos: ActivityInfoList, description_width: u16) -> (vx_r: (ProfileDisplay, ActivityData, VxString, usize, VxName))",
        rewrites=[("with_state(cursive, vx_lifted)", "vx_registered(vx_state(cursive), terminal_width, parent_name, parent_percent_norm, kind, activity_infos, description_width)", "lifted closure with what it captures")],
        contract="""requires units_ok(old(cursive).state()), old(cursive).state().global_percent_norm is Some, old(cursive).state().profile_stack@.len() < 0x7fff_ffff,
        ensures final(cursive).layers() == old(cursive).layers(), final(cursive).tables() == old(cursive).tables(), final(cursive).texts() == old(cursive).texts(), vx_r.2@.len() > 0, units_ok(final(cursive).state()),
            registered(old(cursive).state(), final(cursive).state(), ProfileLayer { parent_name, table_name: vx_r.4, parent_percent_norm, kind }), vx_r.4@ == table_name(old(cursive).state().profile_stack@.len() as int), vx_r.3 == old(cursive).state().profile_stack@.len(),
            vx_r.0 == final(cursive).state().display_config, vx_r.1.0 == activity_infos, vx_r.2@ == header(old(cursive).state().processing_thread, terminal_width), vx_r.1.1@.len() == activity_infos@.len(),
            forall|i: int| 0 <= i < activity_infos@.len() ==> (#[trigger] vx_r.1.1@[i])@ == line(old(cursive).state().processing_thread, activity_infos@[i].id, description_width),""")
    SHOW_PRE = "requires levels_ok(*old(cursive)), on_top(*old(cursive)), old(cursive).layers().len() < 0x7fff_fffe, old(cursive).state().global_percent_norm is Some, old(cursive).state().profile_stack@.len() > 0 ==> old(cursive).state().profile_stack@.last().kind is Hierarchical,"
    u.fn(D, "show_profile", sig="fn show_profile(cursive: &mut Cursive, parent_name: VxName, parent_percent_norm: VxFinite, activity_infos: ActivityInfoList, get_other_activities: VxOther, kind: ProfileKind)",
        rewrites=[("termion::terminal_size().expect($m)", "vx_terminal()", "size of the terminal"), ("update_description.clone()", "update_description.vx_same()", "shared callback"), ("update_description(cursive, $a)", "update_description.vx_call(cursive, $a)", "lifted closure"),
            ("cursive.add_fullscreen_layer(LinearLayout::vertical().child(table.full_screen()).child($d).child(footer.full_width()),)", "cursive.vx_add_layer(table, description, footer)", "layout"), ("cursive.add_fullscreen_layer(LinearLayout::vertical().child(table.full_screen()).child($d).child(footer.full_width()))", "cursive.vx_add_layer(table, description, footer)", "layout")],
        contract=SHOW_PRE + " ensures levels_ok(*final(cursive)), shows(*old(cursive), *final(cursive), parent_name@, parent_percent_norm, kind, activity_infos@),",
        outer="let ghost mut gl = arbitrary::<ProfileLayer>(); let ghost mut gt = arbitrary::<ProfileView>(); let ghost a0 = activity_infos@;", start="let ghost (n0, p0, k0) = (parent_name, parent_percent_norm, kind);",
        hints=[("before", "cursive.vx_add_layer(", "proof { gt = table.table; gl = ProfileLayer { parent_name: n0, table_name: table.name, parent_percent_norm: p0, kind: k0 }; }")],
        tail="""let a = *old(cursive); let b = *cursive; let s = b.state().display_config;
            assert(registered(a.state(), b.state(), gl));
            assert(opened(a, b, gl, gt));
            lemma_opened(a, b, gl, gt, Col { what: HierarchicalColumn::Description, title: "Activity"@, width: desc_width(kind, terminal().0) as int, first: s.sort_config.order@[2] });
            assert(filled(a.state().processing_thread, gt, kind, a0)); assert(shown_on(a, b, gl, gt, a0));""")
    u.fn(D, "show_hierarchical_profile", sig="fn show_hierarchical_profile(cursive: &mut Cursive, parent_name: VxName, parent_percent_norm: VxFinite, activity_infos: ActivityInfoList, get_flat_activities: VxOther)",
        rewrites=[("Box::new(get_flat_activities)", "get_flat_activities", "boxed callback")],
        contract=SHOW_PRE + " ensures levels_ok(*final(cursive)), shows(*old(cursive), *final(cursive), parent_name@, parent_percent_norm, ProfileKind::Hierarchical, activity_infos@),")
    # Enter
    u.fn(D, "zoom", closure=("@call_on_name", "view: &mut ProfileView"), sig="fn vx_row(view: &mut ProfileView, index: usize) -> (vx_r: Option<(ActivityTraceId, VxName, T)>)",
        rewrites=[("activity.description.strip_prefix($c)", "activity.description.vx_strip($c)", "text"), ("$i_d.into()", "$i_d.vx_name()", "shared text")] + CALL,
        contract="requires index < old(view).rows().len(), ensures *final(view) == *old(view), ({ let r = old(view).rows()[index as int]; (vx_r is Some <==> expands(r)) && (vx_r matches Some(x) ==> x.0 == r.id && x.1@ == r.description@.skip(1) && x.2 == r.duration) }),")
    u.fn(D, "zoom", lifted=["@call_on_name"], sig="fn vx_zoom(cursive: &mut Cursive, table_name: VxName, index: usize)",
        rewrites=[("move |cursive, _row, index| { $b_x }", "{ $b_x }", "the closure that it returns, as a function of its parameters"), ("cursive.call_on_name(&table_name, vx_lifted).expect($m)", "vx_row(vx_table(cursive, &table_name), index)", "named table, panics if there is none; lifted closure"),
            ("assert!(!$i_a.is_empty(), $m);", "vx_assert(!vx_is_empty(&$i_a));", "panics unless true"), ("super::percent_norm($a)", "percent_norm($a)", "path"), ("Box::new(move |state: &mut State| { state.processing_thread.get_all_children($a) })", "VxOther::vx_below($a)", "callback")] + ST,
        contract="""requires levels_ok(*old(cursive)), on_top(*old(cursive)), old(cursive).layers().len() < 0x7fff_fffe, old(cursive).state().profile_stack@.len() > 0, old(cursive).state().profile_stack@.last().table_name@ == table_name@, old(cursive).state().profile_stack@.last().kind is Hierarchical,
            index < old(cursive).tables()[table_name@].rows().len(), ({ let r = old(cursive).tables()[table_name@].rows()[index as int]; expands(r) ==> children(old(cursive).state().processing_thread, r.id).len() > 0 }),
        ensures levels_ok(*final(cursive)), ({ let r = old(cursive).tables()[table_name@].rows()[index as int];
            if expands(r) { exists|a: Cursive| same_screen(*old(cursive), a) && #[trigger] shows(a, *final(cursive), r.description@.skip(1), VxFinite { x: norm_of(r.duration) }, ProfileKind::Hierarchical, children(old(cursive).state().processing_thread, r.id)) }
            else { same_screen(*old(cursive), *final(cursive)) } }),""",
        start="let ghost c0 = *cursive; proof { let l0 = c0.state().profile_stack@; assert(place_ok(c0, l0, l0.len() - 1)); }",
        hints=[("before", "let ($i_a, $i_b, $i_c) = match", "proof { assert(same_screen(c0, *cursive)); lemma_same(c0, *cursive); }"), ("before", "show_hierarchical_profile(", "proof { assert(same_screen(c0, *cursive)); lemma_same(c0, *cursive); }")])

# ---- a trace is loaded ----
LOADING = r"""
struct VxWait {}
#[verifier::external_body] fn vx_wait() -> VxWait { unimplemented!() }
#[verifier::external_body] struct VxFlag {}
impl VxFlag { #[verifier::external_body] fn vx_new() -> VxFlag { unimplemented!() } }
#[verifier::external_body] struct VxError {}
#[verifier::external_body] fn vx_label(s: &'static str) -> (r: VxName) ensures r@ == s@ { unimplemented!() }
uninterp spec fn everything(p: ProcessingThread) -> Seq<ActivityInfo>;
impl VxOther { #[verifier::external_body] fn vx_everything() -> (r: VxOther) ensures forall|p: ProcessingThread| #[trigger] r.list(p) == everything(p) { unimplemented!() } }
impl Cursive {
    #[verifier::external_body] fn vx_add_dialog(&mut self) ensures final(self).state() == old(self).state(), final(self).layers() == old(self).layers().push(None), final(self).tables() == old(self).tables(), final(self).texts() == old(self).texts() { unimplemented!() }
}
"""
LOADING_SPEC = r"""
// no profile, only the layers below and dialogs
spec fn idle(c: Cursive) -> bool { levels_ok(c) && c.state().profile_stack@.len() == 0 && c.state().layers_below_profile <= c.layers().len() < 0x7fff_fff0 }
// the root profile of the trace that was loaded, in place of what was shown while it was, with percentages of its total duration
spec fn showing(c: Cursive, m: Cursive) -> bool {
    let p = c.state().processing_thread;
    &&& m.layers() == c.layers().take(c.state().layers_below_profile as int)
    &&& m.state().global_percent_norm == Some(VxFinite { x: norm_of(total(roots(p))) }) && m.state().display_config.duration_display is None && m.state().display_config.sort_config == c.state().display_config.sort_config
    &&& m.state() == (State { no_escape: false, global_percent_norm: m.state().global_percent_norm, display_config: m.state().display_config, ..c.state() })
}
spec fn root_shown(c: Cursive, b: Cursive) -> bool { exists|m: Cursive| showing(c, m) && #[trigger] shows(m, b, "<profile root>"@, VxFinite { x: norm_of(total(roots(c.state().processing_thread))) }, ProfileKind::Hierarchical, roots(c.state().processing_thread)) }
proof fn lemma_empty(a: Cursive, b: Cursive) requires levels_ok(a), b.state().profile_stack@.len() == 0, units_ok(b.state()), b.layers().len() < 0x7fff_ffff, b.state().layers_below_profile < 0x7fff_ffff, a.state().profile_stack@.len() == 0,
        forall|i: int| 0 <= i < b.layers().len() ==> (#[trigger] b.layers()[i]) is None || (i < a.layers().len() && a.layers()[i] is Some),
    ensures levels_ok(b), {
    assert forall|i: int| 0 <= i < b.layers().len() && (#[trigger] b.layers()[i]) is Some implies false by { assert(a.layers()[i] is Some); assert(0 <= i - a.state().layers_below_profile < 0); }
}
"""
def loading(u):
    u.trust("cursive: a dialog is added as a layer on top; frame rates, and the flag that loading was cancelled, are not modelled", LOADING)
    u.raw(LOADING_SPEC)
    ST = [("with_state(cursive, |state| $e)", "({ let state = vx_state(cursive); $e })", "closure on the state, in place"), ("cursive.screen().len()", "cursive.vx_layers()", "number of layers")]
    u.fn(LOAD, "start_wait_for_input", sig="fn start_wait_for_input(cursive: &mut Cursive) -> (vx_r: (VxWait, VxFlag))",
        rewrites=[("let old_fps = cursive.fps();", "", "frame rate"), ("cursive.set_autorefresh(true);", "", "frame rate"), ("let state = WaitForInputState { old_fps };", "let state = vx_wait();", "frame rate"), ("Arc::new(AtomicBool::new(false))", "VxFlag::vx_new()", "flag"),
            ("let handle_abort = { $b_x };", "", "callback of the dialog"), ("cursive.add_layer($a)", "cursive.vx_add_dialog()", "dialog")] + ST,
        contract="""requires levels_ok(*old(cursive)), old(cursive).state().profile_stack@.len() == 0, old(cursive).layers().len() < 0x7fff_fff0 - 1,
        ensures idle(*final(cursive)), final(cursive).layers() == old(cursive).layers().push(None), final(cursive).state() == (State { no_escape: true, layers_below_profile: old(cursive).layers().len() as usize, ..old(cursive).state() }),""",
        tail="lemma_empty(*old(cursive), *cursive);")
    u.fn(LOAD, "end_wait_for_input", sig="fn end_wait_for_input(cursive: &mut Cursive, state: VxWait)", attrs="#[verifier::loop_isolation(false)]",
        rewrites=[("cursive.set_fps($a);", "", "frame rate")] + ST,
        contract="""requires idle(*old(cursive)),
        ensures idle(*final(cursive)), final(cursive).layers() == old(cursive).layers().take(old(cursive).state().layers_below_profile as int), final(cursive).state() == (State { no_escape: false, ..old(cursive).state() }),""",
        start="let ghost c0 = *cursive;",
        loops=[dict(kw="while", before="proof { assert(cursive.layers() =~= c0.layers().take(c0.layers().len() as int)); }", inv="""invariant cursive.state() == (State { no_escape: false, ..c0.state() }), old_layers == c0.state().layers_below_profile, old_layers <= cursive.layers().len() <= c0.layers().len(), cursive.layers() == c0.layers().take(cursive.layers().len() as int),
            decreases cursive.layers().len(),""", end="proof { assert(cursive.layers() =~= c0.layers().take(cursive.layers().len() as int)); }")],
        tail="lemma_empty(*old(cursive), *cursive);")
    u.fn(LOAD, "show_loader", closure=("@new", "cursive"), sig="fn vx_finished(cursive: &mut Cursive, canceled: bool, wait_state: VxWait, result: Result<(), VxError>)",
        rewrites=[("canceled.load($a)", "canceled", "flag"), ("atomic::fence($a);", "", "flag"), ("cursive.add_layer($a)", "cursive.vx_add_dialog()", "dialog"), ("with_state(cursive, |state| $e)", "vx_loaded(vx_state(cursive))", "lifted closure"), ("trace::display::show_hierarchical_profile", "show_hierarchical_profile", "path"),
            ("$i_x.into()", "vx_label($i_x)", "shared text"), ('"<profile root>".into()', 'vx_label("<profile root>")', "shared text"), ("|state| state.processing_thread.get_all_activities()", "VxOther::vx_everything()", "callback")],
        contract="""requires idle(*old(cursive)),
        ensures levels_ok(*final(cursive)), canceled ==> *final(cursive) == *old(cursive), !canceled && result is Err ==> final(cursive).layers() == old(cursive).layers().take(old(cursive).state().layers_below_profile as int).push(None) && final(cursive).state() == (State { no_escape: false, ..old(cursive).state() }),
            !canceled && result is Ok ==> root_shown(*old(cursive), *final(cursive)),""",
        start="let ghost c0 = *cursive;",
        hints=[("after", "end_wait_for_input(cursive, wait_state);", "let ghost c1 = *cursive;"), ("after", "cursive.vx_add_dialog();", "proof { lemma_empty(c0, *cursive); }"),
            ("before", "show_hierarchical_profile(", "proof { lemma_empty(c1, *cursive); assert(showing(c0, *cursive)); }")])

def make_tables():
    u = base("tui_tables")
    float_model(u)
    tables(u)
    levels(u)
    opening(u)
    loading(u)
    return u

# ---- C26: the table of a build ----
B = "src/ui/tui/build/display.rs"
BUILD = r"""
pub use core::cmp::Ordering;
#[verifier::external_body] pub struct VxTime {}   // std::time::Duration
impl VxTime { pub uninterp spec fn secs(&self) -> T; }
#[verifier::external_body] pub struct VxPath {}
pub uninterp spec fn shortened(p: VxPath, cols: u16) -> Seq<char>;   // C08
pub uninterp spec fn path_ord(a: VxPath, b: VxPath) -> Ordering;
pub uninterp spec fn gigabytes(n: u64) -> T;   // billions
pub uninterp spec fn time_ord(a: VxTime, b: VxTime) -> Ordering;
pub uninterp spec fn fixed2(x: T) -> Seq<char>;
pub uninterp spec fn fixed1(x: T) -> Seq<char>;
#[verifier::external_body] pub fn vx_fmt_p2(x: &T) -> (r: VxText) ensures r@ == fixed2(*x) { unimplemented!() }
#[verifier::external_body] pub fn vx_fmt_p1(x: &T) -> (r: VxText) ensures r@ == fixed1(*x) { unimplemented!() }
#[verifier::external_body] pub fn vx_gigabytes(n: u64) -> (r: T) ensures r == gigabytes(n) { unimplemented!() }
pub open spec fn seconds(t: Result<VxTime, T>) -> T { match t { Ok(d) => d.secs(), Err(raw) => raw } }
#[verifier::external_body] pub fn vx_seconds(t: Result<VxTime, T>) -> (r: T) ensures r == seconds(t) { unimplemented!() }
#[verifier::external_body] pub fn vx_shortened(p: &VxPath, cols: u16) -> (r: VxString) requires cols >= 1, ensures r@ == shortened(*p, cols) { unimplemented!() }
#[verifier::external_body] pub fn vx_cmp_paths(a: &VxPath, b: &VxPath) -> (r: Ordering) ensures r == path_ord(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn vx_cmp_times(a: Result<VxTime, T>, b: Result<VxTime, T>) -> (r: Ordering) requires a is Ok, b is Ok, ensures r == time_ord(a->Ok_0, b->Ok_0) { unimplemented!() }
pub open spec fn number_ord(a: u64, b: u64) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
fn vx_cmp_numbers(a: u64, b: u64) -> (r: Ordering) ensures r == number_ord(a, b) { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
#[verifier::external_body] pub struct UnitProfile {}
impl UnitProfile {
    pub uninterp spec fn rss(&self) -> u64;
    pub uninterp spec fn time(&self) -> Option<Result<VxTime, T>>;
    pub uninterp spec fn path(&self) -> VxPath;
    #[verifier::external_body] fn max_rss_bytes(&self) -> (r: u64) ensures r == self.rss() { unimplemented!() }
    #[verifier::external_body] fn wall_time(&self) -> (r: Option<Result<VxTime, T>>) ensures r == self.time() { unimplemented!() }
    #[verifier::external_body] fn rel_path(&self) -> (r: &VxPath) ensures *r == self.path() { unimplemented!() }
}
#[verifier::external_body] fn vx_first(v: &Vec<UnitProfile>) -> (r: Option<&UnitProfile>) ensures r is Some <==> v@.len() > 0, r matches Some(x) ==> *x == v@[0] { unimplemented!() }
pub uninterp spec fn terminal() -> (u16, u16);
#[verifier::external_body] fn vx_terminal() -> (r: (u16, u16)) ensures r == terminal() { unimplemented!() }
"""
BUILD_SPEC = r"""
spec fn cell(u: UnitProfile, c: ProfileColumn) -> Seq<char> {
    match c { ProfileColumn::MaxRSS => fixed2(gigabytes(u.rss())) + " GB"@, ProfileColumn::WallTime => fixed1(seconds(u.time()->Some_0)) + "s"@, ProfileColumn::RelPath(cols) => shortened(u.path(), cols) }
}
spec fn rank(a: UnitProfile, b: UnitProfile, c: ProfileColumn) -> Ordering {
    match c { ProfileColumn::MaxRSS => number_ord(a.rss(), b.rss()), ProfileColumn::WallTime => time_ord(a.time()->Some_0->Ok_0, b.time()->Some_0->Ok_0), ProfileColumn::RelPath(_) => path_ord(a.path(), b.path()) }
}
struct Col { what: ProfileColumn, title: Seq<char>, width: int, first: Ordering }
// a table, and the screen that it is put on
#[verifier::external_body] struct VxTable {}
impl VxTable {
    uninterp spec fn cols(&self) -> Seq<Col>;
    uninterp spec fn rows(&self) -> Seq<UnitProfile>;
    uninterp spec fn by(&self) -> Option<(ProfileColumn, Ordering)>;
    uninterp spec fn default(&self) -> (ProfileColumn, Ordering);
    #[verifier::external_body] fn vx_new(items: Vec<UnitProfile>, what: ProfileColumn, title: &str, width: usize, first: Ordering) -> (r: VxTable)
        ensures r.rows() == items@, r.cols() == seq![Col { what, title: title@, width: width as int, first }], r.default() == (what, first) { unimplemented!() }
    #[verifier::external_body] fn vx_add_column(&mut self, what: ProfileColumn, title: &str, width: usize, first: Ordering)
        ensures final(self).rows() == old(self).rows(), final(self).default() == old(self).default(), final(self).cols() == old(self).cols().push(Col { what, title: title@, width: width as int, first }) { unimplemented!() }
    #[verifier::external_body] fn sort(&mut self) ensures final(self).rows() == old(self).rows(), final(self).default() == old(self).default(), final(self).cols() == old(self).cols(), final(self).by() == Some(old(self).default()) { unimplemented!() }
    #[verifier::external_body] fn set_selected_row(&mut self, i: usize) ensures *final(self) == *old(self) { unimplemented!() }
}
#[verifier::external_body] struct VxScreen {}
impl VxScreen {
    uninterp spec fn table(&self) -> VxTable;
    uninterp spec fn told(&self) -> bool;   // that a build is shown
    #[verifier::external_body] fn vx_show(&mut self, t: VxTable) ensures final(self).table() == t, final(self).told() == old(self).told() { unimplemented!() }
    #[verifier::external_body] fn vx_tell(&mut self, b: bool) ensures final(self).told() == b, final(self).table() == old(self).table() { unimplemented!() }
}
spec fn timed(p: Seq<UnitProfile>) -> bool { p.len() > 0 && p[0].time() is Some }
spec fn room(p: Seq<UnitProfile>, cols: u16) -> u16 { let used = if timed(p) { 26int } else { 15 }; if cols <= used { 1u16 } else { (cols - used) as u16 } }
spec fn columns(p: Seq<UnitProfile>, cols: u16) -> Seq<Col> {
    let memory = Col { what: ProfileColumn::MaxRSS, title: "Memory"@, width: 10, first: Ordering::Greater };
    let time = Col { what: ProfileColumn::WallTime, title: "Time"@, width: 8, first: Ordering::Greater };
    let file = Col { what: ProfileColumn::RelPath(room(p, cols)), title: "Source file"@, width: room(p, cols) as int, first: Ordering::Less };
    if timed(p) { seq![memory, time, file] } else { seq![memory, file] }
}
"""
def make_build():
    u = base("tui_build")
    float_model(u)
    u.trust("f32 arithmetic and formatting are uninterpreted; paths are shortened as in C08 and compare as in std; a build profile is what was read (C18)", BUILD)
    u.item(B, "enum", "ProfileColumn", prefix="#[derive(Clone, Copy)]")
    u.trust("cursive_table_view: columns are added on the right, the first is sorted by unless told otherwise, in its own order; cursive shows the table", BUILD_SPEC)
    H = dict(impl="UnitProfile", trait="TableViewItem", header="impl UnitProfile")
    u.fn(B, "to_column", fmt=True, sig="fn to_column(&self, column: ProfileColumn) -> (vx_r: VxString)", **H,
        rewrites=[("self.max_rss_bytes() as f32 / 1e9", "vx_gigabytes(self.max_rss_bytes())", "f32 arithmetic"), ("self.wall_time().expect($m).map(|dur| dur.as_secs_f32()).unwrap_or_else(|raw_secs| raw_secs)", "vx_seconds(self.wall_time().unwrap())", "seconds, valid or not"),
            ("truncate_path_iter(self.rel_path().components().map(|s| s.as_os_str().to_string_lossy()), cols,).into()", "vx_shortened(self.rel_path(), cols)", "C08"), ("truncate_path_iter(self.rel_path().components().map(|s| s.as_os_str().to_string_lossy()), cols).into()", "vx_shortened(self.rel_path(), cols)", "C08")],
        contract="requires column is WallTime ==> self.time() is Some, column matches ProfileColumn::RelPath(c) ==> c >= 1, ensures vx_r@ == cell(*self, column),")
    u.fn(B, "cmp", sig="fn vx_cmp_rows(&self, other: &Self, column: ProfileColumn) -> (vx_r: Ordering)", **H,
        rewrites=[("self.wall_time().zip(other.wall_time()).map(|(x, y)| x.partial_cmp(&y).expect($m)).expect($n)", "vx_cmp_times(self.wall_time().unwrap(), other.wall_time().unwrap())", "comparison of valid times"),
            ("self.max_rss_bytes().cmp(&other.max_rss_bytes())", "vx_cmp_numbers(self.max_rss_bytes(), other.max_rss_bytes())", "comparison"), ("self.rel_path().cmp(other.rel_path())", "vx_cmp_paths(self.rel_path(), other.rel_path())", "comparison")],
        contract="requires column is WallTime ==> self.time() is Some && self.time()->Some_0 is Ok && other.time() is Some && other.time()->Some_0 is Ok, ensures vx_r == rank(*self, *other, column),")
    u.fn(B, "display_profile", sig="fn display_profile(cursive: &mut VxScreen, profile: Vec<UnitProfile>)",
        rewrites=[("profile.first().map(|unit| unit.wall_time().is_some()).unwrap_or(false)", "(match vx_first(&profile) { Some(unit) => unit.wall_time().is_some(), None => false })", "map written out"), ("termion::terminal_size().expect($m)", "vx_terminal()", "size of the terminal"),
            (".saturating_sub($a).max(1)", ".saturating_sub($a).vx_max(1)", "larger of two numbers"), ("type FullBuildProfileView = $a;", "", "type alias"),
            ("FullBuildProfileView::new().items($p).column($a, $t, |c| { c.width($w).ordering($o) }).default_column($b)", "VxTable::vx_new($p, $a, $t, $w, $o)", "builder"),
            ("table.add_column($a, $t, |c| { c.width($w).ordering($o) });", "table.vx_add_column($a, $t, $w, $o);", "column settings as arguments"), ("table.add_column($a, $t, |c| c.width($w),);", "table.vx_add_column($a, $t, $w, Ordering::Less);", "column settings as arguments"), ("table.add_column($a, $t, |c| c.width($w));", "table.vx_add_column($a, $t, $w, Ordering::Less);", "column settings as arguments"),
            ("let time_trace_granularity = args.time_trace_granularity;", "", "captured by the callback for Enter"), ("table.set_on_submit($a);", "", "callback for Enter"), ("let table = table.with_name($a);", "", "name"),
            ("with_state(cursive, |state| { state.showing_full_build = $b; });", "cursive.vx_tell($b);", "state of the interface"),
            ("cursive.add_fullscreen_layer(LinearLayout::vertical().child(table.min_size((terminal_width, terminal_height - 1))).child(TextView::new($t).center()),);", "cursive.vx_show(table);", "layout"), ("cursive.run();", "", "the session that follows")],
        contract="ensures final(cursive).told(), final(cursive).table().rows() == profile@, final(cursive).table().cols() == columns(profile@, terminal().0), final(cursive).table().by() == Some((ProfileColumn::MaxRSS, Ordering::Greater)),",
        tail="assert(cursive.table().cols() =~= columns(profile@, terminal().0));")
    u.raw("trait VxMax { fn vx_max(self, b: usize) -> (r: usize); } impl VxMax for usize { fn vx_max(self, b: usize) -> (r: usize) ensures r == (if self < b { b } else { self }) { if self < b { b } else { self } } }")
    return u
