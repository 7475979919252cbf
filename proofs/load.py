"""C11, C12: loading of clang's -ftime-trace output (clang-time-trace/src/lib.rs, stats/, metadata.rs)."""
from vx.unit import Unit
from .tree import TIME
L = "clang-time-trace/src/lib.rs"
A = "clang-time-trace/src/stats/activity/mod.rs"
G = "clang-time-trace/src/stats/argument.rs"
ARG = "clang-time-trace/src/stats/activity/argument.rs"
S = "clang-time-trace/src/stats/mod.rs"
GL = "clang-time-trace/src/stats/global.rs"
M = "clang-time-trace/src/metadata.rs"
C = "clang-time-trace/src/ctf/mod.rs"
CD = "clang-time-trace/src/ctf/events/duration.rs"
CM = "clang-time-trace/src/ctf/events/metadata.rs"

def rules(u):
    for a, b, w in [
        ("Option<HashMap<Box<str>, json::Value>>", "Option<Args>", "map type with a trusted specification"),
        ("HashMap<Box<str>, json::Value>", "Args", "map type with a trusted specification"),
        ("HashMap<Box<str>, GlobalStat>", "Stats", "map type with a trusted specification"),
        ("HashMap<Box<str>, StackFrame>", "Opaque", "type not looked into"), ("Box<[Sample]>", "Opaque", "type not looked into"),
        ("Box<[TraceEvent]>", "Events", "boxed slice with a trusted specification"), ("Box<[Box<str>]>", "Cats", "boxed slice with a trusted specification"),
        ("Option<Rc<str>>", "Option<Text>", "text type"), ("Option<Box<str>>", "Option<Text>", "text type"), ("Option<Box<[Sample]>>", "Option<Opaque>", "type not looked into"),
        ("Option<HashMap<Box<str>, StackFrame>>", "Option<Opaque>", "type not looked into"),
        ("Box<Box<str>>", "Box<Text>", "text type"), ("Box<str>", "Text", "text type"), ("Rc<str>", "Text", "text type"), ("json::Value::String", "Value::String", "JSON value type"),
        ("json::Value", "Value", "JSON value type"), ("json::from_str::<TraceDataObject>($s)?", "(match vx_json($s) { Ok(x) => x, Err(e) => return Err(ClangTraceParseError::CtfParseError(e)) })", "trusted JSON parser; error conversion written out"),
        ("log::error!($x);", "", "logging"), ("log::info!($x);", "", "logging"), ("f64", "Timestamp", "number type"),
        ("0.0", "T::lit0()", "f64 literal"), ("1.0", "T::lit1()", "f64 literal"), ("HashMap::from_iter($x)", "Args::vx_collect($x)", "trusted std function"),
    ]: u.rule(a, b, w)

def base(name):
    u = Unit(name, rlimit=80)
    u.trust("f64 numbers are an opaque copyable type with the order of non-NaN f64 (JSON cannot express NaN); 0.0 and 1.0 are two of them", TIME + r"""
pub uninterp spec fn t_lit1() -> T;
impl T { #[verifier::external_body] pub fn lit1() -> (r: T) ensures r == t_lit1() { unimplemented!() } }
""")
    u.trust("Box<str>, Rc<str>: an owned text; str equality and strip_prefix as documented by std", r"""
global size_of usize == 8;
#[verifier::external_body] pub struct Text { s: String }
impl Text {
    pub uninterp spec fn view(&self) -> Seq<char>;
}
impl Clone for Text { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] pub fn vx_into(s: Text) -> (r: Text) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn vx_is(s: &Text, t: &str) -> (r: bool) ensures r == (s@ == t@) { unimplemented!() }
#[verifier::external_body] pub fn vx_same(s: &str, t: &str) -> (r: bool) ensures r == (s@ == t@) { unimplemented!() }
#[verifier::external_body] pub fn vx_strip(s: &Text, p: &str) -> (r: Option<Text>)
    ensures match r { Some(t) => s@ == p@ + t@, None => !(p@.len() <= s@.len() && s@.subrange(0, p@.len() as int) == p@) } { unimplemented!() }
#[verifier::external_body] pub struct Opaque {}
""")
    u.trust("serde_json::Value and HashMap<Box<str>, Value>: iteration visits every entry once, in any order; a map is equal to the map of its entries", r"""
#[verifier::external_body] pub struct Other {}
pub enum Value { String(Text), Other(Other) }
pub uninterp spec fn num_f(v: Value) -> Option<T>;
pub uninterp spec fn num_u(v: Value) -> Option<u64>;
impl Value {
    #[verifier::external_body] pub fn as_f64(&self) -> (r: Option<T>) ensures r == num_f(*self) { unimplemented!() }
    #[verifier::external_body] pub fn as_u64(&self) -> (r: Option<u64>) ensures r == num_u(*self) { unimplemented!() }
}
impl Clone for Value { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct Args {}
#[verifier::external_body] pub struct ArgsIter {}
impl Args {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Value>;
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<Seq<char>, Value>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn into_iter(self) -> (r: ArgsIter) ensures r@ == self@, r@.dom().finite() { unimplemented!() }
    #[verifier::external_body] pub fn vx_collect(i: ArgsIter) -> (r: Args) ensures r@ == i@ { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Text, v: Value) -> (r: Option<Value>) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &str) -> (r: Option<Value>) ensures final(self)@ == old(self)@.remove(k@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &str) -> (r: Option<&Value>) ensures r is Some == self@.contains_key(k@), r matches Some(v) ==> *v == self@[k@] { unimplemented!() }
}
impl ArgsIter {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Value>;   // entries still to come
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(Text, Value)>)
        ensures match r { None => old(self)@ == Map::<Seq<char>, Value>::empty() && final(self)@ == old(self)@,
            Some((k, v)) => old(self)@.contains_key(k@) && old(self)@[k@] == v && final(self)@ == old(self)@.remove(k@) } { unimplemented!() }
}
""")
    rules(u)
    u.item(S, "enum", "ArgParseError")
    return u

def arguments(u):
    """Activity::parse and what it calls"""
    u.item(ARG, "enum", "ActivityArgumentType", prefix="#[derive(Clone, Copy, PartialEq, Eq, Structural)]")
    u.item(ARG, "struct", "RawActivityArgument")
    u.trust("the table of known activities is a map from names to identifiers of that name and argument types (phf, strum)", r"""
#[verifier::external_body] pub struct Known {}
enum ActivityId { UnknownActivity(Box<Text>), Known(Known) }
pub uninterp spec fn known_name(k: Known) -> Seq<char>;
spec fn id_name(i: ActivityId) -> Seq<char> { match i { ActivityId::UnknownActivity(t) => t@, ActivityId::Known(k) => known_name(k) } }
uninterp spec fn known(n: Seq<char>) -> Option<ActivityArgumentType>;
#[verifier::external_body] fn vx_known(n: &Text) -> (r: Option<(ActivityId, ActivityArgumentType)>)
    ensures match r { Some((i, t)) => i is Known && id_name(i) == n@ && known(n@) == Some(t), None => known(n@) is None } { unimplemented!() }
uninterp spec fn inferred(s: Seq<char>) -> ActivityArgumentType;
impl ActivityArgumentType { #[verifier::external_body] fn infer_from_detail(s: &Text) -> (r: Self) ensures r == inferred(s@), !(r is Nothing) /* proved in unit argument_inference */ { unimplemented!() } }
""")
    u.item(A, "struct", "Activity")
    u.item(A, "enum", "ActivityParseError")
    u.raw(r"""
// what a set of arguments says: a "detail" text on its own, nothing at all, or something else
enum Detail { Missing, Text(Seq<char>), Bad }
spec fn detail_of(a: Option<Args>) -> Detail {
    match a { None => Detail::Missing, Some(a) =>
        if a@ == Map::<Seq<char>, Value>::empty() { Detail::Missing }
        else if a@.dom() == set!["detail"@] && a@["detail"@] is String { Detail::Text(a@["detail"@]->String_0@) } else { Detail::Bad } }
}
// C11: what is recorded of an activity of a given name with given arguments, None if they are rejected
spec fn arg_of(n: Seq<char>, a: Option<Args>) -> Option<(ActivityArgumentType, Option<Seq<char>>)> {
    match known(n) {
        Some(ActivityArgumentType::Nothing) => if detail_of(a) is Missing { Some((ActivityArgumentType::Nothing, None)) } else { None },
        Some(t) => match detail_of(a) { Detail::Text(s) => Some((t, Some(s))), Detail::Bad => None,
            Detail::Missing => if t is SymbolOpt || t is UnnamedLoopOpt { Some((t, None)) } else { None } },
        None => match detail_of(a) { Detail::Text(s) => Some((inferred(s), Some(s))), Detail::Missing => Some((ActivityArgumentType::Nothing, None)), Detail::Bad => None },
    }
}
// C12: a detail is there unless the kind says otherwise
spec fn complete(t: ActivityArgumentType, d: bool) -> bool { (t is Nothing ==> !d) && (t is SymbolOpt || t is UnnamedLoopOpt || t is Nothing || d) }
spec fn raw_is(r: RawActivityArgument, w: (ActivityArgumentType, Option<Seq<char>>)) -> bool {
    r.arg_type == w.0 && (match r.detail { Some(d) => w.1 == Some(d@), None => w.1 is None })
}
""")
    u.fn(ARG, "new", impl="RawActivityArgument", ret="r", contract="ensures r.arg_type == arg_type, r.detail == detail,")
    u.fn(ARG, "arg_type", impl="RawActivityArgument", ret="r", contract="ensures r == self.arg_type,")
    u.fn(ARG, "detail", impl="RawActivityArgument", ret="r", rewrites=[("self.detail.clone()", "(match &self.detail { Some(d) => Some(d.clone()), None => None })", "Option::clone spelled out")],
         contract="ensures match r { Some(d) => self.detail matches Some(e) && d@ == e@, None => self.detail is None },")
    u.fn(A, "parse_empty_args", impl="Activity", ret="r", contract="ensures r is Ok <==> detail_of(args) is Missing,")
    u.fn(A, "parse_detail_arg", impl="Activity", closure=("collect_bad_args", "args_iter, (k, v)"), header="impl Activity",
         sig="fn collect_bad_args(args_iter: ArgsIter, vx_kv: (Text, Value)) -> (r: Args)", start="let (k, v) = vx_kv;",
         contract='ensures r@ == args_iter@.insert(vx_kv.0@, vx_kv.1).remove("detail"@),')
    u.fn(A, "parse_detail_arg", impl="Activity", ret="r", lifted=["collect_bad_args"],
         rewrites=[("collect_bad_args($x)", "Self::collect_bad_args($x)", "lifted closure"), ('&*$i_a == $s {', 'vx_is(&$i_a, $s) {', "text comparison"), ("$i_a.into()", "vx_into($i_a)", "text conversion")],
         contract='''ensures match detail_of(args) { Detail::Text(s) => r matches Ok(t) && t@ == s,
            Detail::Missing => r matches Err(ArgParseError::MissingKey(k)) && k@ == "detail"@,
            Detail::Bad => r is Err && !(r->Err_0 is MissingKey) },''',
         start="let ghost m0 = if args is Some { args->0@ } else { Map::empty() };",
         hints=[("after", "if let Some((k, v)) = args_iter.next() {", "proof { if m0.remove(k@) == Map::<Seq<char>, Value>::empty() { assert(m0.dom() =~= set![k@]) by { assert forall|x: Seq<char>| m0.dom().contains(x) implies x == k@ by { if x != k@ { assert(m0.remove(k@).dom().contains(x)); } } } } else { if m0.dom() == set![k@] { assert(m0.remove(k@) =~= Map::<Seq<char>, Value>::empty()); } assert(m0.dom() != set![k@]); if m0.dom() == set![\"detail\"@] { assert(m0.dom().contains(k@)); } } if m0 == Map::<Seq<char>, Value>::empty() { assert(!m0.contains_key(k@)); } if m0.dom() == set![\"detail\"@] { assert(m0.dom().contains(k@)); assert(k@ == \"detail\"@); } }")])
    MAP = [("Self::parse_detail_arg($a).map(|$i_x| $f)", "(match Self::parse_detail_arg($a) { Ok($i_x) => Ok($f), Err(e) => Err(e) })", "Result::map spelled out"),
           ("Self::parse_empty_args($a).map(|()| $f)", "(match Self::parse_empty_args($a) { Ok(()) => Ok($f), Err(e) => Err(e) })", "Result::map spelled out"),
           ("$i_a.borrow_mut().take()", "$i_a.take()", "RefCell of a local variable read as the variable"), ("let args = RefCell::new(args);", "let mut args = args;", "RefCell of a local variable read as the variable"),
           ("Err(ArgParseError::MissingKey($s)) =>", "Err(ArgParseError::MissingKey(vx_k)) if vx_same(vx_k, $s) =>", "text pattern spelled out"),
           ("$i_a.detail().map(|$i_x| $f).unwrap_or($d)", "(match $i_a.detail() { Some($i_x) => $f, None => $d })", "Option::map and unwrap_or spelled out"),
           ("ACTIVITIES.get(&name).cloned()", "vx_known(&name)", "trusted table of known activities")]
    u.fn(A, "parse", impl="Activity", closure=("detail_arg", ""), header="impl Activity", rewrites=MAP,
         sig="fn detail_arg(arg_type: ActivityArgumentType, args: &mut Option<Args>) -> (r: Result<RawActivityArgument, ArgParseError>)",
         contract='''ensures *final(args) is None, match detail_of(*old(args)) { Detail::Text(s) => r matches Ok(t) && raw_is(t, (arg_type, Some(s))),
            Detail::Missing => r matches Err(ArgParseError::MissingKey(k)) && k@ == "detail"@, Detail::Bad => r is Err && !(r->Err_0 is MissingKey) },''')
    u.fn(A, "parse", impl="Activity", ret="r", lifted=["detail_arg"], rewrites=MAP + [("detail_arg()", "Self::detail_arg(arg_type, &mut args)", "lifted closure"),
            ],
         contract="""ensures match arg_of(name@, args) { Some(w) => r matches Ok(a) && id_name(a.id) == name@ && raw_is(a.arg, w) && complete(a.arg.arg_type, a.arg.detail is Some),
            None => r matches Err(ActivityParseError::BadArguments(i, _)) && id_name(i) == name@ },""")
    return u

def make_activity():
    return arguments(base("activity_arguments"))

def events(u):
    u.trust("the derived PartialEq, Default and Clone of the CTF types are structural; boxed slices as lists", r"""
pub type Pid = i32; pub type Tid = i32;
#[verifier::external_body] pub struct Cats {}
impl Cats { pub uninterp spec fn view(&self) -> Seq<Text>; #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() } }
pub type StackTrace = Opaque; pub type EndStackTrace = Opaque; pub type LabelsArgs = Opaque; pub type SortIndexArgs = Opaque;
""")
    u.item(C, "struct", "EventCategories")
    u.item(CD, "struct", "DurationEvent")
    u.item(CM, "struct", "MetadataOptions")
    u.item(CM, "struct", "NameArgs")
    u.item(CM, "enum", "MetadataEvent")
    u.item(C, "enum", "TraceEvent")
    u.item(GL, "struct", "GlobalStat")
    u.item(GL, "struct", "GlobalStatArgs")
    u.item(GL, "enum", "GlobalStatParseError")
    u.item(A, "struct", "ActivityStat")
    u.item(A, "enum", "ActivityStatParseError")
    u.item(M, "enum", "NameParseError")
    u.raw(r"""
// ---- C11: what an event contributes, None if it is rejected ----
struct Act { name: Seq<char>, arg: (ActivityArgumentType, Option<Seq<char>>), start: T, dur: T }
spec fn act(s: ActivityStat) -> Act { Act { name: id_name(s.activity.id), arg: (s.activity.arg.arg_type, match s.activity.arg.detail { Some(d) => Some(d@), None => None }), start: s.start, dur: s.duration } }
// one thread per process: the thread id is the process id, or the pair is the (1, 0) of old clangs
spec fn one_thread(pid: int, tid: int) -> bool { tid == pid || (pid == 1 && tid == 0) }
spec fn eq0(t: T) -> bool { t.rank@ == t_lit0().rank@ }
spec fn activity_of(d: DurationEvent, dur: T, tdur: Option<T>, end: Option<EndStackTrace>) -> Option<Act> {
    if d.name is Some && d.cat is None && d.tts is None && d.stack_trace is None && tdur is None && end is None && one_thread(d.pid as int, d.tid as int) {
        match arg_of(d.name->0@, d.args) { Some(a) => Some(Act { name: d.name->0@, arg: a, start: d.ts, dur }), None => None }
    } else { None }
}
struct Stat { name: Seq<char>, total: T, count: int }
spec fn stat_args(m: Map<Seq<char>, Value>) -> Option<u64> {
    if m.dom() == set!["count"@, "avg ms"@] && num_f(m["avg ms"@]) is Some { num_u(m["count"@]) } else { None }
}
spec fn total(s: Seq<char>) -> Option<Seq<char>> { if "Total "@.len() <= s.len() && s.subrange(0, "Total "@.len() as int) == "Total "@ { Some(s.subrange("Total "@.len() as int, s.len() as int)) } else { None } }
spec fn stat_of(d: DurationEvent, dur: T, tdur: Option<T>, end: Option<EndStackTrace>) -> Option<Stat> {
    if d.name is Some && total(d.name->0@) is Some && d.cat is None && d.tts is None && d.stack_trace is None && tdur is None && end is None && d.tid != 0 && eq0(d.ts)
        && d.args is Some && stat_args(d.args->0@) is Some { Some(Stat { name: total(d.name->0@)->0, total: dur, count: stat_args(d.args->0@)->0 as int }) } else { None }
}
spec fn plain(o: MetadataOptions, a: NameArgs) -> bool {
    a.extra@ == Map::<Seq<char>, Value>::empty() && o.tts is None && o.cat is Some && (o.cat->0).0@.len() == 0 && o.ts is Some && eq0(o.ts->0)
}
spec fn process_of(m: MetadataEvent) -> Option<Seq<char>> {
    match m { MetadataEvent::process_name { pid, args, tid, options } => if plain(options, args) && tid is Some && one_thread(pid as int, tid->0 as int) { Some(args.name@) } else { None }, _ => None }
}
spec fn thread_of(m: MetadataEvent) -> Option<Seq<char>> {
    match m { MetadataEvent::thread_name { tid, args, pid, options } => if plain(options, args) && pid == Some(tid) { Some(args.name@) } else { None }, _ => None }
}
""")
    up = lambda t, e: (f"(match {t} {{ Ok(x) => x, Err(e) => return Err({e}(e)) }})", "error conversion written out")
    EQ = [("== Some($x))", "== Some::<i32>($x))", "type argument spelled out")]
    u.fn(M, "parse_process_name", ret="r", rewrites=[("tid == Some($x)", "vx_opt_is(tid, $x)", "Option equality spelled out")],
         contract="ensures match process_of(m) { Some(n) => r matches Ok(t) && t@ == n, None => r is Err },")
    u.fn(M, "parse_thread_name", ret="r", rewrites=[("pid == Some($x)", "vx_opt_is(pid, $x)", "Option equality spelled out")],
         contract="ensures match thread_of(m) { Some(n) => r matches Ok(t) && t@ == n, None => r is Err },")
    u.raw("fn vx_opt_is(a: Option<i32>, b: i32) -> (r: bool) ensures r == (a == Some(b)) { match a { Some(x) => x == b, None => false } }")
    u.fn(A, "parse", impl="ActivityStat", ret="r", rewrites=[("Activity::parse($a)?", *up("Activity::parse($a)", "ActivityStatParseError::BadArguments"))],
         contract="ensures match t { TraceEvent::X { duration_event, dur, tdur, end_stack_trace } => match activity_of(duration_event, dur, tdur, end_stack_trace) { Some(a) => r matches Ok(s) && act(s) == a, None => r is Err }, _ => r is Err },")
    u.fn(GL, "parse", impl="GlobalStatArgs", ret="r", rewrites=[("match &*k { $s => { $b_a } $t => { $b_b } _ => { $b_c } }", "if vx_is(&k, $s) { $b_a } else if vx_is(&k, $t) { $b_b } else { $b_c }", "match on a text spelled out")],
         contract="ensures match stat_args(args@) { Some(n) => r matches Ok(a) && a.count == n, None => r is Err },",
         attrs="#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]",
         start='let ghost m0 = args@; let ghost want = set!["count"@, "avg ms"@]; proof { reveal_strlit("count"); reveal_strlit("avg ms"); assert("count"@[1] == \'o\' && "avg ms"@[1] == \'v\'); assert("count"@ != "avg ms"@); }',
         loops=[dict(kw="while", inv=r"""
            invariant_except_break forall|k: Seq<char>| #[trigger] args_iter@.contains_key(k) ==> m0.contains_key(k) && m0[k] == args_iter@[k], args_iter@.dom().finite(), forall|k: Seq<char>| #[trigger] m0.contains_key(k) && !args_iter@.contains_key(k) ==> want.contains(k),
                match count { Some(c) => m0.contains_key("count"@) && !args_iter@.contains_key("count"@) && num_u(m0["count"@]) == Some(c), None => !m0.contains_key("count"@) || args_iter@.contains_key("count"@) },
                match _avg_ms { Some(c) => m0.contains_key("avg ms"@) && !args_iter@.contains_key("avg ms"@) && num_f(m0["avg ms"@]) == Some(c), None => !m0.contains_key("avg ms"@) || args_iter@.contains_key("avg ms"@) },
            ensures forall|k: Seq<char>| #[trigger] m0.contains_key(k) ==> want.contains(k),
                match count { Some(c) => m0.contains_key("count"@) && num_u(m0["count"@]) == Some(c), None => !m0.contains_key("count"@) },
                match _avg_ms { Some(c) => m0.contains_key("avg ms"@) && num_f(m0["avg ms"@]) == Some(c), None => !m0.contains_key("avg ms"@) },
            decreases args_iter@.dom().len(),
            """, start="proof { assert(m0.contains_key(k@) && m0[k@] == v); assert(m0.dom().contains(k@)); }",
            after="""proof { assert(m0.dom().contains("count"@) == m0.contains_key("count"@)); assert(m0.dom().contains("avg ms"@) == m0.contains_key("avg ms"@));
                if count is Some && _avg_ms is Some { assert(m0.dom() =~= want) by { assert forall|k: Seq<char>| m0.dom().contains(k) implies want.contains(k) by { assert(m0.contains_key(k)); } } } }""")])
    u.fn(GL, "parse", impl="GlobalStat", ret="r", rewrites=[("$i_a.strip_prefix($s)", "vx_strip(&$i_a, $s)", "trusted std function"), ("$i_a.into()", "vx_into($i_a)", "text conversion"),
            ("GlobalStatArgs::parse($a)?", *up("GlobalStatArgs::parse($a)", "GlobalStatParseError::BadArguments"))],
         contract="""ensures match t { TraceEvent::X { duration_event, dur, tdur, end_stack_trace } => match stat_of(duration_event, dur, tdur, end_stack_trace) {
            Some(s) => r matches Ok((n, g)) && n@ == s.name && g.total_duration == s.total && g.count == s.count, None => r is Err }, _ => r is Err },""",
         hints=[("after", "= vx_strip(&$i_a, $s) {", "proof { let p = \"Total \"@.len() as int; assert(\"Total \"@ + stripped@ == name@); assert(name@.subrange(0, p) =~= \"Total \"@); assert(name@.subrange(p, name@.len() as int) =~= stripped@); }")])
    return u

def loading(u):
    u.trust("serde_json parses a text into a TraceDataObject or reports an error (the derived Deserialize of the CTF types)", r"""
pub type CtfParseError = Opaque; pub type StackFrame = Opaque; pub type Sample = Opaque;
#[verifier::external_body] pub struct Events {}
impl Events {
    pub uninterp spec fn view(&self) -> Seq<TraceEvent>;
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] pub fn into_vec(self) -> (r: Vec<TraceEvent>) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn vx_default() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
}
impl Args { #[verifier::external_body] pub fn vx_default() -> (r: Self) ensures r@ == Map::<Seq<char>, Value>::empty() { unimplemented!() } }
""".replace("pub ", ""))
    u.item(C, "enum", "DisplayTimeUnit")
    u.item(C, "struct", "TraceDataObject")
    u.raw(r"""
spec fn bare(o: TraceDataObject) -> bool { o.displayTimeUnit is ms && o.systemTraceEvents is None && o.powerTraceAsString is None && o.stackFrames is None && o.samples is None && o.controllerTraceDataKey is None }
uninterp spec fn json_of(s: Seq<char>) -> Option<TraceDataObject>;
#[verifier::external_body] fn vx_json(s: &str) -> (r: Result<TraceDataObject, CtfParseError>) ensures match json_of(s@) { Some(o) => r == Ok::<TraceDataObject, CtfParseError>(o), None => r is Err } { unimplemented!() }
#[verifier::external_body] fn vx_is_default(o: &TraceDataObject) -> (r: bool) ensures o.traceEvents@.len() == 0 && o.extra@ == Map::<Seq<char>, Value>::empty() ==> r == bare(*o) { unimplemented!() }
""")
    u.trust("HashMap<Box<str>, GlobalStat> as documented by std", r"""
#[verifier::external_body] struct Stats {}
impl Stats {
    uninterp spec fn view(&self) -> Map<Seq<char>, (T, int)>;
    #[verifier::external_body] fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, (T, int)>::empty() { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: Text, v: GlobalStat) -> (r: Option<GlobalStat>)
        ensures final(self)@ == old(self)@.insert(k@, (v.total_duration, v.count as int)), r is Some == old(self)@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body] fn vx_get(&self, k: &Text) -> (r: GlobalStat) requires self@.contains_key(k@) { unimplemented!() }
}
""")
    u.trust("ActivityTreeBuilder and ActivityTree: insert appends an activity or rejects it, build keeps the activities (decided by C01-C03)", r"""
#[verifier::external_body] struct ActivityTreeBuilder {}
#[verifier::external_body] struct ActivityTree {}
type ActivityTreeError = Opaque;
uninterp spec fn fits(a: Seq<Act>, b: Act) -> bool;   // C02 says when
impl ActivityTree { uninterp spec fn view(&self) -> Seq<Act>; }
impl ActivityTreeBuilder {
    uninterp spec fn view(&self) -> Seq<Act>;
    #[verifier::external_body] fn with_capacity(n: usize) -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, s: ActivityStat) -> (r: Result<(), ActivityTreeError>)
        ensures r is Ok == fits(old(self)@, act(s)), r is Ok ==> final(self)@ == old(self)@.push(act(s)) { unimplemented!() }
    #[verifier::external_body] fn build(self) -> (r: ActivityTree) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] fn vx_string() -> String { unimplemented!() }
#[verifier::external_body] struct EntityParser {}
impl EntityParser { #[verifier::external_body] fn new() -> EntityParser { unimplemented!() } }
""")
    u.item(L, "enum", "ClangTraceParseError")
    u.item(L, "struct", "ClangTrace")
    u.raw(r"""
// ---- C11: what a whole trace contains, None if it is rejected ----
struct St { acts: Seq<Act>, stats: Map<Seq<char>, (T, int)>, process: Option<Seq<char>>, thread: Option<Seq<char>>, pid: Option<i32> }
spec fn st0() -> St { St { acts: seq![], stats: Map::empty(), process: None, thread: None, pid: None } }
spec fn gt1(t: T) -> bool { t.rank@ > t_lit1().rank@ }
spec fn add_pid(s: St, p: i32) -> Option<St> { if s.pid is None || s.pid == Some(p) { Some(St { pid: Some(p), ..s }) } else { None } }
spec fn step(s: St, e: TraceEvent) -> Option<St> {
    match e {
        TraceEvent::X { duration_event: d, dur, tdur, end_stack_trace } => match add_pid(s, d.pid) { None => None, Some(s) =>
            if gt1(d.ts) { match activity_of(d, dur, tdur, end_stack_trace) { Some(a) => if fits(s.acts, a) { Some(St { acts: s.acts.push(a), ..s }) } else { None }, None => None } }
            else { match stat_of(d, dur, tdur, end_stack_trace) { Some(g) => if s.stats.contains_key(g.name) { None } else { Some(St { stats: s.stats.insert(g.name, (g.total, g.count)), ..s }) }, None => None } } },
        TraceEvent::M(m) => match m {
            MetadataEvent::process_name { pid, .. } => match add_pid(s, pid) { None => None, Some(s) => match process_of(m) { Some(n) => if s.process is None { Some(St { process: Some(n), ..s }) } else { None }, None => None } },
            MetadataEvent::thread_name { pid, .. } => match (if pid is Some { add_pid(s, pid->0) } else { Some(s) }) { None => None, Some(s) => match thread_of(m) { Some(n) => if s.thread is None { Some(St { thread: Some(n), ..s }) } else { None }, None => None } },
            _ => None },
        _ => None,
    }
}
spec fn run(e: Seq<TraceEvent>, k: int) -> Option<St> decreases k { if k <= 0 { Some(st0()) } else { match run(e, k - 1) { None => None, Some(s) => step(s, e[k - 1]) } } }
proof fn lemma_stuck(e: Seq<TraceEvent>, k: int, n: int) requires 0 <= k <= n, run(e, k) is None, ensures run(e, n) is None decreases n - k { if k < n { lemma_stuck(e, k, n - 1); } }
spec fn begin_of(o: TraceDataObject) -> Option<Option<T>> { if o.extra@.contains_key("beginningOfTime"@) { match num_f(o.extra@["beginningOfTime"@]) { Some(t) => Some(Some(t)), None => None } } else { Some(None) } }
spec fn text_is(t: Option<Text>, w: Option<Seq<char>>) -> bool { match t { Some(t) => w == Some(t@), None => w is None } }
spec fn holds(t: ClangTrace, s: St, b: Option<T>) -> bool {
    t.activities@ == s.acts && t.global_stats@ == s.stats && s.process == Some(t.process_name@) && text_is(t.thread_name, s.thread)
    && t.pid == (if s.pid is Some && s.pid->0 > 1 { s.pid } else { None }) && t.beginning_of_time == b
}
spec fn loaded(t: ClangTrace, o: TraceDataObject) -> bool {
    bare(o) && begin_of(o) is Some && (run(o.traceEvents@, o.traceEvents@.len() as int) matches Some(s) && s.process is Some && holds(t, s, begin_of(o)->0))
}
spec fn rejected(o: TraceDataObject) -> bool {
    !bare(o) || begin_of(o) is None || (match run(o.traceEvents@, o.traceEvents@.len() as int) { Some(s) => s.process is None, None => true })
}
""")
    u.fn(L, "from_str", impl="ClangTrace", trait="FromStr", closure=("merge_pid", "curr_pid: &mut Option<Pid>, proposed_pid: Pid"), header="impl ClangTrace",
         sig="fn merge_pid(curr_pid: &mut Option<Pid>, proposed_pid: Pid) -> (r: Result<(), ClangTraceParseError>)",
         contract="ensures match *old(curr_pid) { None => r is Ok && *final(curr_pid) == Some(proposed_pid), Some(p) => *final(curr_pid) == *old(curr_pid) && r is Ok == (p == proposed_pid) },")
    up = lambda t, e: (t + "?", f"(match {t} {{ Ok(x) => x, Err(e) => return Err(ClangTraceParseError::{e}(e)) }})", "error conversion written out")
    u.fn(L, "from_str", impl="ClangTrace", trait="FromStr", ret="r", header="impl ClangTrace", lifted=["merge_pid"],
         attrs="#[verifier::loop_isolation(false)]",
         rewrites=[("Self::Err", "ClangTraceParseError", "associated type"), ("Box::default()", "Events::vx_default()", "trusted std function"), ("HashMap::default()", "Args::vx_default()", "trusted std function"),
            ("$i_a != TraceDataObject::default()", "!vx_is_default(&$i_a)", "trusted derived equality"), ("HashMap::new()", "Stats::new()", "trusted std function"),
            ("merge_pid($a, $b)", "Self::merge_pid($a, $b)", "lifted closure"),
            up("ActivityStat::parse($a)", "ActivityStatParseError"), up("activities.insert($a)", "ActivityTreeError"), up("GlobalStat::parse($a)", "GlobalStatParseError"),
            ("global_stats[&$i_a].clone()", "global_stats.vx_get(&$i_a)", "trusted std function"),
            ("metadata::parse_process_name($a)?", "(match parse_process_name($a) { Ok(x) => x, Err(e) => return Err(ClangTraceParseError::NameParseError(e)) })", "error conversion written out"),
            ("metadata::parse_thread_name($a)?", "(match parse_thread_name($a) { Ok(x) => x, Err(e) => return Err(ClangTraceParseError::NameParseError(e)) })", "error conversion written out"),
            ("$i_a.filter(|&$i_x| $f)", "(match $i_a { Some($i_x) => if $f { Some($i_x) } else { None }, None => None })", "Option::filter spelled out"),
            ("String::new()", "vx_string()", "not looked into")],
         contract="ensures match json_of(s@) { None => r is Err, Some(o) => match r { Ok(t) => loaded(t, o), Err(_) => rejected(o) } },",
         start="let ghost oj = json_of(s@);",
         loops=[dict(kw="for", it="it", before="let ghost ev = profile_ctf.traceEvents@; let ghost mut cur = st0();", inv=r"""
            invariant it.seq() == ev, 0 <= it.index@ <= ev.len(), run(ev, it.index@ as int) == Some(cur),
                activities@ == cur.acts, global_stats@ == cur.stats, text_is(process_name, cur.process), text_is(thread_name, cur.thread), clang_pid == cur.pid,
            """, start="let ghost cur0 = cur; proof { let k = it.index@ as int; assert(event == ev[k]); if step(cur, event) is None { assert(run(ev, k + 1) is None); lemma_stuck(ev, k + 1, ev.len() as int); } else { cur = step(cur, event)->0; assert(run(ev, k + 1) == Some(cur)); } }")])
    return u

def make_load():
    u = base("trace_loading")
    arguments(u)
    events(u)
    loading(u)
    return u
