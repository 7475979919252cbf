"""The properties (source of properties.jsonl)."""
HOOKS = dict(guard="--cfg crofiler_verif (and --cfg crofiler_verif_measure for the internals of build measurement)", enable="RUSTFLAGS='--cfg crofiler_verif' CROFILER_VERIF=/verif/hooks cargo build; RUSTFLAGS='--cfg crofiler_verif_measure' likewise", source_commits=["c7cc13d", "a6aa2a2", "36ce03f", "3cf6bdd"])
NA = {}
PL = [
 dict(id="C01", title="The activity tree nests exactly as the activities ran",
  statement="For every accepted trace, the descendants of an activity are exactly those that ran within it: the uninterrupted run of activities listed just before it (so ended no later) that start no earlier than it does, zero-length and touching ones included. So each activity is contained in the time span of each of its ancestors, and what is not among the descendants of an activity and is listed earlier was over when it started. Parent, direct children, all children, root and whole-trace queries describe one and the same tree, in which each activity occurs once, with the name and times found in the trace.",
  over=["inputs"], text="every sequence of timed activities, of any length and nesting, touching and zero-length ones included",
  why="The unit tests build a handful of trees of at most a few nodes; nesting must hold for every forest, in particular for siblings that touch and for deep right spines.",
  files=["clang-time-trace/src/tree.rs", "clang-time-trace/src/lib.rs"],
  mech=[("tree construction", "clang-time-trace/src/tree.rs ActivityTreeBuilder::insert, build"), ("traversal", "clang-time-trace/src/tree.rs ActivityTree, lib.rs ActivityTrace")],
  state=[("stored subtree", "activities in end order with the index of the first descendant and of the parent", "clang-time-trace/src/tree.rs")],
  observe=["ClangTrace::all_activities, root_activities, ActivityTrace::{parent, direct_children, all_children}"]),
 dict(id="C02", title="A trace is accepted exactly if its activities are ordered and nested",
  statement="A sequence of activities is accepted if and only if end times never go back and no activity starts before and ends after the start of an activity that is listed later. Anything else is reported as an error, never silently stored in a tree.",
  over=["inputs"], text="every sequence of timed activities",
  why="Tests try a few bad orders; straddling an activity deep below the current one, or one that touches it, needs particular combinations.",
  files=["clang-time-trace/src/tree.rs"], mech=[("order and nesting checks", "clang-time-trace/src/tree.rs ActivityTreeBuilder::insert")],
  observe=["ClangTrace::from_str"]),
 dict(id="C03", title="Self time is the duration minus the direct children",
  statement="For every activity of every accepted trace, the time attributed to the activity itself is its duration minus the sum of the durations of its direct children, and of nothing else. Up to floating-point rounding, this makes the self times of a subtree add up to the duration of its root.",
  over=["inputs"], text="every accepted sequence of activities",
  why="Tests check one small tree; grandchildren or earlier siblings counted by mistake need particular shapes.",
  files=["clang-time-trace/src/tree.rs", "clang-time-trace/src/lib.rs"], mech=[("self duration", "clang-time-trace/src/tree.rs, lib.rs ActivityTrace::self_duration")],
  observe=["ActivityTrace::self_duration"]),
 dict(id="C04", title="Interning keys stand for contents, forever",
  statement="In every history of interning items and sequences (also ones built item by item, shortened or abandoned), two keys are equal exactly if what was interned is equal, and every key handed out keeps reading back its content, also after the collection is copied or made read-only. An abandoned or already known sequence leaves nothing behind, so the reported counts are those of the distinct contents.",
  over=["histories"], text="every sequence of intern, entry, push, pop, commit and abandon operations over every item type, hash collisions included",
  why="Tests run at most two operations on booleans; a stale or shared storage range needs longer histories, and hash collisions do not occur in them.",
  files=["asylum/src/lib.rs", "asylum/src/sequence.rs"], mech=[("item interner", "asylum/src/lib.rs Interner::intern"), ("sequence interner and entry", "asylum/src/sequence.rs SequenceInterner, SequenceEntry")],
  state=[("table", "hash table of keys whose contents live in one vector", "asylum/src/sequence.rs SequenceInterner")],
  observe=["Interner, SequenceInterner, SequenceEntry, InternedSequences"]),
 dict(id="C05", title="Sequence keys pack and unpack losslessly, or refuse",
  statement="For every key width and number of length bits, a key built from a storage range unpacks to exactly that range, and different ranges get different keys. A range gets a key exactly if its length and its offset fit the bit budget; otherwise packing is refused instead of wrapping around.",
  over=["inputs", "configurations"], text="every range with start <= end, every key type and every number of length bits below 64",
  why="Tests try a few boundary ranges for 8-bit keys and one 32-bit configuration.",
  files=["asylum/src/sequence.rs"], mech=[("bit packing", "asylum/src/sequence.rs SequenceKey::{try_from_impl_key, into_impl_key}")],
  observe=["SequenceKey as InternerKey"]),
 dict(id="C06", title="Paths are normalised the same way and never lose their root",
  statement="Interning an absolute path drops `.` and empty segments, lets `..` remove the segment before it but never the root, and keeps everything else in order; relative paths are refused and leave the collection as it was. Two paths get the same key exactly if their normalised segments are the same, and the key reads back exactly these segments; paths of one collection compare equal exactly when their keys are the same.",
  over=["inputs", "histories"], text="every path text, in every order of interning",
  why="Tests intern a few fixed paths; runs of `..` at and beyond the root, and interactions with earlier paths, are open.",
  files=["asylum/src/path.rs"], mech=[("normalisation", "asylum/src/path.rs PathInterner::intern"), ("reading back", "asylum/src/path.rs InternedPath::components")],
  observe=["PathInterner::intern, InternedPath::components, to_boxed_path"]),

 dict(id="C07", title="Texts shown on one line fit, and are cut in the middle only as far as needed",
  statement="A text argument shown on a single line (display_string) appears unaltered if its terminal width, as estimated by the unicode-width crate, is at most the number of columns available (one or more). Otherwise exactly this appears: the longest run of whole grapheme clusters from its beginning whose widths add up to no more than half, rounded down, of the columns left after reserving one for the ellipsis; an ellipsis; and the longest run of whole graphemes from its end whose widths add up to no more than the columns that are then left. The result is never wider than the columns available, and nothing panics. Multi-line display never alters a text.",
  over=["inputs", "configurations"], text="every text without line feeds, every column budget from 1 to 65535",
  why="The unit test shortens one ASCII sentence to six widths; wide, combining and zero-width characters at the cut, and every other budget, are open.",
  files=["src/ui/display/mod.rs"], mech=[("truncation", "src/ui/display/mod.rs display_string")],
  observe=["display_string, through the activity names of the stdio and TUI displays"], hook="cfg crofiler_verif: ui::verif"),
 dict(id="C08", title="Paths shown on one line fit, and keep as many whole segments as fit",
  statement="A file path shown on a single line (display_path) is never wider than the columns available (one or more), and nothing panics. If its file name fits together with a preceding ellipsis and separator, what appears is made of whole segments: the path in full, or its first segments, an ellipsis in place of the others and its last segments, at least the file name, such that neither one more segment at the front nor one more at the back would fit. It appears in full, with the usual separators, whenever the widths of its segments and separators add up to no more than the columns available and it has at least two segments below the root, all of them visible (a path with one segment, or with zero-width segments, may take one column more). If the file name does not fit, provided there are 17 columns or more, it is shortened in the middle: ellipsis, separator, beginning, ellipsis, end. The beginning is the longest run of whole graphemes that takes at most half (rounded down) of the columns left by these three marks; the end is the longest run of whole graphemes that takes at most the columns still left, where the first grapheme that did not fit at the beginning is not shown at the end either. With fewer columns a lone ellipsis appears. Multi-line display shows the whole path. The root is shown as a single separator.",
  over=["inputs", "configurations"], text="every absolute path, every column budget from 1 to 65535",
  why="The unit tests shorten two or three fixed ASCII paths; deep paths, wide or zero-width characters, and the alternation between both ends near the budget are open.",
  files=["src/ui/display/path.rs"], mech=[("segment selection", "src/ui/display/path.rs select_components"), ("assembly", "src/ui/display/path.rs display_components, truncate_path_iter"), ("file names", "src/ui/display/path.rs display_filename")],
  observe=["display_path, through the path arguments of activities"], hook="cfg crofiler_verif: ui::verif"),
 dict(id="C09", title="Activity descriptions fit their line and give up detail in a fixed order",
  statement="For every activity and every column budget: display_activity_desc on a single line writes nothing and reports NotEnoughCols if the budget cannot hold the activity name plus, if there is an argument, three more columns. Otherwise it writes the name and, in parentheses, the argument as it is displayed within the columns that are left (texts and paths as in C07 and C08; C++ entities at the greatest recursion depth below the first one whose display is too wide, or an ellipsis if even depth 0 is), and nothing at all after the name of an activity without argument. The result is never wider than the budget. Without a limit the full argument is written. The stdio display (display_activity, one column or more) appends the profiling numbers \" [<duration>, <percentage with two decimals>%]\" exactly if the description fits before them, with the description laid out for the columns they leave; else it shows the description alone if that fits; else a lone ellipsis. Nothing panics.",
  over=["inputs", "configurations"], text="every activity and argument of every kind, every duration, every column budget",
  why="The unit test checks seven activities of one trace at a few widths; whether the parts add up for every name, argument, duration and width is open. The stdio display has no tests.",
  files=["src/ui/display/activity.rs", "src/ui/stdio.rs", "cpparser/src/display.rs"], mech=[("description", "src/ui/display/activity.rs display_activity_desc"), ("stdio line", "src/ui/stdio.rs display_activity, display_profile_info"), ("entities", "cpparser/src/display.rs CustomDisplay::bounded_display")],
  observe=["the lines of the stdio profile and of the TUI tables"], hook="cfg crofiler_verif: ui::verif, ui::stdio::verif"),
 dict(id="C10", title="Displayed durations have every field in range and denote the duration",
  statement="For every duration of at least 0 and below 2^53 microseconds: from 86399.995 s on it is shown as days, hours, minutes and seconds (\"3d 04:05:06.78\"), from 3599.995 s as hours, minutes, seconds (\"4:05:06.78\"), from 59.995 s as minutes and seconds (\"5:06.78\"), from 0.999995 s in seconds (\"6.78s\"), from 1 ms in milliseconds (\"7.89ms\"), below in microseconds (\"7µs\"). Seconds after a colon are below 60, minutes below 60, hours below 24; a field after another has two digits, the leading one is not zero and has no leading zero. Seconds and milliseconds have two decimals. The fields add up to the duration up to one hundredth of a second (half a hundredth of a second for plain seconds, 5 microseconds for milliseconds); microseconds are exact. Nothing panics.",
  over=["inputs"], text="every duration of at least 0 and below 2^53 microseconds (285 years)",
  why="Tests try a few values around each threshold; carries through several fields at once, at every multiple of every unit, are open.",
  files=["src/ui/display/duration.rs", "clang-time-trace/src/ctf/mod.rs"], mech=[("field splitting with carries", "src/ui/display/duration.rs display_duration_impl")],
  observe=["display_duration"], hook="cfg crofiler_verif: ui::verif"),
 dict(id="C11", title="Loading a trace yields exactly what the file says, or an error",
  statement="ClangTrace::from_str never panics on any text. It accepts a JSON trace only in the form clang writes: no unit but ms, none of the other standard trace fields, beginningOfTime a number if present; every event an X or M event of one single process. An accepted trace contains one activity per X event with a timestamp above 1, in the order of the file, with the name, start, duration and detail text of the event (known activities have the argument kind listed in stats/activity/mod.rs, unknown ones without detail have none); one global statistic per other X event (timestamp 0, thread id not 0, name starting with \"Total \", arguments exactly count and avg ms), under its name without the prefix, with its duration and count; the process name of the only process_name event, which must exist; the thread name of the thread_name event, if any; the process id if above 1; beginningOfTime. Rejected are: an activity or process_name whose thread id is not the process id (or 0 for process 1), an activity with other arguments than a detail text or with a detail that its kind excludes or without one that it requires, two statistics or metadata events of the same name, X events with a category or with fields of other event kinds, and activities that C02 rejects.",
  over=["inputs", "histories"], text="every text, every sequence of events",
  why="Tests load a few recorded traces and a few single events; combinations and orders of events, and every way in which an event may deviate, are open.",
  files=["clang-time-trace/src/lib.rs", "clang-time-trace/src/stats/", "clang-time-trace/src/metadata.rs", "clang-time-trace/src/ctf/"],
  mech=[("dispatch of events", "clang-time-trace/src/lib.rs ClangTrace::from_str"), ("activities", "clang-time-trace/src/stats/activity/mod.rs Activity::parse, ActivityStat::parse"), ("statistics", "clang-time-trace/src/stats/global.rs"), ("metadata", "clang-time-trace/src/metadata.rs")],
  observe=["ClangTrace and its accessors"]),
 dict(id="C12", title="Activity arguments are read by fixed rules, whatever was read before",
  statement="What RawActivityArgument::parse and resolve yield depends on the kind of the argument and its detail text alone, not on arguments parsed earlier, and keeps resolving to the same thing afterwards. String: the text itself. FilePathOrModule: Module for \"[module]\", else the path normalised as in C06; relative paths are a BadFilePath error. CppEntity: the entity, or a BadCppEntity error if the parser rejects the text. Symbol: after removing one pair of enclosing parentheses, if any, the demangled name (no return type, no types of literal template arguments), as an entity if the parser takes it, else as text; symbols that do not demangle are kept as they are, except that main and __clang_call_terminate are parsed as entities; never an error. UnnamedLoop: only \"<unnamed loop>\" is accepted. Nothing, and SymbolOpt and UnnamedLoopOpt without detail, give Nothing. The detail of an activity of unknown name is taken for: a Symbol, if without enclosing parentheses it starts with _Z, __cxx_global_var_init or _GLOBAL__sub_I_, or is main or __clang_call_terminate; an UnnamedLoop, if it is that text; a FilePathOrModule, if it is an absolute path or \"[module]\"; a CppEntity, if its first character is not uppercase; a String, if it is empty or each of its words (separated by single spaces) is empty, \"&\", \"memcmp()\" or starts and ends with a letter or digit and has in between only letters, digits, -, /, a > that follows a - in between, and a _ that follows an uppercase letter in between; else a CppEntity. (C++ names and symbols beyond ASCII are excluded: the parser is documented not to support them.)",
  over=["inputs", "histories"], text="every kind of argument, every detail text, every sequence of arguments parsed with one trace",
  why="Tests parse one or two details of each kind with a fresh parser; other texts at the borders of the rules and leftovers from earlier arguments are open.",
  files=["clang-time-trace/src/stats/activity/argument.rs"],
  mech=[("inference", "clang-time-trace/src/stats/activity/argument.rs ActivityArgumentType::infer_from_detail"), ("parsing", "argument.rs RawActivityArgument::parse_impl, parse_symbol, parse_entity, parse_unnamed_loop"), ("reading back", "argument.rs ParsedActivityArgument::resolve, ParsedSymbol::resolve")],
  observe=["RawActivityArgument::parse, ParsedActivityArgument::resolve"]),
 dict(id="C13", title="The header about a trace fits its columns and breaks lines only where it must",
  statement="The metadata header (display::metadata::metadata) never panics for one column or more. If \"Data from NAME\" (the process name) is wider than max_cols - 1 columns it is a lone ellipsis. Otherwise it is made of these parts in order: \"Data from NAME\"; \"pid P\" if known; \"thread T\" if known, T being the thread name as Rust's debug formatting quotes it; \"recorded DATE\" if the trace has a beginning of time that RFC 3339 can express (in UTC, to the microsecond). A part other than the first that is wider than max_cols - 1 is replaced by an ellipsis. After each part comes a comma, then a line feed exactly if the comma, a space and the next part would make the current line wider than max_cols - 1, and a space otherwise; after the last part comes a full stop. No line is wider than max_cols. Process names have no line feeds; the width of a line is the sum of the widths of what it is made of.",
  over=["inputs", "configurations"], text="every combination of process name, pid, thread name and beginning of time, every number of columns",
  why="The unit test formats one ASCII header at a few widths; absent parts, abbreviated parts in the middle and names beyond ASCII are open.",
  files=["src/ui/display/metadata.rs"], mech=[("line breaking", "src/ui/display/metadata.rs metadata")],
  observe=["the header of the stdio profile and of the TUI"], hook="cfg crofiler_verif: ui::verif"),
 dict(id="C14", title="Flat profiles list exactly what is hot, in order, and count the rest",
  statement="trace::hottest_activities yields exactly the given activities whose criterion is at least the threshold, by decreasing criterion; trace::activity_type_breakdown yields each activity name of the trace once, with the sum of the self times of the activities of that name, by decreasing sum; trace::duration_norm is 1 divided by the summed durations of the root activities. The stdio profile of a trace whose root activities take time prints on standard output an empty line, the metadata header (C13), a section \"Self-duration breakdown by activity type:\" and a section \"Hottest activities by self-duration:\", laid out for COLS columns (the -c option or the terminal width, whichever is smaller, but at least 3) and with the -s option as threshold T, a percentage of the summed duration of the root activities. The first section has a line \"- NAME [<duration>, <percentage>%]\" for each entry of the breakdown, in order, as long as they are not below T, and then, if entries are left, \"- ... and N other activity types below T% ...\". The second section has, by decreasing self time, one line for each activity whose self time is at least T: \"- \" and the activity as in C09 with its self time, laid out for COLS - 2 columns; and then, if N > 0 activities are left, \"- ... and N other activities below T% ...\". T is printed with two decimals. An argument that cannot be parsed is shown as its plain text. Nothing panics, and a trace that does not load prints nothing on standard output.",
  over=["inputs", "configurations"], text="every accepted trace whose root activities take time, every number of columns, every threshold",
  why="The unit tests compare the leading entries of one recorded trace and nothing tests the stdio program: ties, thresholds that leave out all or nothing, counts of the rest, narrow terminals and unparsable arguments are open.",
  files=["src/trace.rs", "src/ui/stdio.rs", "src/ui/mod.rs"],
  mech=[("analysis", "src/trace.rs hottest_activities, activity_type_breakdown, duration_norm"), ("printing", "src/ui/stdio.rs run, print_activity_type_profile, print_flat_profile"), ("arguments", "src/ui/mod.rs force_parse_arg")],
  observe=["standard output of crofiler --ui stdio"], hook="cfg crofiler_verif: stdio::verif, ui::verif"),
 dict(id="C15", title="The hierarchical profile shows every root and its hottest callees, by level",
  statement="The section \"Hierarchical profile:\", last of the stdio profile of a trace whose root activities take time, has one tree per root activity, in the order of the trace, each followed by an empty line. The first line of a tree is the root activity, displayed as in C09 with its duration for COLS columns (as in C14). A node displayed for C columns has no children if C is at most 2. Otherwise its children are, by decreasing duration, exactly those direct children of the activity whose duration is at least T (the -i option, a percentage of the summed durations of the root activities), each displayed in the same way for C - 2 columns; and then, if N > 0 direct children are left, \"…N callee(s) below T%…\" (T with two decimals), or a lone ellipsis where that is wider than C - 2 columns. Each level takes two columns of tree drawing to the left, and no line is wider than COLS. An argument that cannot be parsed is shown as its plain text. Nothing panics.",
  over=["inputs", "configurations"], text="every accepted trace whose root activities take time, every number of columns, every threshold",
  why="Nothing tests the stdio program; several roots, deep trees in few columns, ties and thresholds that leave out all or nothing are open.",
  files=["src/ui/stdio.rs", "src/trace.rs", "src/ui/mod.rs"],
  mech=[("recursion", "src/ui/stdio.rs hierarchical_profile_tree"), ("roots", "src/ui/stdio.rs print_hierarchical_profile, run"), ("selection", "src/trace.rs hottest_activities")],
  observe=["standard output of crofiler --ui stdio"], hook="cfg crofiler_verif: stdio::verif, ui::verif"),
 dict(id="C16", title="The compilation database is read as it stands, and commands as a shell would",
  statement="CompilationDatabase (cmakeperf) keeps, of the entries of a database in order, the last one for every input file (paths compared as std compares them), whether loaded from JSON or given to from_entries; entries() lists exactly those, each once, and entry(path) is the one whose input is that path, or None. push adds an entry for a new input (it panics for one that is already there), clear leaves none. load() is FileNotFound exactly if compile_commands.json does not exist in the working directory, another I/O error is an IoError, and text that is not a JSON list of entries with exactly the fields directory, command, file and optionally output (all of them strings) is a ParseError. For every entry, current_dir, raw_command and input are the fields as they were given; program() is the first and args() are the other words of the command as a POSIX shell splits it; output() is the output field if there is one; otherwise the word that follows the first argument -o (the program not being an argument), None if there is none or if it has no file name, and else: the directory joined with the parent of that word, canonicalized if that is possible, joined with its file name.",
  over=["inputs", "histories"], text="every sequence of entries, every command text, every sequence of operations",
  why="Tests try one database and three commands; repeated inputs, quoting, several or dangling -o, and outputs in directories that do or do not exist are open.",
  files=["cmakeperf/src/commands.rs"], mech=[("database", "cmakeperf/src/commands.rs CompilationDatabase"), ("commands", "cmakeperf/src/commands.rs DatabaseEntry::{program, args, output}")],
  observe=["CompilationDatabase, DatabaseEntry"]),
 dict(id="C17", title="A build product is called outdated exactly if an input is newer",
  statement="profile_freshness (for all inputs of the database) and derived_freshness (for the input of one entry) compare the modification time of a build product with those of compile_commands.json in the working directory and of the inputs: Nonexistent if the product does not exist (NotFound); an error if its time cannot be had for another reason; otherwise, looking at the database and then at the inputs, Outdated at the first one that is strictly newer than the product, an error at the first one whose time cannot be had; and if there is neither, MaybeOutdated with the age of the product, or without one if it is from the future. Equal times are not outdated. exists() is false for Nonexistent only.",
  over=["inputs", "configurations"], text="every set of inputs and every state of their files",
  why="Tests touch one input at a time; the order of errors and outdated inputs, equal times, a missing input and products from the future are open.",
  files=["cmakeperf/src/commands.rs"], mech=[("comparison", "cmakeperf/src/commands.rs CompilationDatabase::product_freshness, profile_freshness; DatabaseEntry::derived_freshness; ProductFreshness::exists")],
  observe=["profile_freshness, derived_freshness, ProductFreshness"]),
 dict(id="C18", title="A build profile is read completely, or not at all",
  statement="output::load (cmakeperf) yields the records of a build profile (CSV with the columns file, max_rss and optionally time), all of them and in order, or an error: FileNotFound exactly if the file does not exist, ParseError if it cannot be read or if any record is malformed. rel_path and max_rss_bytes are what was recorded. wall_time is None exactly if no time was recorded; Some(Err(t)) with the recorded t, bit by bit, exactly if t is not a number from 0 to 2^64; and otherwise a duration with exactly the whole seconds of t, and with nanoseconds less than 64 away from the fraction of t. A unit profile made by UnitProfile::new holds the given path and memory size, and the given time in seconds rounded to f32, also after having been written to a CSV file by serde and loaded.",
  over=["inputs"], text="every file content, every time (all f32 bit patterns)",
  why="Tests read two small files; NaN, infinities, negative and huge times, rounding of fractions, and files that cannot be read are open.",
  files=["cmakeperf/src/output.rs"], mech=[("loading", "cmakeperf/src/output.rs load, from_csv_reader"), ("times", "cmakeperf/src/output.rs UnitProfile::wall_time, new")],
  observe=["output::load, UnitProfile"]),
 dict(id="C19", title="Exactly the workers that have been stopped are told to stop",
  statement="StopFlags (cmakeperf): all n >= 1 workers of a new set of stop flags are active. StopServer::stop(i) makes worker i inactive, and no other, and panics if it is inactive already; stop_all makes all of them inactive; none ever becomes active again. num_active is the number of active workers, enumerate_active yields exactly their indices, in ascending order. StopFlags::clients, called on new flags, yields n clients, and must_stop of the i-th one says at any time whether worker i is inactive.",
  over=["inputs", "histories"], text="every number of workers, every sequence of stops",
  why="Unit tests stop one or two random workers out of up to 255; which flags are left when words run empty or only their last bits are set is open.",
  files=["cmakeperf/src/measure/mod.rs", "cmakeperf/src/measure/main.rs", "cmakeperf/src/measure/worker.rs"], mech=[("flags", "cmakeperf/src/measure/mod.rs StopFlags"), ("server", "cmakeperf/src/measure/main.rs StopServer"), ("clients", "cmakeperf/src/measure/worker.rs StopClient")],
  state=[("flags", "one bit per worker in words of 64, set while the worker is active", "cmakeperf/src/measure/mod.rs StopFlags")],
  observe=["StopServer::{num_active, enumerate_active}, StopClient::must_stop"]),
 dict(id="C20", title="The out-of-memory killer kills workers with least work done, no more than needed",
  statement="MonitorServer::update (cmakeperf) looks at the system, then, if more memory was used up since it last looked than the margin, raises the margin to (used / threads + 1) * threads; then, as long as less memory is available than the margin, stops the active worker with the lowest counter (of several, the one with the lowest index) and lowers the margin to margin / threads * (threads - 1), with integer division, where threads is the number of active workers plus that of assumed background threads before the stop. It returns KilledEveryone exactly if no active worker is left, else Running. So nobody is stopped while as much memory is available as the margin, no survivor has a lower counter than one that was stopped, and work goes on only with enough memory. The margin starts at 100 MB times workers and assumed background threads. The counter of a worker is zero when it starts a job (MonitorClient::switch_job) and goes up by one whenever it looks at the system while the job runs (keep_job); both fail, and leave it, exactly if the worker has been stopped. Counters and stop flags of different workers are separate.",
  over=["inputs", "histories"], text="every number of workers, every state of their counters and of memory, every sequence of updates",
  why="The unit test forces one kill per update with margins that it sets itself; ties, several kills in one update, raised margins and the end of work are open.",
  files=["cmakeperf/src/measure/main.rs", "cmakeperf/src/measure/worker.rs", "cmakeperf/src/measure/mod.rs"], mech=[("killer", "cmakeperf/src/measure/main.rs MonitorServer"), ("counters", "cmakeperf/src/measure/worker.rs MonitorClient, cmakeperf/src/measure/mod.rs Monitor")],
  state=[("margin", "memory that has to be available, memory available at the last look", "cmakeperf/src/measure/main.rs MonitorServer"), ("counters", "one per worker", "cmakeperf/src/measure/mod.rs Monitor")],
  observe=["MonitorServer::update, active stop flags, margin"]),
 dict(id="C21", title="A measured build is complete: each job run, recorded, counted once, or an error",
  statement="Measurement::start (cmakeperf) runs the command of every entry of the database, in its working directory, with its arguments, with empty standard input and with any amount and encoding of output. build_done is called once, step_done once per finished job and not after build_done. If the result is Ok, the profile holds exactly one record per entry, in the order in which they were finished, each with the path of the input relative to the current directory (if there is such a path), a time exactly if that was asked for, covering the time from before the command starts until after it has ended, and the largest memory use seen of the process of the command and all its descendants, threads not counted twice. The number of commands that run at once is at most the given concurrency, or without one, 1 if time is measured and else the number of CPU threads. A command that fails (by exit status or signal), cannot be started, or is empty makes the result Err(Job). A job whose worker is stopped for lack of memory has its processes terminated and is run again by another worker; OutOfMemory is the result if all are stopped. Dropping the Measurement makes it end soon with Err(Killed), with the processes of all running jobs, descendants included, terminated. No job is lost, left over or handed out twice between workers: a worker ends only when all queues were empty after the end of work was announced, or when its job was not completed.",
  over=["inputs", "schedules", "histories"], text="every database, every configuration, every order of messages, every process tree",
  why="Integration tests measure one small build without failures, kills, children or output.",
  files=["cmakeperf/src/measure/main.rs", "cmakeperf/src/measure/worker.rs", "cmakeperf/src/measure/mod.rs"],
  mech=[("main thread", "cmakeperf/src/measure/main.rs run, concurrency"), ("workers", "cmakeperf/src/measure/worker.rs run, process_job, start_job, report_process"), ("process tree", "cmakeperf/src/measure/worker.rs ProcessTree"), ("work queue", "cmakeperf/src/measure/main.rs WorkSender; worker.rs WorkReceiver; mod.rs WorkQueue")],
  state=[("queues", "jobs not yet taken by a worker", "cmakeperf/src/measure/mod.rs WorkQueue"), ("futex", "changes whenever there is something new", "cmakeperf/src/measure/mod.rs WorkQueue::futex")],
  observe=["profile file, callbacks, processes"]),
 dict(id="C22", title="C++ entities are shown in full to the depth they announce, and elided above it",
  statement="For an entity parsed with cpparser's EntityParser, and for each of its parts, display(&DisplayState::new(r)) is its text with every list nested more than r levels deep elided and nothing else changed. Lists are template parameters, call arguments, function parameters, the scopes of a name, the declarators of a type and the trailer of a value (operators, calls, indices and members that follow it). The items of a list lie one level below the entity it belongs to, all other parts (qualifiers, the id of a name, operands, noexcept expressions, conversion types, sizes of arrays, trailing return types and so on) on its own level. A list with items that may not be entered any more is shown as … between its delimiters, an empty one in full; scopes are elided along with a leading ::, as …::, parameters along with a final ..., and parameters that are only ... are not elided. recursion_depth() is the number of levels (0 without non-empty lists, else one more than the highest among the items), so from r = recursion_depth() on the text is that of to_string(), which shows every part, in the order in which C++ has them. Displaying leaves the DisplayState as it was.",
  over=["inputs"], text="every entity, every part of it, every recursion limit",
  why="Unit tests show single entities of each kind at two or three limits; an announced depth that forgets one part only shows for entities that nest deepest in that very part.",
  files=["cpparser/src/display.rs", "cpparser/src/interning/slice.rs", "cpparser/src/subparsers/types/mod.rs", "cpparser/src/subparsers/types/declarators.rs", "cpparser/src/subparsers/types/specifiers/mod.rs", "cpparser/src/subparsers/functions.rs", "cpparser/src/subparsers/templates.rs", "cpparser/src/subparsers/names/scopes.rs", "cpparser/src/subparsers/names/unqualified.rs", "cpparser/src/subparsers/values/mod.rs", "cpparser/src/subparsers/values/literals.rs", "cpparser/src/subparsers/operators/mod.rs", "cpparser/src/subparsers/operators/usage.rs", "cpparser/src/subparsers/operators/overloads.rs", "cpparser/src/subparsers/anonymous.rs"],
  mech=[("limits", "cpparser/src/display.rs DisplayState"), ("lists", "cpparser/src/interning/slice.rs SliceView"), ("views", "recursion_depth and display_impl of every view in cpparser/src/subparsers")],
  state=[("limit", "levels that may still be entered", "cpparser/src/display.rs DisplayState")],
  observe=["CustomDisplay::{display, recursion_depth}, Display"]),
 dict(id="C23", title="C++ entity names are read as what they spell",
  statement="EntityParser::parse_entity reads names as they are written. An ASCII text that it accepts is spelled by what it returns: without white space, to_string() of the entity has the same symbols, identifiers, keywords, numbers and characters in the same order, except that class, struct, enum, union and typename before a name, integer suffixes made of u, l and z, prefixes of character literals, qualifiers before a template parameter list, qualifiers and reference marks before a ::, an attribute without content, signs and zeros that do not change a number, and doubled separators and . parts of source paths are left out; that C arithmetic types (long unsigned int), const and volatile in any order or number, the ways of writing restrict, escapes of characters, and unnamed/anonymous get one spelling each; and that <unknown> is the entity without a name (None). Words are read whole: a keyword is not recognized in a longer identifier. C arithmetic types are recognized in any valid order of their words (__int128 and _Complex included) and name the type which C gives to these words. Names spelled as to_string() would spell them are accepted, and shown unchanged: types with pointers, references, arrays and function parts, template arguments that are types or values, names with scopes, destructors, operators of every kind (conversions, literals, new, delete, co_await, <=>), decltype, lambdas, anonymous and unnamed entities with their source locations, and values made of literals, names, casts, unary, binary, ternary, postfix and member operators, calls, indices, sizeof, new. With one parser, two names get equal keys exactly if they are shown alike, whatever was parsed before and in between. No ASCII text makes the parser panic.",
  over=["inputs", "histories"], text="every ASCII text, every sequence of names given to one parser",
  why="Unit tests read a handful of texts per grammar rule; texts that a rule takes for something else, word orders, and names parsed while others are being interned are not enumerable.",
  files=["cpparser/src/lib.rs", "cpparser/src/interning/recursion.rs", "cpparser/src/subparsers/types/mod.rs", "cpparser/src/subparsers/types/declarators.rs", "cpparser/src/subparsers/types/qualifiers.rs", "cpparser/src/subparsers/types/specifiers/mod.rs", "cpparser/src/subparsers/types/specifiers/legacy.rs", "cpparser/src/subparsers/functions.rs", "cpparser/src/subparsers/templates.rs", "cpparser/src/subparsers/names/atoms.rs", "cpparser/src/subparsers/names/scopes.rs", "cpparser/src/subparsers/names/unqualified.rs", "cpparser/src/subparsers/values/mod.rs", "cpparser/src/subparsers/values/literals.rs", "cpparser/src/subparsers/operators/mod.rs", "cpparser/src/subparsers/operators/usage.rs", "cpparser/src/subparsers/operators/overloads.rs", "cpparser/src/subparsers/anonymous.rs"],
  mech=[("grammar", "parse_*_imut methods in cpparser/src/subparsers"), ("words", "keyword_parser, identifier in cpparser/src/subparsers/names/atoms.rs"), ("interning while parsing", "cpparser/src/interning/recursion.rs")],
  state=[("interned parts", "every part of a name once, under one key", "cpparser/src/lib.rs EntityParser")],
  observe=["EntityParser::{parse_entity, entity}, Display of EntityView"]),
 dict(id="C24", title="The text interface's processing thread answers every request afresh",
  statement="ProcessingThread (src/ui/tui/processing.rs) answers each request from the file that was loaded last and from nothing else: not from earlier requests, widths, or traces, however often one was loaded, successfully or not. start_load_trace calls its callback exactly once, with Ok(()) if ClangTrace::from_file accepts the file and with its error otherwise; several loads are answered in the order in which they were asked for. While a trace is loaded (the last load succeeded), get_root_activities, get_all_activities, get_direct_children and get_all_children list the root activities, all activities, the direct children and all descendants of the activity that is asked about, in the order of the trace, each with its id, duration, self-duration, and has_children exactly if it has direct children. describe_activities gives one text per id, in the order of the ids, repeated ones included: the one-line description of C09 for the given number of columns (no profiling numbers), or a lone ellipsis if the name, and three more columns if there is an argument, do not fit. describe_activity gives the full description of C09, to be wrapped (true). describe_trace is the header of C13 for the given number of columns (one or more). An argument that cannot be parsed is shown as its plain text. Nothing panics.",
  over=["inputs", "histories"], text="every history of requests about any files, ids of the loaded trace and widths",
  why="The thread has no tests at all (FIXME in the source); what its caches of parsed arguments and descriptions keep only shows after several requests, changes of width, or another load.",
  files=["src/ui/tui/processing.rs", "src/ui/mod.rs"],
  mech=[("thread", "src/ui/tui/processing.rs worker, reply"), ("descriptions", "src/ui/tui/processing.rs describe_activities, describe_activity; src/ui/mod.rs force_parse_arg"), ("lists", "src/ui/tui/processing.rs activity_list"), ("client", "src/ui/tui/processing.rs ProcessingThread")],
  state=[("trace", "last loaded trace, if any", "src/ui/tui/processing.rs worker"), ("caches", "parsed arguments of the trace, descriptions for the last width", "src/ui/tui/processing.rs worker")],
  observe=["methods of ProcessingThread"], hook="cfg crofiler_verif: tui::verif"),
 dict(id="C25", title="Profiles in the text interface show the trace, whatever keys were pressed",
  statement="In the text interface (src/ui/tui), on a terminal of 50 columns or more, after a trace was loaded the screen shows its hierarchical profile, and after every key what follows holds. A hierarchical profile has one row per root activity (or per direct child of the activity zoomed on), a flat one (F switches between the two, both ways) one row per activity (or descendant of it). Each row shows the activity's duration (hierarchical profiles only), its self-duration, and the one-line description of C09 for W-16 columns (flat), or, after a + if it has children and a space if not, for W-31 columns (hierarchical), where W is the width of the terminal. Durations are shown, with two decimals and a %, as percentages of the total duration of all root activities (titles %Total, Self; flat: Self%Tot), or of the activity zoomed on (at the root: the same total; titles %Parent, Self; flat: Self%Par), 0.00% where that is zero, or as times as in C10 (titles Time, Self; flat: SelfTime): U goes from each to the next and from the last to the first, for all levels at once and without changing order or selected row. Rows are ordered by the column and direction chosen last, at all levels and in profiles opened later; each column keeps the direction it was last sorted in; at first it is total duration, longest first, and a flat profile uses self-duration where total duration was chosen; descriptions start in ascending order, durations in descending order. Enter on a row opens a profile of its children if it starts with +, and else does nothing; Esc goes back one level, and from the first leaves the profile if there is anything below it; B lists the levels, and choosing the k-th from the top goes back to it (the levels below stay, selection included); H and Q open dialogs that Esc closes, and do nothing while a dialog is open. Below the table is the full description of C09 of the selected row (nothing if there are no rows), as far as it fits, and below that the header of C13 for W columns, followed by `Press H for help.`. A trace loaded later starts anew with percentages of its own total, and with the order that was chosen last. Nothing panics: not for traces without activities or of zero duration, and not on terminals of any smaller width.",
  over=["inputs", "histories"], text="every trace, width of the terminal and sequence of these keys",
  why="The text interface has no tests; order, units and levels interact, and errors show only after some sequences of keys.",
  files=["src/ui/tui/trace/display.rs", "src/ui/tui/trace/mod.rs", "src/ui/tui/trace/load.rs", "src/ui/tui/init.rs"],
  mech=[("tables", "src/ui/tui/trace/display.rs make_profile_data, HierarchicalData, add_duration_cols_and_sort"), ("navigation", "src/ui/tui/trace/display.rs show_profile, zoom, switch_duration_unit, sort_other_profiles; src/ui/tui/init.rs exit_current_layer, show_backtrace"), ("normalisation", "src/ui/tui/trace/mod.rs percent_norm")],
  state=[("levels", "stack of profiles", "src/ui/tui/mod.rs State::profile_stack"), ("settings", "unit, order and sort key", "src/ui/tui/trace/display.rs ProfileDisplay")],
  observe=["screen contents after key presses"], hook="cfg crofiler_verif: tui::verif"),
 dict(id="C26", title="The table of a build shows every unit, in the order chosen, on any terminal",
  statement="When crofiler displays the profile of a build (src/ui/tui/build/display.rs display_profile; units with relative paths, the wall-clock time of all or of none, finite and not negative), the screen has one row per unit, for any number of units, and nothing panics, whatever the width of the terminal. On a terminal of W >= 50 columns a row shows the unit's maximal memory in GB (10^9 bytes) with two decimals and ` GB`, then, if the profile has times, the wall-clock time in seconds with one decimal and `s`, and then the path: in full if it takes no more than W-15 columns (W-26 with times), else shortened to that as in C08. A relative path is shown without a separator before its first component. The titles are Memory, Time (if there are times) and Source file. At first rows are ordered by memory, largest first, and the first row is selected. Choosing a column (Left, Right, Enter) orders the rows by it, memory by bytes, times by duration, and paths component by component, in the direction shown next to its title, and choosing it again reverses the direction; Up and Down move the selection, which stays within the rows. The last line is `Press H for help.`.",
  over=["inputs", "histories"], text="every build profile, width of the terminal and sequence of these keys",
  why="The table has no tests; widths, columns that may be absent, ties and orders interact.",
  files=["src/ui/tui/build/display.rs", "src/ui/display/path.rs"],
  mech=[("table", "src/ui/tui/build/display.rs display_profile"), ("rows", "src/ui/tui/build/display.rs UnitProfile as TableViewItem<ProfileColumn>: to_column, cmp"), ("paths", "src/ui/display/path.rs display_components, truncate_path_iter")],
  state=[("rows", "the units in the order shown", "cursive_table_view::TableView")],
  observe=["screen contents after key presses"], hook="cfg crofiler_verif: tui::verif"),
 dict(id="C27", title="A measurement of a trace that fails or is aborted loses nothing",
  statement='When crofiler measures the trace X.json of a unit with clang (src/ui/tui/trace/measure.rs start_measure), in a directory that can be written and where there is no X.bak, nothing is lost. If clang ends successfully, X.json is what clang wrote (nothing if it wrote nothing), no X.bak remains, and X.json is loaded (and shown as in C25, or the error is). If clang fails or is ended by a signal, cannot be started, or is aborted (button Abort), X.json is what it was before, with the same content, or absent if it was, whatever clang wrote in the meantime, and no X.bak remains; an aborted clang is gone by then, reaped included. What is shown then is, on top of what was there before the measurement: if clang failed, or was ended by a signal, `clang time-trace run failed (` its exit status `)`, followed by its standard output and its standard error where these are not empty; if it could not be started, `Failed to start clang: ` and the reason; if it was aborted, nothing. While clang runs a dialog says so, which Esc does not close; afterwards Esc works again. However much clang writes to its standard output and error, the measurement ends when clang does. This holds for each of any number of measurements of the same file, one after another.',
  over=["inputs", "fault_sequences", "histories"], text="every content of the trace before and of what clang writes, every end of clang, any number of measurements",
  why="Measurement has no tests; what is lost or left over only shows when clang fails, is aborted midway or is verbose.",
  files=["src/ui/tui/trace/measure.rs"],
  mech=[("backup", "src/ui/tui/trace/measure.rs TraceBackup"), ("clang", "src/ui/tui/trace/measure.rs CancelableClang, child_failure_message"), ("measurement", "src/ui/tui/trace/measure.rs start_measure, end_measure")],
  state=[("files", "the trace and its backup", "src/ui/tui/trace/measure.rs TraceBackup"), ("process", "clang and whether it was cancelled", "src/ui/tui/trace/measure.rs CancelableClang")],
  observe=["files after a measurement", "screen contents"], hook="cfg crofiler_verif: tui::verif"),
]
