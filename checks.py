"""What decides each property: verification units (module, function), Kani harnesses, executable contract (crate, check)."""
_T = "Unbounded: every obligation of the extracted functions is discharged by Verus/Z3 on each run. "
_F = " Trusted functions are listed in the evidence (trusted_base). f64 addition is modelled as an uninterpreted total operation with the IEEE order facts stated there."
PROPS = {
 "C01": dict(title="Activity tree nesting", units=[("tree", "make_c01")], oracle=[("oct", "C01")], note=_T + _F,
    theorems=["ActivityTreeBuilder::insert", "ActivityTreeBuilder::build"]),
 "C02": dict(title="Acceptance of activity sequences", units=[("tree", "make_c02")], oracle=[("oct", "C02")], note=_T + _F),
 "C03": dict(title="Self time", units=[("tree", "make_c03")], oracle=[("oct", "C03")], note=_T + _F),
 "C04": dict(title="Interning", units=[("asylum", "make_interner"), ("asylum", "make_sequences")], oracle=[("oas", "C04")],
    note=_T + "hashbrown's raw table and the hasher are specified, not verified; the maximum-length query iterates the raw table with unsafe code and is covered by the executable contract only."),
 "C05": dict(title="Sequence key packing", units=[("asylum", "make_key")], oracle=[("oas", "C05")], note=_T + "64-bit target; lasso's key types are specified, not verified."),
 "C06": dict(title="Path normalisation", units=[("asylum", "make_path")], oracle=[("oas", "C06")],
    note=_T + "std::path parsing and lasso's string interner are specified, not verified; conversion back to a path text is covered by the executable contract only."),
 "C07": dict(title="Single-line texts", units=[("display", "make_string")], oracle=[("crofiler", "C07")],
    note=_T + "Terminal width and grapheme boundaries come from the unicode crates and are uninterpreted; the few facts about them that the proof uses are listed in trusted_base and tested on random Unicode by the executable contract."),
 "C08": dict(title="Single-line paths", units=[("display", "make_path"), ("display", "make_filename")], oracle=[("crofiler", "C08")],
    note=_T + "Terminal width and grapheme boundaries are uninterpreted (facts used: trusted_base). That the components of an interned path are the root followed by proper segments is C06."),
 "C09": dict(title="Activity descriptions", units=[("display", "make_activity"), ("display", "make_bounded")], oracle=[("crofiler", "C09")],
    note=_T + "Modular: texts by the contract of display_string (verified in the same unit), paths and entities by contracts proved in C08 and in unit bounded_display. The text of profiling numbers is proved up to the decimal formatting of the percentage, which is uninterpreted; that displays of an entity at a given recursion depth are functions of that depth is assumed."),
 "C10": dict(title="Durations", units=[("duration", "make")], oracle=[("crofiler", "C10")],
    note=_T + "f64 arithmetic is modelled as exact for the operations made here, which holds below 2^53 microseconds as argued in DESIGN.md (floating point); decimal formatting is an uninterpreted text of the exact number, its rounding is covered by the executable contract only."),
 "C11": dict(title="Trace loading", units=[("load", "make_load")], oracle=[("oct", "C11")],
    note=_T + "The JSON parser (serde), the table of known activities and std maps are specified, not verified; which JSON texts become which events, and the entries of that table, are covered by the executable contract only. Acceptance of activity orders is C02."),
 "C12": dict(title="Activity arguments", units=[("args", "make_infer"), ("args", "make_argument"), ("load", "make_activity")], oracle=[("oct", "C12")],
    note=_T + "The C++ grammar (cpparser's nom parsers), cpp_demangle and character classes are uninterpreted: the proof is about what is passed to them and what is made of their results. RawActivityArgument::parse only forwards to parse_impl and is covered by the executable contract."),
 "C13": dict(title="Trace metadata header", units=[("display", "make_metadata")], oracle=[("crofiler", "C13")],
    note=_T + "Terminal width is uninterpreted (facts used: trusted_base, tested on random texts by C07's executable contract); RFC 3339 dates and Rust's debug escaping of texts are uninterpreted, their widths included."),
 "C14": dict(title="Flat profiles", units=[("profile", "make_listing"), ("profile", "make_run14")], oracle=[("crofiler", "C14")],
    note=_T + "Modular: displayed activities by the contracts proved in C09, the hierarchical profile by those proved in C15. std's filter, sort and map are specified, not verified; f64 is uninterpreted except for an order with NaN, decimal formatting is uninterpreted. The executable contract runs the program itself on random traces."),
 "C15": dict(title="Hierarchical profile", units=[("profile", "make_tree"), ("profile", "make_run15")], oracle=[("crofiler", "C15")],
    note=_T + "Modular: displayed activities by the contracts proved in C09, hottest_activities by that proved in C14. How termtree draws a tree of texts is uninterpreted (covered by the executable contract, which runs the program itself on random traces)."),
 "C16": dict(title="Compilation database", units=[("commands", "make_commands")], oracle=[("ocp", "C16")],
    note=_T + "serde_json, shlex and std::path are specified, not verified; which texts are JSON databases and how words are split is covered by the executable contract only (against an independent word splitter)."),
 "C17": dict(title="Freshness", units=[("commands", "make_freshness")], oracle=[("ocp", "C17")],
    note=_T + "The file system is a function from paths to modification times or errors that does not change during a call."),
 "C18": dict(title="Build profiles", units=[("output", "make_output")], kani=[("output", "kani_wall_time")], oracle=[("ocp", "C18")],
    note=_T + "The csv crate is specified, not verified. wall_time is decided bit-precisely by Kani for every f32 (no loops, so no bound)."),
 "C19": dict(title="Stop flags", units=[("measure", "make_flags")], oracle=[("ocm", "C19")],
    note=_T + "Sequential view: the main thread is the only writer of the atomic words and reads and writes happen in program order; memory ordering is not modelled. 64-bit target."),
 "C20": dict(title="Out-of-memory killer", units=[("measure", "make_oom"), ("measure", "make_client")], oracle=[("ocm", "C20")],
    note=_T + "Modular: stop flags by the contracts proved in C19. sysinfo says how much memory is available (below 2^63 bytes); the counters of the workers do not change during one update; fewer than 2^31 worker and background threads."),
 "C21": dict(title="Build measurement", units=[("measure", "make_run"), ("worker", "make_worker"), ("worker", "make_processes"), ("worker", "make_sender"), ("worker", "make_receiver")], oracle=[("ocp", "C21")],
    secs=dict(quick=200, thorough=500),
    note=_T + "Each thread is proved on its own, against what the others may do: crossbeam's queues hand out every job once, workers keep the channel open while the main thread waits, and memory ordering is not modelled. That all jobs are answered eventually (liveness) is covered by the executable contract, as are processes, pipes and threads themselves."),
 "C22": dict(title="Display of C++ entities", units=[("entity", m) for m in ["make_types", "make_declarators", "make_functions", "make_names", "make_values", "make_operators", "make_anonymous", "make_leaves", "make_lists", "make_limits"]], oracle=[("oen", "C22")],
    note=_T + "Modular: each view by the contracts of the views of its parts, so the induction over the nesting of entities (interned parts exist before what contains them) is made outside of the verifier. Interning is specified by C04; identifiers, numbers and characters are displayed by std."),
 "C23": dict(title="Reading of C++ entity names", units=[("reading", m) for m in ["make_interning", "make_functions", "make_templates", "make_anonymous", "make_types", "make_values", "make_declarators", "make_operators", "make_names", "make_legacy", "make_cv", "make_literals", "make_atoms"]], oracle=[("oen", "C23")],
    note=_T + "Under contract: every parser method from parse_entity down to identifiers, and the recursive interners they store nested lists with (the state a RefCell hides is written as a parameter, C04's contracts are assumed there). A spelling says where words end: a keyword followed by more letters is not that keyword. Each parser accepts only texts that spell what it returns (partial correctness: which texts it accepts at all is the bounded part, decided by the oracle). Modular: each parser by the contracts of those it calls, the induction over the text left to read is made outside of the verifier. nom's combinators are trusted specifications; interning is specified by C04, C05 and C06. Names are ASCII, as the code asserts in debug builds."),
 "C24": dict(title="Processing thread of the text interface", units=[("tui", "make_processing")], oracle=[("crofiler", "C24")],
    note=_T + "Modular: descriptions by the contracts proved in C09, traces by those of C01, C03, C11 and C12, the header by C13. Both sides of the channels are under contract: the worker for every sequence of requests, the methods of ProcessingThread for every history in which replies are awaited (which their &self signatures enforce on one thread). Channels and the thread itself are specified, not verified; a request for a trace when none is loaded ends the thread (no claim). The executable contract runs the real thread on random histories over several files."),
 "C25": dict(title="Profiles of the text interface", units=[("tui", "make_tables")], oracle=[("crofiler", "C25")],
    note=_T + "Under contract: the rows, cells, order, columns and titles of a table, the width left for descriptions, the norms of percentages, and what loading a trace (the loading screen, cancelling, errors), Enter, F, U, choosing an order, selecting a row, Esc and B do to the settings, the layers, and the tables of all levels: each keeps the invariant that every level shows the current unit with its own norm, in the current order; a level that is opened has one row per activity asked for, described in the columns that are left, the selected one described in full below, and the header and the reference to the help last. cursive (state, layers, tables and texts by name) is specified; its closures are verified as functions of their parameters and of what they capture, builders of views by their parameters. Not under contract: the layout of views, the Abort button, the dialogs' contents, and the order in which cursive calls what: whole sessions of key presses are decided by the executable contract (bounded), which runs the real interface on a recorded screen and compares what it shows after every key with what the trace and the keys so far call for."),
 "C26": dict(title="Table of a build", units=[("tui", "make_build")], oracle=[("crofiler", "C26")],
    note=_T + "Under contract: the cells of a row, the comparison of rows by each column, the titles, order and widths of the columns, the width left for paths on every terminal, what the table is sorted by at first, and what the screen is made of. cursive and cursive_table_view (which sorts and draws rows, and reacts to keys) are specified, f32 and the formatting of numbers are std's. Paths are shortened by the contracts proved in C08. Not claimed: Enter on a row (which measures the unit again and loads its trace). The executable contract runs sessions of keys on a recorded screen."),
 "C27": dict(title="Measurement of a trace", units=[("tracing", "make_tracing")], oracle=[("crofiler", "C27")],
    note=_T + "Under contract: the backup (TraceBackup), starting clang, waiting for it and aborting it (CancelableClang, CancelTrigger), the message about a clang that failed, and start_measure with the thread that it starts, from the files before to the files afterwards and what the interface is asked to show. Files (rename and remove_file in a directory that can be written), processes, threads and cursive are specified; clang is assumed to write nothing but the trace among the files concerned. Partial correctness: that clang ends is not claimed. The state of the screen meanwhile (end_measure) and the thread that reads a pipe are left to the executable contract, in which a shell stands in for clang."),
}
