//! Executable form of the contracts on activity arguments
use clang_time_trace::ActivityArgumentType as T;

pub fn kind(t: T) -> &'static str {
    match t {
        T::Nothing => "Nothing", T::String => "String", T::FilePathOrModule => "FilePathOrModule", T::CppEntity => "CppEntity", T::Symbol => "Symbol",
        T::SymbolOpt => "SymbolOpt", T::UnnamedLoop => "UnnamedLoop", T::UnnamedLoopOpt => "UnnamedLoopOpt",
    }
}
/// a word of an informational text
fn plain(w: &str) -> bool {
    if w == "&" || w == "memcmp()" { return true; }
    let c: Vec<char> = w.chars().collect();
    if c.is_empty() { return true; }
    if !c[0].is_alphanumeric() || !c[c.len() - 1].is_alphanumeric() { return false; }
    (1..c.len().max(2) - 1).all(|i| c[i].is_alphanumeric() || c[i] == '-' || c[i] == '/' || (i > 1 && c[i] == '>' && c[i - 1] == '-') || (i > 1 && c[i] == '_' && c[i - 1].is_uppercase()))
}
/// the kind of argument that a detail text of an unknown activity is taken for
pub fn infer(d: &str) -> &'static str {
    let s = if d.len() > 1 && d.starts_with('(') && d.ends_with(')') { &d[1..d.len() - 1] } else { d };
    if s == "main" || s == "__clang_call_terminate" || ["_Z", "__cxx_global_var_init", "_GLOBAL__sub_I_"].iter().any(|p| s.starts_with(p)) { return "Symbol"; }
    if d == "<unnamed loop>" { return "UnnamedLoop"; }
    if d.starts_with('/') || d == "[module]" { return "FilePathOrModule"; }
    if d.chars().next().is_some_and(|c| !c.is_uppercase()) { return "CppEntity"; }
    if d.split(' ').all(plain) { "String" } else { "CppEntity" }
}

use clang_time_trace::{ActivityArgument, ActivityArgumentError, ClangTrace, Symbol};
use cpp_demangle::{DemangleOptions, ParseOptions};
use cpparser::EntityParser;
use serde_json::json;
use vkit::{Ctx, Rng};
use crate::table::KNOWN;

fn entity(s: &str) -> Option<String> { let mut p = EntityParser::new(); p.parse_entity(s).ok().map(|k| p.entity(k).to_string()) }
fn readable(s: &str) -> String { entity(s).map_or(format!("demangled {s}"), |e| format!("parsed {e}")) }
fn symbol(s: &str) -> String {
    let s = if s.len() > 1 && s.starts_with('(') && s.ends_with(')') { &s[1..s.len() - 1] } else { s };
    let d = cpp_demangle::Symbol::new_with_options(s, &ParseOptions::default().recursion_limit(1024)).ok()
        .and_then(|m| m.demangle(&DemangleOptions::default().hide_expression_literal_types().no_return_type().recursion_limit(1024)).ok());
    match d { Some(d) => readable(&d), None if s == "main" || s == "__clang_call_terminate" => readable(s), None => format!("kept {s}") }
}
/// the documented result of parsing an argument of that kind
fn expected(kind: &str, d: Option<&str>) -> Result<String, &'static str> {
    Ok(match (kind, d) {
        ("Nothing" | "SymbolOpt" | "UnnamedLoopOpt", None) => "nothing".into(),
        ("String", Some(d)) => format!("text {d}"),
        ("FilePathOrModule", Some("[module]")) => "module".into(),
        ("FilePathOrModule", Some(d)) => {
            if !d.starts_with('/') { return Err("path"); }
            let mut segs: Vec<&str> = vec![];
            for s in d.split('/') { match s { "" | "." => {} ".." => { segs.pop(); } s => segs.push(s) } }
            format!("path {:?}", segs)
        }
        ("CppEntity", Some(d)) => format!("entity {}", entity(d).ok_or("entity")?),
        ("Symbol" | "SymbolOpt", Some(d)) => format!("symbol {}", symbol(d)),
        ("UnnamedLoop" | "UnnamedLoopOpt", Some(d)) => if d == "<unnamed loop>" { "loop".into() } else { return Err("loop") },
        _ => unreachable!("{kind} {d:?}"),
    })
}
fn actual(a: ActivityArgument) -> String {
    match a {
        ActivityArgument::Nothing => "nothing".into(), ActivityArgument::String(s) => format!("text {s}"), ActivityArgument::Module => "module".into(), ActivityArgument::UnnamedLoop => "loop".into(),
        ActivityArgument::FilePath(p) => format!("path {:?}", p.components().map(|s| s.value().to_string()).skip(1).collect::<Vec<_>>()),
        ActivityArgument::CppEntity(e) => format!("entity {e}"),
        ActivityArgument::Symbol(Symbol::Parsed(e)) => format!("symbol parsed {e}"), ActivityArgument::Symbol(Symbol::Demangled(s)) => format!("symbol demangled {s}"), ActivityArgument::Symbol(Symbol::MaybeMangled(s)) => format!("symbol kept {s}"),
    }
}
const SYMBOLS: &[&str] = &["_Z3fooi", "_ZN1a1bEv", "_ZNSt6vectorIiSaIiEE9push_backERKi", "_Z3fooIiEvT_", "_Z1fILi3EEvv", "_Z1fILb1ELj7EEiv", "_ZTV1A", "_ZGVZ3foovE1x", "_Z", "_ZN", "_ZN1aC2Ev", "_ZNK1a1bIcEEPKcv", "_ZZ4mainENKUlvE_clEv",
    "main", "__clang_call_terminate", "__cxx_global_var_init", "__cxx_global_var_init.12", "_GLOBAL__sub_I_a.cpp", "_Zfoo", "main2", "__clang_call_terminate.1", "_z3foo", "_ZN3FooIXadL_Z3bariEEE3bazEv", "_ZTS3Foo", "_ZN3foo3barIT_EEvv", "_Z3fooT_", "_Z3barIiEvT0_", "_ZN1xIiE1yIT1_EEvv", "_Z1fIiEDTcl1gfp_EET_", "_ZThn8_N1a1bEv", "printf", ""];
const ENTITIES: &[&str] = &["std::vector<int>", "Foo<Bar>::baz", "int (*)(char)", "(anonymous namespace)::X", "a::operator<<", "<lambda at /a/b.cpp:1:2>", "(lambda at /a/b.cpp:3:4)", "A<1, 'c', -2>", "unsigned long long", "a b c", "Foo<", ">>", "std::function<void (int)>", "decltype(nullptr)", "(unnamed struct at /x.h:1:1)", "A::~A", "x86"];
const WORDS: &[&str] = &["X86", "DAG->DAG", "Instruction", "&", "memcmp()", "A_B", "a_b", "Aa_b", "A_", "_A", "a-", "-a", "x->y", "x>y", "x--y", "a/b", "", "é", "Éa", "É_é", "1", "a.b", "a->", "O_3", "AB_", "A->", "a-_b", "ǅ_x", "(x)", "memcmp", "&&", "A__b", "a->>b", "->"];
/// a mangled name, often changed a little (the demangler gives up on some of these halfway)
fn symbolic(r: &mut Rng) -> String {
    let mut s: Vec<char> = r.pick(SYMBOLS).chars().collect();
    for _ in 0..if r.chance(1, 2) { 1 + r.below(3) } else { 0 } {
        let at = r.below(s.len() + 1);
        let new = match r.below(8) { 0 => "T_", 1 => "T0_", 2 => "IiE", 3 => "IT_E", 4 => "S_", 5 => "DTcl1gfp_EE", 6 => "E", _ => "1x" };
        if r.chance(1, 4) && at < s.len() { s.remove(at); } else { s.splice(at..at, new.chars()); }
    }
    s.into_iter().collect()
}
fn detail(r: &mut Rng) -> String {
    let s = match r.below(9) {
        0 | 1 => symbolic(r),
        2 => r.pick(ENTITIES).to_string(),
        3 | 4 => (0..1 + r.below(4)).map(|_| r.pick(WORDS).to_string()).collect::<Vec<_>>().join(if r.chance(1, 12) { "  " } else { " " }),
        5 => { let abs = r.chance(5, 6); (if abs { "/" } else { "" }).to_string() + &(0..r.below(6)).map(|_| *r.pick(&["a", "..", ".", "", "usr", "b c", "é"])).collect::<Vec<_>>().join("/") }
        6 => r.pick(&["[module]", "<unnamed loop>", "<unnamed loop", "[module", "[module] "]).to_string(),
        7 => (0..r.below(6)).map(|_| *r.pick(&['A', 'a', '_', '-', '>', '/', '&', ' ', '(', ')', 'Z', '1', 'É', 'ß', '\u{301}', '.'])).collect(),
        _ => { let k = r.below(9); crate::load::any_detail(&mut Rng::new(k as u64)) }
    };
    if r.chance(1, 5) { format!("({s})") } else { s }
}
pub fn c12(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed);
    for _ in 0..ctx.n(40_000, 400_000) {
        if ctx.done() { break; }
        let evs: Vec<(String, &str, Option<String>)> = (0..1 + r.below(6)).map(|_| {
            if r.chance(1, 2) { let d = r.chance(8, 9).then(|| detail(&mut r)); ("A new activity".to_string(), d.as_deref().map_or("Nothing", infer), d) }
            else { let k = r.pick(KNOWN); let d = match k.1 { "Nothing" => None, "SymbolOpt" | "UnnamedLoopOpt" if r.chance(1, 3) => None, _ => Some(detail(&mut r)) }; (k.0.to_string(), k.1, d) }
        }).map(|(n, k, d): (String, &str, Option<String>)| match d {
            // the parser of C++ names is documented to assume ASCII
            Some(d) if matches!(k, "CppEntity" | "Symbol" | "SymbolOpt") && !d.is_ascii() => {
                let d = d.replace(|c: char| !c.is_ascii(), "u");
                let k = if n.starts_with("A new") { infer(&d) } else { k };
                (n, k, Some(d))
            }
            d => (n, k, d),
        }).collect();
        let order: Vec<usize> = (0..evs.len() + r.below(4)).map(|_| r.below(evs.len())).collect();
        let mut list: Vec<_> = evs.iter().enumerate().map(|(i, (n, _, d))| { let mut e = json!({"ph": "X", "pid": 1, "tid": 0, "ts": 2 + i, "dur": 1, "name": n}); if let Some(d) = d { e["args"] = json!({"detail": d}); } e }).collect();
        list.push(json!({"ph": "M", "pid": 1, "tid": 0, "ts": 0, "cat": "", "name": "process_name", "args": {"name": "c"}}));
        let v = json!({"traceEvents": list}).to_string();
        ctx.case(|| format!("{evs:?} parsed in order {order:?}"), |c| {
            let mut t: ClangTrace = v.parse().map_err(|e| format!("rejected: {e}"))?;
            let mut ids: Vec<_> = t.all_activities().map(|a| a.id()).collect();
            ids.sort();
            let mut done = Vec::new();
            for &i in &order {
                let (_, k, d) = &evs[i];
                let raw = t.activity_trace(ids[i]).activity().raw_argument().clone();
                if kind(raw.arg_type()) != *k { return Err(format!("argument {d:?} of {} is taken for {}, not {k}", evs[i].0, kind(raw.arg_type()))); }
                let want = expected(k, d.as_deref());
                let got = raw.parse(&mut t);
                let code = |e: &ActivityArgumentError| match e { ActivityArgumentError::BadFilePath(_) => "path", ActivityArgumentError::BadCppEntity(_) => "entity", ActivityArgumentError::UnexpectedLoopName(_) => "loop" };
                match (&got, &want) {
                    (Ok(a), Ok(w)) => { let s = actual(a.resolve(&t)); if s != *w { return Err(format!("{d:?} ({k}) gives {s:?}, not {w:?}")); } }
                    (Err(e), Err(w)) if code(e) == *w => {}
                    _ => return Err(format!("{d:?} ({k}) gives {got:?}, not {want:?}")),
                }
                c.hit(match &want { Ok(w) if w.starts_with("symbol p") => "parsed symbol", Ok(w) if w.starts_with("symbol d") => "demangled symbol", Ok(w) if w.starts_with("symbol") => "symbol kept", Ok(w) if w.starts_with("entity") => "entity", Ok(w) if w.starts_with("path") => "path", Ok(w) if w.starts_with("text") => "text", Ok(_) => "constant or nothing", Err(e) => e });
                if let (Ok(a), Ok(w)) = (got, want) { done.push((a, w)); }
            }
            for (a, w) in &done { let s = actual(a.resolve(&t)); if s != *w { return Err(format!("{w:?} has become {s:?} after other arguments were parsed")); } }
            Ok(())
        });
    }
}
