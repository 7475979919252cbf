//! Executable form of the loading contract, run on ClangTrace::from_str: an independent reading of the same JSON
use crate::args::{infer, kind};
use crate::table::KNOWN;
use crate::tree::acceptable;
use clang_time_trace::ClangTrace;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use vkit::{Ctx, Rng};

#[derive(Debug, PartialEq, Clone)]
struct Act { name: String, kind: String, detail: Option<String>, start: f64, dur: f64 }
#[derive(Debug, PartialEq, Default)]
struct Trace { acts: Vec<Act>, stats: HashMap<String, (f64, usize)>, process: String, thread: Option<String>, pid: Option<i32>, begin: Option<f64> }

fn opt<'a>(o: &'a Map<String, Value>, k: &str) -> Option<&'a Value> { o.get(k).filter(|v| !v.is_null()) }
fn int(v: &Value) -> Result<i32, String> { v.as_i64().and_then(|i| i32::try_from(i).ok()).ok_or(format!("{v} is no id")) }
fn num(v: &Value) -> Result<f64, String> { v.as_f64().ok_or(format!("{v} is no number")) }
fn text(v: &Value) -> Result<String, String> { v.as_str().map(str::to_string).ok_or(format!("{v} is no text")) }
fn need<'a>(o: &'a Map<String, Value>, k: &str) -> Result<&'a Value, String> { o.get(k).ok_or(format!("no {k}")) }
fn none(o: &Map<String, Value>, ks: &[&str]) -> Result<(), String> {
    for k in ks { if opt(o, k).is_some() { return Err(format!("unexpected {k}")); } }
    Ok(())
}
/// the single text argument "detail", if any
fn detail(args: Option<&Value>) -> Result<Option<String>, String> {
    let Some(a) = args else { return Ok(None) };
    let a = a.as_object().ok_or("args is no object")?;
    match (a.len(), a.get("detail")) {
        (0, _) => Ok(None),
        (1, Some(Value::String(s))) => Ok(Some(s.clone())),
        _ => Err(format!("arguments {a:?}")),
    }
}
/// what the documentation of the loader says about a JSON text
fn read(v: &Value) -> Result<Trace, String> {
    let o = v.as_object().ok_or("no object")?;
    let mut t = Trace::default();
    for k in ["systemTraceEvents", "powerTraceAsString", "stackFrames", "samples", "controllerTraceDataKey"] { none(o, &[k])? }
    if o.get("displayTimeUnit").is_some_and(|u| u != "ms") { return Err("display unit".into()); }
    if let Some(b) = o.get("beginningOfTime") { t.begin = Some(num(b)?); }
    let mut pid: Option<i32> = None;
    let mut process = None;
    for e in need(o, "traceEvents")?.as_array().ok_or("no list of events")? {
        let e = e.as_object().ok_or("an event is no object")?;
        let mut merge = |p: i32| if pid.is_some_and(|q| q != p) { Err(format!("two processes {pid:?} {p}")) } else { pid = Some(p); Ok(()) };
        let single = |p: i32, t: i32| if t == p || (p == 1 && t == 0) { Ok(()) } else { Err("several threads".to_string()) };
        match text(need(e, "ph")?)?.as_str() {
            "X" => {
                let (p, tid, ts, dur) = (int(need(e, "pid")?)?, int(need(e, "tid")?)?, num(need(e, "ts")?)?, num(need(e, "dur")?)?);
                let name = text(opt(e, "name").ok_or("no name")?)?;
                none(e, &["cat", "tts", "tdur", "sf", "stack", "esf", "estack"])?;
                merge(p)?;
                if ts > 1.0 {
                    single(p, tid)?;
                    let d = detail(opt(e, "args"))?;
                    let (kind, detail) = match (KNOWN.iter().find(|k| k.0 == name).map(|k| k.1), d) {
                        (Some("Nothing"), None) => ("Nothing", None),
                        (Some("Nothing"), Some(_)) => return Err("unexpected detail".into()),
                        (Some(k), Some(d)) => (k, Some(d)),
                        (Some(k @ ("SymbolOpt" | "UnnamedLoopOpt")), None) => (k, None),
                        (Some(_), None) => return Err("missing detail".into()),
                        (None, Some(d)) => (infer(&d), Some(d)),
                        (None, None) => ("Nothing", None),
                    };
                    t.acts.push(Act { name, kind: kind.into(), detail, start: ts, dur });
                } else {
                    if tid == 0 || ts != 0.0 { return Err("neither activity nor statistic".into()); }
                    let n = name.strip_prefix("Total ").ok_or("no Total")?;
                    let a = opt(e, "args").and_then(|a| a.as_object()).ok_or("no args")?;
                    if a.len() != 2 { return Err("args".into()); }
                    num(need(a, "avg ms")?)?;
                    let c = need(a, "count")?.as_u64().ok_or("count")?;
                    if t.stats.insert(n.to_string(), (dur, c as usize)).is_some() { return Err("duplicate statistic".into()); }
                }
            }
            "M" => {
                let which = text(need(e, "name")?)?;
                let p = match e.get("pid") { Some(Value::Null) | None => None, Some(v) => Some(int(v)?) };
                let tid = match e.get("tid") { Some(Value::Null) | None => None, Some(v) => Some(int(v)?) };
                let (Some(p), Some(tid)) = (p, tid) else { return Err("ids".into()) };
                let a = need(e, "args")?.as_object().ok_or("args")?;
                let name = text(need(a, "name")?)?;
                if a.len() != 1 || opt(e, "tts").is_some() || num(opt(e, "ts").ok_or("ts")?)? != 0.0 { return Err("metadata".into()); }
                if text(opt(e, "cat").ok_or("cat")?)?.split(',').any(|c| !c.is_empty()) { return Err("categories".into()); }
                merge(p)?;
                match which.as_str() {
                    "process_name" => { single(p, tid)?; if process.replace(name).is_some() { return Err("two process names".into()); } }
                    "thread_name" => { if p != tid { return Err("thread".into()); } if t.thread.replace(name).is_some() { return Err("two thread names".into()); } }
                    _ => return Err("metadata".into()),
                }
            }
            _ => return Err("event".into()),
        }
    }
    t.process = process.ok_or("no process name")?;
    t.pid = pid.filter(|p| *p > 1);
    acceptable(&t.acts.iter().map(|a| (a.start, a.dur)).collect::<Vec<_>>())?;
    Ok(t)
}
fn loaded(t: &ClangTrace) -> Trace {
    let mut acts: Vec<_> = t.all_activities().collect();
    acts.sort_by_key(|a| a.id());
    Trace {
        acts: acts.iter().map(|a| { let r = a.activity().raw_argument(); Act { name: a.activity().name().into(), kind: kind(r.arg_type()).into(), detail: r.detail().map(|d| d.to_string()), start: a.start(), dur: a.duration() } }).collect(),
        stats: t.global_stats().iter().map(|(k, s)| (k.to_string(), (s.total_duration(), s.count()))).collect(),
        process: t.process_name().into(), thread: t.thread_name().map(Into::into), pid: t.pid(), begin: t.beginning_of_time(),
    }
}
fn word(r: &mut Rng) -> String {
    let n = r.below(5);
    (0..n).map(|_| *r.pick(&['a', 'Z', '0', ' ', '_', '/', '"', '\\', '\n', 'é', '😀', '<', '(', ',', '&', '\u{0}'])).collect()
}
fn number(r: &mut Rng) -> Value {
    match r.below(6) { 0 => json!(r.below(1000)), 1 => json!(r.below(1 << 30) as f64 / 8.0), 2 => json!(0.0), 3 => json!(-(r.below(100) as f64) / 3.0), 4 => json!(0.1 + r.unit() * 1e15), _ => json!(1.0 / (1 + r.below(50)) as f64) }
}
pub fn any_detail(r: &mut Rng) -> String {
    match r.below(14) {
        0 => "[module]".into(), 1 => "<unnamed loop>".into(), 2 => "/usr/include/a b.h".into(), 3 => "_ZN1a1bEv".into(), 4 => "(_ZN1a1bEv)".into(), 5 => "main".into(),
        6 => "X86 DAG->DAG Instruction Selection".into(), 7 => "std::vector<int>".into(), 8 => "Foo<Bar>::baz".into(), 9 => "__cxx_global_var_init.4".into(), 10 => "_GLOBAL__sub_I_a.cpp".into(),
        11 => "".into(), 12 => "(main)".into(), _ => word(r),
    }
}
fn activity(r: &mut Rng, start: f64, dur: f64, p: i32, tid: i32) -> Value {
    let (name, kind) = if r.chance(1, 5) { ((*r.pick(&["Total stuff", "NewThing", "process_name", "", "Frontends", "source"])).to_string(), "?") } else { let k = r.pick(KNOWN); (k.0.to_string(), k.1) };
    let mut e = json!({"ph": "X", "pid": p, "tid": tid, "ts": start, "dur": dur, "name": name});
    if kind == "Nothing" || (matches!(kind, "?" | "SymbolOpt" | "UnnamedLoopOpt") && r.chance(1, 2)) {
        match r.below(4) { 0 => e["args"] = json!({}), 1 => e["args"] = Value::Null, _ => {} }
    } else { e["args"] = json!({"detail": any_detail(r)}); }
    e
}
fn forest(r: &mut Rng, n: usize, lo: f64, hi: f64, out: &mut Vec<(f64, f64)>) {
    // n activities within [lo, hi], each after what runs inside it
    let mut at = lo;
    let mut left = n;
    while left > 0 && at < hi {
        let inside = r.below(left);
        let end = if left == 1 { at + (hi - at) * 0.5 } else { at + (hi - at) * (0.3 + 0.5 * r.unit()) };
        let (at8, end8) = ((at * 8.0).round() / 8.0, (end * 8.0).round() / 8.0);
        forest(r, inside, at8, end8, out);
        out.push((at8, end8 - at8));
        left -= inside + 1;
        at = end8;
    }
}
/// change something in a valid trace; most changes make it invalid
fn mutate(r: &mut Rng, v: &mut Value) {
    const STD: [&str; 6] = ["systemTraceEvents", "powerTraceAsString", "controllerTraceDataKey", "stackFrames", "samples", "displayTimeUnit"];
    let n = v["traceEvents"].as_array().map_or(0, |a| a.len());
    match r.below(12) {
        0 => { let k = *r.pick(&STD); v[k] = match k { "stackFrames" => json!({}), "samples" => json!([]), "displayTimeUnit" => json!(*r.pick(&["ms", "ns"])), _ => json!("x") }; }
        1 => { let k = *r.pick(&STD[..5]); v[k] = Value::Null; }
        2 => v["beginningOfTime"] = match r.below(6) { 0 => json!("12"), 1 => Value::Null, 2 => json!([1.5]), 3 => json!(true), _ => number(r) },
        3 => v["unknownThing"] = json!({"a": [1, 2]}),
        4 if n > 0 => { let i = r.below(n); v["traceEvents"].as_array_mut().unwrap().remove(i); }
        5 if n > 0 => { let i = r.below(n); let e = v["traceEvents"][i].clone(); let j = r.below(n + 1); v["traceEvents"].as_array_mut().unwrap().insert(j, e); }
        6 if n > 0 => { let (i, j) = (r.below(n), r.below(n)); v["traceEvents"].as_array_mut().unwrap().swap(i, j); }
        7 => { let p = json!({"ph": *r.pick(&["B", "E", "M", "X", "M"]), "pid": 1, "tid": 0, "ts": 0, "name": *r.pick(&["process_labels", "process_sort_index", "thread_sort_index", "other"]), "cat": "", "args": {"labels": "a", "sort_order": 1, "name": "b"}}); v["traceEvents"].as_array_mut().unwrap().push(p); }
        _ if n > 0 => {
            let i = r.below(n);
            let e = &mut v["traceEvents"][i];
            match r.below(12) {
                0 => { let k = *r.pick(&["name", "ts", "dur", "pid", "tid", "args", "ph", "cat"]); e.as_object_mut().unwrap().remove(k); }
                1 => e["cat"] = match r.below(4) { 0 => json!(","), 1 => json!("a,b"), 2 => Value::Null, _ => json!("") },
                2 => e["tts"] = if r.chance(1, 3) { Value::Null } else { number(r) },
                3 => e["tdur"] = if r.chance(1, 3) { Value::Null } else { number(r) },
                4 => { let k = *r.pick(&["sf", "esf", "stack", "estack"]); e[k] = if k.ends_with("sf") { json!(3) } else { json!(["a", "b"]) }; }
                5 => e["pid"] = json!(*r.pick(&[0, 1, 2, -1, 7, 4242])),
                6 => e["tid"] = json!(*r.pick(&[0, 1, 2, -1, 7, 4242])),
                7 => e["ts"] = json!(*r.pick(&[0.0, 1.0, 0.5, 1.0000000000000002, -3.0, 2.0, 0.1, -0.0])),
                8 => e["ts"] = number(r),
                9 => { let a = &mut e["args"]; if a.is_object() { let k = *r.pick(&["detail", "count", "avg ms", "name", "extra"]); a[k] = match r.below(4) { 0 => json!(any_detail(r)), 1 => json!(r.below(9)), 2 => json!(-1), _ => number(r) }; } else { *a = json!({"detail": any_detail(r)}); } }
                10 => { if let Some(a) = e["args"].as_object_mut() { let ks: Vec<String> = a.keys().cloned().collect(); if !ks.is_empty() { let i = r.below(ks.len()); a.remove(&ks[i]); } } }
                _ => e["name"] = match r.below(6) { 0 => json!("Total "), 1 => json!("total x"), 2 => json!("Total Source"), 3 => json!("Totals"), 4 => Value::Null, _ => json!("Frontend") },
            }
        }
        _ => {}
    }
}
pub fn c11(ctx: &mut Ctx) {
    let mut r = Rng::new(ctx.seed);
    // every known activity, loaded on its own
    for (name, kind) in KNOWN {
        let (args, e) = if *kind == "Nothing" { (None, None) } else { (Some(json!({"detail": "x"})), Some("x")) };
        let mut ev = json!({"ph": "X", "pid": 1, "tid": 0, "ts": 5, "dur": 1, "name": name});
        if let Some(a) = args { ev["args"] = a; }
        let v = json!({"traceEvents": [ev, {"ph": "M", "pid": 1, "tid": 0, "ts": 0, "cat": "", "name": "process_name", "args": {"name": "c"}}]});
        ctx.case(|| v.to_string(), |c| {
            let t = loaded(&v.to_string().parse::<ClangTrace>().map_err(|e| format!("rejected: {e}"))?);
            let a = &t.acts[0];
            c.hit("known activity");
            if a.name != *name || a.kind != *kind || a.detail.as_deref() != e { return Err(format!("{name} of kind {kind} loaded as {a:?}")); }
            Ok(())
        });
        if *kind == "Nothing" {
            let v = v.to_string().replacen("\"name\":", "\"args\":{\"detail\":\"x\"},\"name\":", 1);
            ctx.case(|| v.clone(), |c| { c.hit("known activity"); if v.parse::<ClangTrace>().is_ok() { return Err(format!("{name} accepted with a detail")); } Ok(()) });
        }
    }
    for _ in 0..ctx.n(25_000, 600_000) {
        if ctx.done() { break; }
        let (p, tid) = *r.pick(&[(1, 0), (1, 1), (42, 42), (0, 0), (-5, -5), (2, 2), (1, 0)]);
        let mut evs = Vec::new();
        let n = { let m = *r.pick(&[1, 3, 8]); r.below(m + 1) };
        let hi = 2.0 + r.below(100_000) as f64;
        forest(&mut r, n, 2.0, hi, &mut evs);
        let mut list: Vec<Value> = evs.iter().map(|(s, d)| activity(&mut r, *s, *d, p, tid)).collect();
        let stats = r.below(4);
        for k in 0..stats {
            let name = format!("Total {}{}", r.pick(&["Source", "Frontend", "", "Total ", "é"]), if r.chance(7, 8) { k.to_string() } else { String::new() });
            let e = json!({"ph": "X", "pid": p, "tid": 1 + r.below(3) as i32, "ts": if r.chance(1, 9) { json!(0.0) } else { json!(0) }, "dur": number(&mut r), "name": name, "args": {"count": r.below(9), "avg ms": number(&mut r)}});
            let at = if r.chance(1, 3) { r.below(list.len() + 1) } else { list.len() };
            list.insert(at, e);
        }
        let names = match r.below(4) { 0 => vec!["process_name", "thread_name"], 1 => vec!["thread_name", "process_name"], _ => vec!["process_name"] };
        for m in names {
            let t2 = if m == "thread_name" { p } else { tid };
            let e = json!({"ph": "M", "pid": p, "tid": t2, "ts": 0, "cat": if r.chance(1, 9) { "," } else { "" }, "name": m, "args": {"name": word(&mut r)}});
            let at = if r.chance(1, 3) { r.below(list.len() + 1) } else { list.len() };
            list.insert(at, e);
        }
        let mut v = json!({"traceEvents": list});
        if r.chance(1, 3) { v["beginningOfTime"] = number(&mut r); }
        for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2]) { mutate(&mut r, &mut v) }
        let s = v.to_string();
        ctx.case(|| s.clone(), |c| {
            let v: Value = serde_json::from_str(&s).map_err(|e| format!("generator: {e}"))?;
            match (s.parse::<ClangTrace>(), read(&v)) {
                (Err(_), Err(_)) => { c.hit("rejected"); Ok(()) }
                (Ok(_), Err(m)) => Err(format!("accepted although {m}")),
                (Err(e), Ok(_)) => Err(format!("rejected: {}", e.to_string().chars().take(300).collect::<String>())),
                (Ok(t), Ok(w)) => {
                    let g = loaded(&t);
                    c.hit(if w.acts.is_empty() { "loaded without activities" } else { "loaded" });
                    if !w.stats.is_empty() { c.tally("with statistics"); }
                    if g != w { return Err(format!("loaded {g:?} instead of {w:?}")); }
                    Ok(())
                }
            }
        });
    }
}
